// A stand-in for the widgets of GTK+ 3, so that the graphical tools can run
// without a display and be driven by a script.  Linked into a tool's program, it
// takes the place of the library's functions of the same names; everything that
// needs no display (list stores, tree models, entry buffers, signals) is GTK's own.
//
// TOOL_SCRIPT names a file of events, one a line:
//   text HEX      the user replaces the text of the entry
//   activate      the user presses return in the entry
//   click HEX     the user clicks the button with that label
//   spin N        the user changes the spin button
//   close         the user closes the window
// After the window is built and after every event what is shown is appended to
// the file named by TOOL_DUMP.
#include <gtk/gtk.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
#include <dirent.h>
#include <sys/stat.h>

namespace {
using std::string;
using std::vector;

struct Fake {
    GInitiallyUnowned base; // what GObject needs comes first
    string *label;          // of a button or label
    char kind;              // e entry, l label, b button, s spin button, t tree view, c column, r renderer, w anything else
    GtkEntryBuffer *buffer;
    bool quiet;
    double lo, hi, step, value;
    GtkTreeModel *model;
    vector<Fake *> *columns;
    int textColumn;
    bool frozen;
};
struct FakeClass { GInitiallyUnownedClass base; };
vector<Fake *> made;
vector<string> commands;
int depth = 0;
bool quitting = false;

void fakeClassInit(gpointer c, gpointer) {
    GType t = G_TYPE_FROM_CLASS(c);
    for(const char *s : {"changed", "activate", "clicked", "value-changed", "destroy", "show", "hide", "pressed", "released", "realize", "map"})
        g_signal_new(s, t, G_SIGNAL_RUN_LAST, 0, NULL, NULL, NULL, G_TYPE_NONE, 0);
    for(const char *s : {"delete-event", "key-press-event", "key-release-event", "focus-in-event", "focus-out-event", "button-press-event"})
        g_signal_new(s, t, G_SIGNAL_RUN_LAST, 0, g_signal_accumulator_true_handled, NULL, NULL, G_TYPE_BOOLEAN, 1, G_TYPE_POINTER);
}
GType fakeType() {
    static GType t = 0;
    if(!t) t = g_type_register_static_simple(G_TYPE_INITIALLY_UNOWNED, "ColumbusFakeWidget", sizeof(FakeClass), fakeClassInit, sizeof(Fake), NULL, (GTypeFlags)0);
    return t;
}
Fake *fk(const void *p) {
    for(Fake *f : made) if(f == p) return f;
    return NULL;
}
Fake *make(char kind, const char *text = "") {
    Fake *f = (Fake *)g_object_new(fakeType(), NULL);
    g_object_ref_sink(f);
    f->kind = kind;
    f->label = new string(text ? text : "");
    f->columns = new vector<Fake *>();
    f->textColumn = -1;
    f->step = 1;
    made.push_back(f);
    return f;
}
GtkWidget *w(Fake *f) { return (GtkWidget *)f; }

void bufferChanged(GtkEntryBuffer *, Fake *f) { if(!f->quiet) g_signal_emit_by_name(f, "changed"); }
void inserted(GtkEntryBuffer *b, guint, const char *, guint, gpointer f) { bufferChanged(b, (Fake *)f); }
void deleted(GtkEntryBuffer *b, guint, guint, gpointer f) { bufferChanged(b, (Fake *)f); }
void adopt(Fake *f, GtkEntryBuffer *b) {
    f->buffer = b;
    g_signal_connect_after(b, "inserted-text", G_CALLBACK(inserted), f);
    g_signal_connect_after(b, "deleted-text", G_CALLBACK(deleted), f);
}
void setText(Fake *f, const char *text) {
    if(!strcmp(gtk_entry_buffer_get_text(f->buffer), text)) return;
    f->quiet = true;
    gtk_entry_buffer_delete_text(f->buffer, 0, -1);
    gtk_entry_buffer_insert_text(f->buffer, 0, text, -1);
    f->quiet = false;
    g_signal_emit_by_name(f, "changed");
}
void setValue(Fake *f, double v) {
    if(v < f->lo) v = f->lo;
    if(v > f->hi) v = f->hi;
    if(v == f->value) return;
    f->value = v;
    g_signal_emit_by_name(f, "value-changed");
}

string hex(const string &s) {
    string o = "x";
    char b[3];
    for(unsigned char c : s) { sprintf(b, "%02x", c); o += b; }
    return o;
}
string unhex(const char *p) {
    string o;
    if(*p == 'x') p++;
    for(; p[0] > ' ' && p[1] > ' '; p += 2) { char b[3] = {p[0], p[1], 0}; o += (char)strtol(b, NULL, 16); }
    return o;
}
void dump(const char *what) {
    static FILE *out = NULL;
    if(!out) {
        const char *n = getenv("TOOL_DUMP");
        out = fopen(n ? n : "/dev/null", "w");
        if(!out) exit(77);
    }
    fprintf(out, "event %s\n", what);
    for(Fake *f : made) {
        if(f->kind == 'e') fprintf(out, "entry %s\n", hex(gtk_entry_buffer_get_text(f->buffer)).c_str());
        if(f->kind == 'l') fprintf(out, "label %s\n", hex(*f->label).c_str());
        if(f->kind == 's') fprintf(out, "spin %.17g\n", f->value);
        if(f->kind == 't') {
            fprintf(out, "table");
            for(Fake *c : *f->columns) fprintf(out, " %s", hex(*c->label).c_str());
            fprintf(out, "\n");
            GtkTreeIter it;
            if(f->model && gtk_tree_model_get_iter_first(f->model, &it)) do {
                fprintf(out, "row");
                for(Fake *c : *f->columns) {
                    GValue v = G_VALUE_INIT;
                    if(c->textColumn < 0 || c->textColumn >= gtk_tree_model_get_n_columns(f->model)) { fprintf(out, " none"); continue; }
                    gtk_tree_model_get_value(f->model, &it, c->textColumn, &v);
                    if(G_VALUE_HOLDS_STRING(&v)) fprintf(out, " %s", hex(g_value_get_string(&v) ? g_value_get_string(&v) : "(null)").c_str());
                    else if(G_VALUE_HOLDS_DOUBLE(&v)) fprintf(out, " %.17g", g_value_get_double(&v));
                    else if(G_VALUE_HOLDS_FLOAT(&v)) fprintf(out, " %.17g", (double)g_value_get_float(&v));
                    else if(G_VALUE_HOLDS_INT(&v)) fprintf(out, " %d", g_value_get_int(&v));
                    else if(G_VALUE_HOLDS_UINT(&v)) fprintf(out, " %u", g_value_get_uint(&v));
                    else if(G_VALUE_HOLDS_LONG(&v)) fprintf(out, " %ld", g_value_get_long(&v));
                    else if(G_VALUE_HOLDS_ULONG(&v)) fprintf(out, " %lu", g_value_get_ulong(&v));
                    else fprintf(out, " other");
                    g_value_unset(&v);
                }
                fprintf(out, "\n");
            } while(gtk_tree_model_iter_next(f->model, &it));
        }
    }
    for(auto &c : commands) fprintf(out, "command %s\n", hex(c).c_str());
    commands.clear();
    fprintf(out, "end\n");
    fflush(out);
}
void attributes(Fake *col, va_list ap) {
    for(;;) {
        const char *a = va_arg(ap, const char *);
        if(!a) break;
        int n = va_arg(ap, int);
        if(!strcmp(a, "text")) col->textColumn = n;
    }
}
} // namespace

#pragma GCC visibility push(default)
extern "C" {
// ------------------------------------------------------------- running
void gtk_init(int *, char ***) {}
gboolean gtk_init_check(int *, char ***) { return TRUE; }
void gtk_main_quit(void) { quitting = true; }
guint gtk_main_level(void) { return depth; }
gboolean gtk_events_pending(void) { return FALSE; }
gboolean gtk_main_iteration(void) { return quitting; }
gboolean gtk_main_iteration_do(gboolean) { return quitting; }
void gtk_main(void) {
    depth++;
    quitting = false;
    dump("start");
    const char *n = getenv("TOOL_SCRIPT");
    FILE *f = fopen(n ? n : "/dev/null", "r");
    if(!f) exit(78);
    static char line[1 << 20];
    while(!quitting && fgets(line, sizeof line, f)) {
        char *nl = strchr(line, '\n');
        if(nl) *nl = 0;
        char *arg = strchr(line, ' ');
        string verb(line, arg ? arg - line : strlen(line));
        arg = arg ? arg + 1 : line + strlen(line);
        Fake *target = NULL;
        if(verb == "text" || verb == "activate") {
            for(Fake *x : made) if(x->kind == 'e') target = x;
            if(!target) exit(79);
            if(verb == "text") setText(target, unhex(arg).c_str());
            else g_signal_emit_by_name(target, "activate");
        } else if(verb == "click") {
            string l = unhex(arg);
            for(Fake *x : made) if(x->kind == 'b' && *x->label == l) target = x;
            if(!target) exit(80);
            g_signal_emit_by_name(target, "clicked");
        } else if(verb == "spin") {
            for(Fake *x : made) if(x->kind == 's') target = x;
            if(!target) exit(81);
            setValue(target, atof(arg));
        } else if(verb == "close") {
            for(Fake *x : made) if(x->kind == 'W') target = x;
            if(!target) exit(82);
            gboolean stay = FALSE;
            g_signal_emit_by_name(target, "delete-event", NULL, &stay);
            if(!stay) g_signal_emit_by_name(target, "destroy");
        } else if(!verb.empty()) exit(83);
        dump(quitting ? "quit" : "done");
    }
    fclose(f);
    if(!quitting) dump("end of script");
    depth--;
}
// Nothing the tool asks for is handed to a shell.
int system(const char *c) { if(c) commands.push_back(c); return c ? 0 : 1; }
FILE *popen(const char *c, const char *) { commands.push_back(c); return fopen("/dev/null", "r"); }
gboolean g_spawn_command_line_async(const gchar *c, GError **) { commands.push_back(c); return TRUE; }
gboolean g_spawn_command_line_sync(const gchar *c, gchar **o, gchar **e, gint *s, GError **) { commands.push_back(c); if(o) *o = g_strdup(""); if(e) *e = g_strdup(""); if(s) *s = 0; return TRUE; }

// ------------------------------------------------------------- widgets
#define PLAIN(name, params) GtkWidget *name params { return w(make('w')); }
GtkWidget *gtk_window_new(GtkWindowType) { return w(make('W')); }
PLAIN(gtk_box_new, (GtkOrientation, gint))
PLAIN(gtk_hbox_new, (gboolean, gint))
PLAIN(gtk_vbox_new, (gboolean, gint))
PLAIN(gtk_grid_new, (void))
PLAIN(gtk_frame_new, (const gchar *))
PLAIN(gtk_paned_new, (GtkOrientation))
PLAIN(gtk_separator_new, (GtkOrientation))
PLAIN(gtk_scrolled_window_new, (GtkAdjustment *, GtkAdjustment *))
PLAIN(gtk_viewport_new, (GtkAdjustment *, GtkAdjustment *))
GtkWidget *gtk_label_new(const gchar *t) { return w(make('l', t)); }
GtkWidget *gtk_button_new(void) { return w(make('b')); }
GtkWidget *gtk_button_new_with_label(const gchar *t) { return w(make('b', t)); }
GtkWidget *gtk_button_new_with_mnemonic(const gchar *t) { return w(make('b', t)); }
GtkWidget *gtk_entry_new_with_buffer(GtkEntryBuffer *b) { Fake *f = make('e'); g_object_ref(b); adopt(f, b); return w(f); }
GtkWidget *gtk_entry_new(void) { Fake *f = make('e'); adopt(f, gtk_entry_buffer_new(NULL, 0)); return w(f); }
GtkWidget *gtk_search_entry_new(void) { return gtk_entry_new(); }
GtkWidget *gtk_spin_button_new_with_range(gdouble lo, gdouble hi, gdouble step) { Fake *f = make('s'); f->lo = lo; f->hi = hi; f->step = step; f->value = lo; return w(f); }
GtkWidget *gtk_tree_view_new(void) { return w(make('t')); }
GtkWidget *gtk_tree_view_new_with_model(GtkTreeModel *m) { Fake *f = make('t'); f->model = m; g_object_ref(m); return w(f); }

void gtk_widget_show(GtkWidget *) {}
void gtk_widget_show_all(GtkWidget *) {}
void gtk_widget_hide(GtkWidget *) {}
void gtk_widget_grab_focus(GtkWidget *) {}
void gtk_widget_destroy(GtkWidget *x) { if(fk(x)) g_signal_emit_by_name(x, "destroy"); }
void gtk_widget_set_tooltip_text(GtkWidget *, const gchar *) {}
void gtk_widget_set_sensitive(GtkWidget *, gboolean) {}
void gtk_widget_set_size_request(GtkWidget *, gint, gint) {}
void gtk_widget_set_hexpand(GtkWidget *, gboolean) {}
void gtk_widget_set_vexpand(GtkWidget *, gboolean) {}
void gtk_widget_set_name(GtkWidget *, const gchar *) {}
void gtk_widget_queue_draw(GtkWidget *) {}
void gtk_widget_freeze_child_notify(GtkWidget *x) { if(Fake *f = fk(x)) f->frozen = true; }
void gtk_widget_thaw_child_notify(GtkWidget *x) { if(Fake *f = fk(x)) f->frozen = false; }
void gtk_container_add(GtkContainer *, GtkWidget *) {}
void gtk_container_set_border_width(GtkContainer *, guint) {}
void gtk_box_pack_start(GtkBox *, GtkWidget *, gboolean, gboolean, guint) {}
void gtk_box_pack_end(GtkBox *, GtkWidget *, gboolean, gboolean, guint) {}
void gtk_box_set_spacing(GtkBox *, gint) {}
void gtk_grid_attach(GtkGrid *, GtkWidget *, gint, gint, gint, gint) {}
void gtk_window_set_default_size(GtkWindow *, gint, gint) {}
void gtk_window_set_title(GtkWindow *, const gchar *) {}
void gtk_window_set_position(GtkWindow *, GtkWindowPosition) {}
void gtk_window_present(GtkWindow *) {}
void gtk_window_set_resizable(GtkWindow *, gboolean) {}
void gtk_scrolled_window_set_policy(GtkScrolledWindow *, GtkPolicyType, GtkPolicyType) {}

void gtk_label_set_text(GtkLabel *l, const gchar *t) { if(Fake *f = fk(l)) *f->label = t ? t : ""; }
void gtk_label_set_label(GtkLabel *l, const gchar *t) { gtk_label_set_text(l, t); }
void gtk_label_set_markup(GtkLabel *l, const gchar *t) { gtk_label_set_text(l, t); }
const gchar *gtk_label_get_text(GtkLabel *l) { Fake *f = fk(l); return f ? f->label->c_str() : ""; }
const gchar *gtk_label_get_label(GtkLabel *l) { return gtk_label_get_text(l); }
void gtk_label_set_justify(GtkLabel *, GtkJustification) {}
void gtk_label_set_line_wrap(GtkLabel *, gboolean) {}
void gtk_label_set_xalign(GtkLabel *, gfloat) {}
void gtk_button_set_label(GtkButton *b, const gchar *t) { if(Fake *f = fk(b)) *f->label = t ? t : ""; }
const gchar *gtk_button_get_label(GtkButton *b) { Fake *f = fk(b); return f ? f->label->c_str() : NULL; }
void gtk_button_clicked(GtkButton *b) { if(fk(b)) g_signal_emit_by_name(b, "clicked"); }

const gchar *gtk_entry_get_text(GtkEntry *e) { Fake *f = fk(e); return f && f->buffer ? gtk_entry_buffer_get_text(f->buffer) : NULL; }
void gtk_entry_set_text(GtkEntry *e, const gchar *t) { Fake *f = fk(e); if(f && f->buffer) setText(f, t); }
guint16 gtk_entry_get_text_length(GtkEntry *e) { Fake *f = fk(e); return f && f->buffer ? (guint16)gtk_entry_buffer_get_length(f->buffer) : 0; }
GtkEntryBuffer *gtk_entry_get_buffer(GtkEntry *e) { Fake *f = fk(e); return f ? f->buffer : NULL; }
void gtk_entry_set_placeholder_text(GtkEntry *, const gchar *) {}
void gtk_entry_set_width_chars(GtkEntry *, gint) {}
void gtk_entry_set_max_length(GtkEntry *, gint) {}
void gtk_editable_insert_text(GtkEditable *e, const gchar *t, gint n, gint *at) {
    Fake *f = fk(e);
    if(f && f->buffer) *at += gtk_entry_buffer_insert_text(f->buffer, *at, t, n < 0 ? -1 : g_utf8_strlen(t, n));
}
void gtk_editable_set_position(GtkEditable *, gint) {}
gchar *gtk_editable_get_chars(GtkEditable *e, gint, gint) { return g_strdup(gtk_entry_get_text((GtkEntry *)e)); }

gint gtk_spin_button_get_value_as_int(GtkSpinButton *s) { Fake *f = fk(s); return f ? (gint)(f->value + (f->value < 0 ? -0.5 : 0.5)) : 0; }
gdouble gtk_spin_button_get_value(GtkSpinButton *s) { Fake *f = fk(s); return f ? f->value : 0; }
void gtk_spin_button_set_value(GtkSpinButton *s, gdouble v) { if(Fake *f = fk(s)) setValue(f, v); }
void gtk_spin_button_set_range(GtkSpinButton *s, gdouble lo, gdouble hi) { if(Fake *f = fk(s)) { f->lo = lo; f->hi = hi; setValue(f, f->value); } }
void gtk_spin_button_set_digits(GtkSpinButton *, guint) {}
void gtk_spin_button_set_increments(GtkSpinButton *, gdouble, gdouble) {}

// ------------------------------------------------------------- tables
GtkCellRenderer *gtk_cell_renderer_text_new(void) { return (GtkCellRenderer *)make('r'); }
GtkTreeViewColumn *gtk_tree_view_column_new(void) { return (GtkTreeViewColumn *)make('c'); }
GtkTreeViewColumn *gtk_tree_view_column_new_with_attributes(const gchar *title, GtkCellRenderer *r, ...) {
    Fake *c = make('c', title);
    va_list ap;
    va_start(ap, r);
    attributes(c, ap);
    va_end(ap);
    return (GtkTreeViewColumn *)c;
}
void gtk_tree_view_column_set_title(GtkTreeViewColumn *c, const gchar *t) { if(Fake *f = fk(c)) *f->label = t; }
void gtk_tree_view_column_pack_start(GtkTreeViewColumn *, GtkCellRenderer *, gboolean) {}
void gtk_tree_view_column_add_attribute(GtkTreeViewColumn *c, GtkCellRenderer *, const gchar *a, gint n) { Fake *f = fk(c); if(f && !strcmp(a, "text")) f->textColumn = n; }
void gtk_tree_view_column_set_attributes(GtkTreeViewColumn *c, GtkCellRenderer *r, ...) {
    va_list ap;
    va_start(ap, r);
    if(Fake *f = fk(c)) attributes(f, ap);
    va_end(ap);
}
void gtk_tree_view_column_set_resizable(GtkTreeViewColumn *, gboolean) {}
void gtk_tree_view_column_set_expand(GtkTreeViewColumn *, gboolean) {}
void gtk_tree_view_column_set_sizing(GtkTreeViewColumn *, GtkTreeViewColumnSizing) {}
void gtk_tree_view_column_set_sort_column_id(GtkTreeViewColumn *, gint) {}
gint gtk_tree_view_append_column(GtkTreeView *t, GtkTreeViewColumn *c) {
    Fake *f = fk(t), *x = fk(c);
    if(f && x) f->columns->push_back(x);
    return f ? (gint)f->columns->size() : 0;
}
gint gtk_tree_view_insert_column(GtkTreeView *t, GtkTreeViewColumn *c, gint at) {
    Fake *f = fk(t), *x = fk(c);
    if(f && x) f->columns->insert(at < 0 || at > (gint)f->columns->size() ? f->columns->end() : f->columns->begin() + at, x);
    return f ? (gint)f->columns->size() : 0;
}
gint gtk_tree_view_insert_column_with_attributes(GtkTreeView *t, gint at, const gchar *title, GtkCellRenderer *r, ...) {
    Fake *c = make('c', title);
    va_list ap;
    va_start(ap, r);
    attributes(c, ap);
    va_end(ap);
    return gtk_tree_view_insert_column(t, (GtkTreeViewColumn *)c, at);
}
void gtk_tree_view_set_model(GtkTreeView *t, GtkTreeModel *m) {
    Fake *f = fk(t);
    if(!f) return;
    if(m) g_object_ref(m);
    if(f->model) g_object_unref(f->model);
    f->model = m;
}
GtkTreeModel *gtk_tree_view_get_model(GtkTreeView *t) { Fake *f = fk(t); return f ? f->model : NULL; }
void gtk_tree_view_set_headers_visible(GtkTreeView *, gboolean) {}
void gtk_tree_view_columns_autosize(GtkTreeView *) {}
void gtk_tree_view_set_fixed_height_mode(GtkTreeView *, gboolean) {}

// ------------------------------------------------------------- a directory of its own
// The list of installed software is read from TOOL_DATA instead of /usr/share/app-install.
static string redirected(const char *path) {
    static const string from = "/usr/share/app-install";
    const char *to = getenv("TOOL_DATA");
    if(to && !strncmp(path, from.c_str(), from.size())) return to + string(path + from.size());
    return path;
}
DIR *opendir(const char *path) {
    typedef DIR *(*F)(const char *);
    static F real = (F)dlsym(RTLD_NEXT, "opendir");
    return real(redirected(path).c_str());
}
FILE *fopen(const char *path, const char *mode) {
    typedef FILE *(*F)(const char *, const char *);
    static F real = (F)dlsym(RTLD_NEXT, "fopen");
    return real(redirected(path).c_str(), mode);
}
FILE *fopen64(const char *path, const char *mode) {
    typedef FILE *(*F)(const char *, const char *);
    static F real = (F)dlsym(RTLD_NEXT, "fopen64");
    return real(redirected(path).c_str(), mode);
}
}
#pragma GCC visibility pop
