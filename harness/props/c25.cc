// C25: the programs of tools/, run as they are against files of data, the
// graphical ones with a stand-in for the widgets (harness/tools/gtkdouble.cc).
#include "lib.hh"
#include "columbus.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "WordStore.hh"
#include <memory>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <cmath>
#include <spawn.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/stat.h>
extern char **environ;
namespace pbt {
const char *PROP_ID = "C25";
const char *PROP_RULE = "one of the six programs of tools/ run on a generated file (near-identical words, DOS and missing line ends, one-letter and very long lines, quotes, malformed text, now and then more than 100000 lines) "
                        "and, if graphical, on a generated sequence of typing, pressing buttons and closing; everything shown is compared with the library used directly; non-trivial when something was found for one input and not for another";
void process_setup() {
    const char *repo = getenv("VERIF_REPO");
    setenv("COLUMBUS_DATADIR", (std::string(repo ? repo : "/repo") + "/share").c_str(), 1);
}
using namespace lib;
using namespace Columbus;

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
static const bool SLOW = true;
#else
static const bool SLOW = false;
#endif
#else
static const bool SLOW = false;
#endif
static const char *NAMES[] = {"queryindex", "singleword", "queryapp", "numberpad", "hudtest", "sctest"};
enum Tool { QUERYINDEX, SINGLEWORD, QUERYAPP, NUMBERPAD, HUDTEST, SCTEST };

static string program(int t) {
    const char *p = getenv((string("TOOL_") + NAMES[t]).c_str());
    if(!p) { fprintf(stderr, "TOOL_%s is not set\n", NAMES[t]); _exit(70); }
    return p;
}
static string slurp(const string &f) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream s;
    s << in.rdbuf();
    return s.str();
}
static void spill(const string &f, const string &text) {
    std::ofstream o(f, std::ios::binary);
    o << text;
    o.close();
    if(!o) { fprintf(stderr, "cannot write %s\n", f.c_str()); _exit(70); }
}

struct Outcome { int status = -1; bool late = false; string out, err; };
static Outcome runProgram(const string &exe, const vector<string> &args, const vector<string> &env, const string &dir) {
    Outcome r;
    string so = dir + "/stdout", se = dir + "/stderr";
    vector<char *> av, ev;
    for(auto &a : args) av.push_back((char *)a.c_str());
    av.push_back(nullptr);
    for(auto &e : env) ev.push_back((char *)e.c_str());
    ev.push_back(nullptr);
    posix_spawn_file_actions_t fa;
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t pid;
    int e = posix_spawnp(&pid, exe.c_str(), &fa, nullptr, av.data(), ev.data());
    posix_spawn_file_actions_destroy(&fa);
    if(e) { fprintf(stderr, "cannot start %s: %s\n", exe.c_str(), strerror(e)); _exit(70); }
    useconds_t nap = 200;
    double waited = 0;
    while(waitpid(pid, &r.status, WNOHANG) == 0) {
        usleep(nap);
        waited += nap / 1e6;
        if(nap < 3000) nap += nap / 4;
        if(waited > 150) { r.late = true; kill(pid, SIGKILL); waitpid(pid, &r.status, 0); break; }
    }
    r.out = slurp(so);
    r.err = slurp(se);
    return r;
}
static string tail(const string &s) { return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }
// Neither killed, nor stopped by a sanitizer or an assertion, nor by the stand-in.
static void requireClean(const Outcome &o, int t) {
    REQUIRE(!o.late, "%s did not finish", NAMES[t]);
    REQUIRE(!WIFSIGNALED(o.status), "%s was ended by signal %d\n%s", NAMES[t], WTERMSIG(o.status), tail(o.err).c_str());
    int c = WEXITSTATUS(o.status);
    REQUIRE(c != 55 && c != 56, "%s stopped with a sanitizer report\n%s", NAMES[t], tail(o.err).c_str());
    REQUIRE(c < 77 || c > 83, "%s lacks what was to be used (%d)\n%s", NAMES[t], c, tail(o.err).c_str());
}

static string unhex(const string &h) {
    string o;
    for(size_t i = 1; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
    return o;
}
static string tohex(const string &s) {
    string o = "x";
    for(unsigned char c : s) o += fmt("%02x", c);
    return o;
}

typedef vector<string> Cells;
struct Row { Cells cells; double value; };
static bool operator<(const Row &a, const Row &b) { return a.cells != b.cells ? a.cells < b.cells : a.value < b.value; }
struct Shown { string what, entry; vector<string> labels, commands; vector<Row> rows; size_t columns = 0; };
static vector<Shown> parseDump(const string &file) {
    vector<Shown> r;
    std::ifstream in(file);
    string line;
    while(getline(in, line)) {
        std::stringstream s(line);
        string k, x;
        s >> k;
        if(k == "event") { r.push_back(Shown()); r.back().what = line.substr(6); continue; }
        if(r.empty()) continue;
        Shown &n = r.back();
        if(k == "entry") { s >> x; n.entry = unhex(x); }
        if(k == "label") { s >> x; n.labels.push_back(unhex(x)); }
        if(k == "command") { s >> x; n.commands.push_back(unhex(x)); }
        if(k == "table") while(s >> x) n.columns++;
        if(k == "row") {
            Row w;
            w.value = NAN;
            while(s >> x) {
                if(x[0] == 'x') w.cells.push_back(unhex(x));
                else w.value = atof(x.c_str());
            }
            n.rows.push_back(w);
        }
    }
    return r;
}

static string showRow(const Row &r) {
    string s;
    for(auto &c : r.cells) s += show(c.size() > 80 ? c.substr(0, 80) + "..." : c) + " ";
    return s + fmt("%.17g", r.value);
}
// sign 1: values may only grow from row to row; -1: only shrink.
static void compareRows(const vector<Row> &want, const vector<Row> &got, int sign, int t, const string &after) {
    for(size_t i = 1; i < got.size(); i++)
        REQUIRE(!(sign * (got[i].value - got[i - 1].value) < -1e-12), "%s, after %s: rows out of order: %s before %s", NAMES[t], after.c_str(), showRow(got[i - 1]).c_str(), showRow(got[i]).c_str());
    vector<Row> a = want, b = got;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    for(size_t i = 0; i < std::max(a.size(), b.size()); i++) {
        bool same = i < a.size() && i < b.size() && a[i].cells == b[i].cells && std::fabs(a[i].value - b[i].value) <= 1e-9 * std::max(1.0, std::fabs(a[i].value));
        REQUIRE(same, "%s, after %s: shows %zu rows, expected %zu; first difference: shown %s, expected %s", NAMES[t], after.c_str(), got.size(), want.size(),
                i < b.size() ? showRow(b[i]).c_str() : "nothing", i < a.size() ? showRow(a[i]).c_str() : "nothing");
    }
}

// The words a shell makes of a command, if no character of it has a meaning other than quoting.
static bool shellWords(const string &c, vector<string> &words) {
    string w;
    bool in = false;
    for(size_t i = 0; i < c.size(); i++) {
        char x = c[i];
        if(x == ' ' || x == '\t') { if(in) words.push_back(w); w.clear(); in = false; continue; }
        in = true;
        if(x == '\'') {
            size_t e = c.find('\'', i + 1);
            if(e == string::npos) return false;
            w += c.substr(i + 1, e - i - 1);
            i = e;
        } else if(x == '"') {
            for(i++; ; i++) {
                if(i >= c.size() || c[i] == '$' || c[i] == '`') return false;
                if(c[i] == '"') break;
                if(c[i] == '\\') { i++; if(i >= c.size()) return false; if(!strchr("$`\"\\", c[i])) w += '\\'; }
                w += c[i];
            }
        } else if(x == '\\') {
            if(++i >= c.size() || c[i] == '\n') return false;
            w += c[i];
        } else if(strchr("|&;<>()$`*?[]{}~#!\n", x)) return false;
        else w += x;
    }
    if(in) words.push_back(w);
    return true;
}

struct Scene {
    int tool;
    string dir, file;
    vector<string> lines;           // of the file, without line ends
    bool refused = false;           // the library refuses something in the file
    // word tools
    std::unique_ptr<LevenshteinIndex> ind;
    std::unique_ptr<WordStore> store;
    // document tools
    std::unique_ptr<Matcher> m;
    vector<Cells> rows;
};

static const Word &fieldName(const char *n) {
    static map<string, Word> ws;
    auto it = ws.find(n);
    if(it == ws.end()) it = ws.insert({n, Word(n)}).first;
    return it->second;
}

static string badUtf8(Gen &g) { return g.oneOf<const char *>({"\x80", "a\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "b\xf8\x88\x80\x80\x80"}); }

static string genLine(Gen &g, const Alpha &a, const vector<U> &dict, int tool) {
    if(tool <= SINGLEWORD) {
        switch(g.weighted({85, 5, 3, 1, 2})) {
        case 1: return lettersToUtf8(g.pick(dict)) + lettersToUtf8(g.pick(dict));
        case 2: return recase(g, g.pick(dict));
        case 3: return "";
        case 4: return lettersToUtf8(genLong(g, a, 1600));
        default: return lettersToUtf8(g.pick(dict));
        }
    }
    vector<U> ws;
    size_t n = g.weighted({1, 30, 25, 15, 5});
    for(size_t i = 0; i < n; i++) ws.push_back(g.pick(dict));
    if(g.chance(1, 60)) for(size_t i = 0; i < 400; i++) ws.push_back(dict[i * 7 % dict.size()]);
    string s;
    for(size_t i = 0; i < ws.size(); i++) {
        if(i || g.chance(1, 15)) s += g.chance(1, 12) ? g.oneOf<const char *>({"  ", "\t", "\r", ", ", "-", "'", "/"}) : " ";
        s += g.chance(1, 8) ? recase(g, ws[i]) : lettersToUtf8(ws[i]);
    }
    if(g.chance(1, 20)) s = g.oneOf<const char *>({"a", "\r", " ", "'", "x y", ">", "=", "a\rb", "a\rbc", "\ra", ".", "1"});
    if(tool == HUDTEST && !g.chance(1, 8)) {
        size_t at = g.flip() ? s.find(' ', g.upto(s.size())) : g.upto(s.size());
        if(at == string::npos) at = s.size();
        while(at < s.size() && ((unsigned char)s[at] & 0xc0) == 0x80) at++;
        s.insert(at, ">");
        if(g.chance(1, 10)) s += g.oneOf<const char *>({" Fuzzy Select", "Fuzzy Select", ">x Fuzzy Select", " Fuzzy  Select", " fuzzy select", ">"});
    }
    return s;
}

static void buildWords(Scene &sc) {
    sc.ind.reset(new LevenshteinIndex());
    sc.store.reset(new WordStore());
    try {
        for(auto &l : sc.lines) {
            Word w(l.c_str());
            sc.ind->insertWord(w, sc.store->getID(w));
        }
    } catch(const std::exception &) { sc.refused = true; }
}
static void buildDocuments(Scene &sc) {
    sc.m.reset(new Matcher());
    if(sc.tool == NUMBERPAD) { sc.m->getErrorValues().addNumberpadErrors(); sc.m->getErrorValues().setSubstringMode(); }
    if(sc.tool == HUDTEST) { sc.m->getErrorValues().setSubstringMode(); sc.m->getErrorValues().addStandardErrors(); }
    Corpus c;
    try {
        for(string l : sc.lines) {
            if(!l.empty() && l.back() == '\r') l.pop_back();
            if(l.empty()) continue;
            Document d((DocumentID)sc.rows.size());
            if(sc.tool == HUDTEST) {
                size_t at = l.find('>');
                string path = l.substr(0, at), command = at == string::npos ? l : l.substr(at + 1);
                WordList p = splitToWords(path.c_str()), k = splitToWords(command.c_str());
                if(k.size() == 0) continue;
                d.addText(fieldName("path"), p);
                d.addText(fieldName("command"), k);
                if(command.find("Fuzzy Select") != string::npos) d.addText(fieldName("alias"), "magnetic lasso");
                sc.rows.push_back({path, command});
            } else {
                d.addText(fieldName("name"), l.c_str());
                sc.rows.push_back({l});
            }
            c.addDocument(d);
        }
        sc.m->index(c);
    } catch(const std::exception &) { sc.refused = true; }
    if(sc.tool == HUDTEST) {
        sc.m->getIndexWeights().setWeight(fieldName("path"), 0.3);
        sc.m->getIndexWeights().setWeight(fieldName("alias"), 0.8);
    }
}
// The list of installed software: a directory of small files.
static void buildSoftware(Gen &g, Ctx &ctx, const Alpha &a, const vector<U> &dict, Scene &sc) {
    string base = sc.dir + "/app", dd = base + "/desktop";
    mkdir(base.c_str(), 0755);
    mkdir(dd.c_str(), 0755);
    sc.m.reset(new Matcher());
    Corpus c;
    size_t n = g.upto(8);
    if(g.chance(1, 30)) n = 60;
    string log;
    for(size_t i = 0; i < n; i++) {
        string fname = fmt("%s%zu%s", g.chance(1, 12) ? "." : g.chance(1, 6) ? "a b'" : "app", i, g.chance(1, 8) ? "" : ".desktop"), text;
        if(g.chance(1, 25)) { mkdir((dd + "/" + fname + ".d").c_str(), 0755); if(g.flip()) continue; }
        map<string, WordList> got;
        size_t k = g.upto(6);
        for(size_t j = 0; j < k; j++) {
            string key = g.weighted({70, 30}) == 0 ? g.oneOf<const char *>({"Name", "GenericName", "Comment"})
                                                   : g.oneOf<const char *>({"name", "NAME", "Names", "Name[de]", " Name", "Name ", "Generic Name", "genericName", "comment", "Exec", "", "Icon", "X-Name", "Commen", "Nam"});
            vector<U> ws;
            size_t m = g.weighted({2, 30, 30, 15});
            for(size_t q = 0; q < m; q++) ws.push_back(g.pick(dict));
            string value = joinText(g, ws, false);
            if(g.chance(1, 12)) value += g.oneOf<const char *>({" a=b", "=", " \t", "\r", ";x;y;"});
            if(g.chance(1, 120)) value += badUtf8(g);
            string line = key + (g.chance(1, 25) ? "" : "=") + value;
            if(g.chance(1, 15)) line = g.oneOf<const char *>({"[Desktop Entry]", "", "# a comment", "="});
            text += line;
            if(j + 1 < k || !g.chance(1, 3)) text += "\n";
            size_t eq = line.find('=');
            if(eq == string::npos || fname[0] == '.') continue;
            try {
                WordList v = splitToWords(line.substr(eq + 1).c_str());
                string kk = line.substr(0, eq);
                for(char x : kk) if(isspace((unsigned char)x)) { kk = "none"; break; }
                for(auto &x : kk) x = (char)tolower((unsigned char)x);
                if(v.size() > 0) got[kk] = v;
            } catch(const std::exception &) { sc.refused = true; }
        }
        spill(dd + "/" + fname, text);
        log += " " + show(fname) + ":" + show(text);
        if(fname[0] == '.' || !got.count("name")) continue;
        Document d((DocumentID)sc.rows.size());
        for(const char *f : {"name", "genericname", "comment"}) if(got.count(f)) d.addText(fieldName(f), got[f]);
        c.addDocument(d);
        sc.rows.push_back({fname});
    }
    ctx.log("files" + log);
    sc.m->index(c);
    sc.m->getIndexWeights().setWeight(fieldName("genericname"), 0.6);
    sc.m->getIndexWeights().setWeight(fieldName("comment"), 0.3);
    sc.m->getErrorValues().addStandardErrors();
    sc.m->getErrorValues().setSubstringMode();
}

static string genInput(Gen &g, const Alpha &a, const vector<U> &dict, const Scene &sc) {
    if(sc.tool == NUMBERPAD && g.chance(2, 3)) {
        string s;
        size_t n = g.upto(5);
        if(g.flip()) { // the keys of a word
            static const char *keys = "22233344455566677778889999";
            for(uint32_t c : g.pick(dict)) s += c >= 'a' && c <= 'z' ? keys[c - 'a'] : (char)('0' + g.upto(9));
        } else for(size_t i = 0; i < n; i++) s += (char)('0' + g.upto(9));
        return s;
    }
    if(sc.tool <= SINGLEWORD) {
        switch(g.weighted({60, 30, 4, 2})) {
        case 0: return recase(g, mutate(g, a, g.pick(dict)));
        case 1: return lettersToUtf8(g.pick(dict));
        case 2: return lettersToUtf8(g.pick(dict)) + g.oneOf<const char *>({" ", " x", "\t", "\n"});
        default: return "";
        }
    }
    switch(g.weighted({60, 20, 6, 6, 3})) {
    case 0: { vector<U> ws; size_t n = 1 + g.upto(2); for(size_t i = 0; i < n; i++) { U w = g.pick(dict); if(g.flip()) w = mutate(g, a, w); ws.push_back(w); } return joinText(g, ws, g.chance(1, 4)); }
    case 1: { string l = sc.rows.empty() ? "" : g.pick(sc.rows).back(); return l.size() < 200 && l.find('\n') == string::npos ? l : "x"; }
    case 2: return g.oneOf<const char *>({"", " ", "'", "';touch x;'", "$(x)", "`x`", "a'b", "\\", "\"", "magnetic", "lasso", "-x", "*", "#", "%s%n", "a\nb"});
    case 3: return lettersToUtf8(g.pick(dict)).substr(0, 1).c_str()[0] & 0x80 ? "q" : lettersToUtf8(g.pick(dict)).substr(0, 1);
    default: { vector<U> ws; for(size_t i = 0; i < 20; i++) ws.push_back(g.pick(dict)); return joinText(g, ws, false); }
    }
}
static bool validInput(const string &s) { // what an entry can hold
    try { Word w; if(s.find('\0') != string::npos) return false; splitToWords(s.c_str()); return true; } catch(const std::exception &) { return false; }
}

static vector<string> environment(const Scene &sc, const string &script) {
    const char *repo = getenv("VERIF_REPO");
    return {"PATH=/usr/bin:/bin", "LC_ALL=C", "HOME=" + sc.dir, string("COLUMBUS_DATADIR=") + (repo ? repo : "/repo") + "/share", "TOOL_SCRIPT=" + script, "TOOL_DUMP=" + sc.dir + "/dump", "TOOL_DATA=" + sc.dir + "/app",
            "ASAN_OPTIONS=exitcode=55:detect_leaks=0:handle_abort=1:detect_stack_use_after_return=1", "UBSAN_OPTIONS=print_stacktrace=1:exitcode=56"};
}

static void queryIndexCase(Gen &g, Ctx &ctx, const Alpha &a, const vector<U> &dict, Scene &sc) {
    string q = genInput(g, a, dict, sc);
    if(g.chance(1, 60)) q = badUtf8(g);
    int limit = g.oneOf<int>({0, 100, 100, 200, 200, 300, 99, 150, 1000, -1});
    ctx.log("queryindex for " + show(q) + fmt(" within %d", limit));
    Outcome o = runProgram(program(QUERYINDEX), {"queryindex", sc.file, q, std::to_string(limit)}, environment(sc, "/dev/null"), sc.dir);
    requireClean(o, QUERYINDEX);
    vector<Row> want;
    bool refused = sc.refused;
    try {
        Word w(q.c_str());
        if(!refused) {
            IndexMatches ms;
            ErrorValues e;
            sc.ind->findWords(w, e, limit, ms);
            for(size_t i = 0; i < ms.size(); i++) want.push_back({{sc.store->getWord(ms.getMatch(i)).asUtf8()}, (double)ms.getMatchError(i)});
        }
    } catch(const std::exception &) { refused = true; }
    if(refused) {
        REQUIRE(WEXITSTATUS(o.status) != 0, "queryindex accepts what the library refuses; it printed %s", show(tail(o.out)).c_str());
        ctx.label("refused data or query");
        return;
    }
    REQUIRE(WEXITSTATUS(o.status) == 0, "queryindex ended with status %d: %s %s", WEXITSTATUS(o.status), show(tail(o.out)).c_str(), show(tail(o.err)).c_str());
    vector<Row> got;
    std::stringstream s(o.out);
    string line;
    bool none = false;
    while(getline(s, line)) {
        if(line == "No matches.") { none = true; continue; }
        size_t at = line.rfind(' ');
        REQUIRE(at != string::npos && at + 1 < line.size() && line.find_first_not_of("-0123456789", at + 1) == string::npos, "queryindex prints the line %s", show(tail(line)).c_str());
        got.push_back({{line.substr(0, at)}, atof(line.c_str() + at + 1)});
    }
    REQUIRE(none == got.empty(), "queryindex %s that there are no matches", none ? "says" : "does not say");
    compareRows(want, got, 1, QUERYINDEX, show(q));
    if(!want.empty() && want.size() < sc.lines.size()) ctx.nontrivial();
    for(auto &r : want) if(r.cells[0].size() > 1000) ctx.label("long word found");
}

static void checkCommands(const Scene &sc, const Shown &n, const string &text, const string &after, Ctx &ctx) {
    for(auto &c : n.commands) {
        vector<string> words;
        REQUIRE(shellWords(c, words), "%s, after %s: the shell is given %s, in which characters other than quotes have a meaning", NAMES[sc.tool], after.c_str(), show(c).c_str());
        REQUIRE(!words.empty() && words[0] == "grep" && std::find(words.begin() + 1, words.end(), sc.file) != words.end(), "%s, after %s: the shell is given %s", NAMES[sc.tool], after.c_str(), show(c).c_str());
        bool digits = text.find_first_not_of("0123456789") == string::npos;
        for(auto &l : sc.lines) for(unsigned char x : l) if(x >= 0x80) digits = false;
        if(!digits || sc.lines.size() > 3000) continue;
        string want;
        static const char *keys[] = {"0", "1", "2abc", "3def", "4ghi", "5jkl", "6mno", "7pqrs", "8tuv", "9wxyz"};
        for(auto &l : sc.lines) {
            bool ok = l.size() >= text.size();
            for(size_t i = 0; ok && i < text.size(); i++) ok = l[i] && strchr(keys[text[i] - '0'], l[i]);
            if(ok) want += l + "\n";
        }
        Outcome o = runProgram("grep", words, {"PATH=/usr/bin:/bin", "LC_ALL=C"}, sc.dir);
        REQUIRE(o.out == want, "%s, after %s: the exact matches are %s, expected %s", NAMES[sc.tool], after.c_str(), show(tail(o.out)).c_str(), show(tail(want)).c_str());
        if(!want.empty()) ctx.label("exact matches");
    }
}

static void guiCase(Gen &g, Ctx &ctx, const Alpha &a, const vector<U> &dict, Scene &sc) {
    static const vector<string> pad = {"1", "2 (abc)", "3 (def)", "4 (ghi)", "5 (jkl)", "6 (mno)", "7 (pqrs)", "8 (tuv)", "9 (wxyz)", "*", "0", "#"};
    bool onChange = sc.tool == SINGLEWORD || sc.tool == HUDTEST || sc.tool == SCTEST;
    struct Event { string line, text; int kind; }; // kind: 0 text, 1 search, 2 pad, 3 spin
    vector<Event> es;
    size_t n = 1 + g.upto(sc.lines.size() > 3000 ? 3 : 8);
    for(size_t i = 0; i < n; i++) {
        Event e;
        e.kind = 0;
        if(!onChange && i && g.chance(1, 2)) e.kind = 1;
        if(sc.tool == NUMBERPAD && g.chance(1, 2)) e.kind = 2;
        if(sc.tool == SINGLEWORD && g.chance(1, 4)) e.kind = 3;
        if(e.kind == 0) {
            e.text = genInput(g, a, dict, sc);
            if(!validInput(e.text)) e.text = "x";
            e.line = "text " + tohex(e.text);
        }
        if(e.kind == 1) e.line = g.flip() ? "activate" : "click " + tohex("Search");
        if(e.kind == 2) { e.text = g.pick(pad); e.line = "click " + tohex(e.text); e.text.resize(1); }
        if(e.kind == 3) { e.text = std::to_string(100 * (1 + g.upto(g.chance(1, 5) ? 9 : 3))); e.line = "spin " + e.text; }
        es.push_back(e);
        if(e.kind == 0 && !onChange) { Event s; s.kind = 1; s.line = g.flip() ? "activate" : "click " + tohex("Search"); es.push_back(s); }
    }
    if(sc.tool == NUMBERPAD && g.chance(1, 8)) { // a long number
        size_t n = edgeLen(g, 70);
        for(size_t i = 0; i < n; i++) { Event e; e.kind = 2; e.text = pad[(n * 5 + i * i) % pad.size()]; e.line = "click " + tohex(e.text); e.text.resize(1); es.push_back(e); }
    }
    string script = sc.dir + "/script", text;
    for(auto &e : es) text += e.line + "\n";
    text += g.flip() ? "close\n" : "click " + tohex("Quit") + "\n";
    spill(script, text);
    string log;
    for(auto &e : es) log += e.kind == 0 ? " type " + show(e.text) : e.kind == 1 ? " search" : e.kind == 2 ? " press " + e.text : " limit " + e.text;
    ctx.log(string(NAMES[sc.tool]) + ":" + log);

    vector<string> args = {NAMES[sc.tool]};
    if(sc.tool != SCTEST) args.push_back(sc.file);
    Outcome o = runProgram(program(sc.tool), args, environment(sc, script), sc.dir);
    requireClean(o, sc.tool);
    if(sc.refused) {
        REQUIRE(WEXITSTATUS(o.status) != 0, "%s accepts data the library refuses", NAMES[sc.tool]);
        ctx.label("refused data or query");
        return;
    }
    REQUIRE(WEXITSTATUS(o.status) == 0, "%s ended with status %d: %s %s", NAMES[sc.tool], WEXITSTATUS(o.status), show(tail(o.out)).c_str(), show(tail(o.err)).c_str());
    vector<Shown> seen = parseDump(sc.dir + "/dump");
    REQUIRE(seen.size() == es.size() + 2, "%s: %zu of %zu events were handled before it quit", NAMES[sc.tool], seen.empty() ? 0 : seen.size() - 1, es.size());
    REQUIRE(seen.back().what == "quit", "%s does not quit when asked to", NAMES[sc.tool]);

    string entry;
    vector<Row> rows;
    string total = "Total results: ";
    bool known = true;
    int limit = 200;
    bool some = false, none = false;
    for(size_t i = 0; i < es.size() + 2; i++) {
        string after = i == 0 ? "the start" : i <= es.size() ? fmt("event %zu", i) + " (" + (es[i - 1].kind == 0 ? "typing " : es[i - 1].kind == 1 ? "searching for " + show(entry) : es[i - 1].kind == 2 ? "pressing " : "allowing ") + (es[i - 1].kind == 1 ? "" : show(es[i - 1].text)) + ")" : "quitting";
        bool search = false;
        if(i > 0 && i <= es.size()) {
            Event &e = es[i - 1];
            if(e.kind == 0 && e.text != entry) { entry = e.text; search = onChange; if(!onChange) known = known && true; }
            if(e.kind == 1) search = true;
            if(e.kind == 2) { entry += e.text; search = true; }
            if(e.kind == 3 && atoi(e.text.c_str()) != limit) { limit = atoi(e.text.c_str()); search = true; }
        }
        string searched = entry;
        if(search) {
            rows.clear();
            bool ok = true;
            known = true;
            try {
                if(sc.tool == SINGLEWORD) {
                    Word w(entry.c_str());
                    IndexMatches ms;
                    ErrorValues e;
                    if(w.length() == 0) known = false;
                    else sc.ind->findWords(w, e, limit, ms);
                    for(size_t k = 0; k < ms.size(); k++) rows.push_back({{sc.store->getWord(ms.getMatch(k)).asUtf8()}, (double)ms.getMatchError(k)});
                } else {
                    MatchResults ms = sc.m->match(entry.c_str());
                    for(size_t k = 0; k < ms.size(); k++) rows.push_back({sc.rows.at(ms.getDocumentID(k)), ms.getRelevancy(k)});
                }
            } catch(const std::exception &) { ok = false; }
            total = "Total results: " + std::to_string(rows.size());
            if(!ok) { total = ""; entry.clear(); rows.clear(); ctx.label("refused input"); }
            if(!rows.empty()) some = true;
            else none = true;
        }
        const Shown &s = seen[i];
        REQUIRE(s.entry == entry, "%s, after %s: the entry holds %s, expected %s", NAMES[sc.tool], after.c_str(), show(s.entry).c_str(), show(entry).c_str());
        if(search) checkCommands(sc, s, searched, after, ctx);
        else REQUIRE(s.commands.empty(), "%s, after %s: the shell is given %s", NAMES[sc.tool], after.c_str(), show(s.commands[0]).c_str());
        if(!known) continue;
        for(auto &r : s.rows) REQUIRE(r.cells.size() == (sc.tool == HUDTEST ? 2u : 1u) && !std::isnan(r.value), "%s, after %s: shows the row %s", NAMES[sc.tool], after.c_str(), showRow(r).c_str());
        compareRows(rows, s.rows, sc.tool == SINGLEWORD ? 1 : -1, sc.tool, after);
        string shown = "no total";
        for(auto &l : s.labels) if(l.compare(0, 14, "Total results:") == 0) shown = l;
        bool fits = total.empty() ? shown == "Total results: " || shown == "Total results: 0" : shown == total;
        REQUIRE(fits, "%s, after %s: says %s, expected %s", NAMES[sc.tool], after.c_str(), show(shown).c_str(), show(total).c_str());
    }
    if(some && none) ctx.nontrivial();
}

void run_case(Gen &g, Ctx &ctx) {
    Scene sc;
    static int serial = 0;
    sc.dir = scratch() + fmt("/c25.%d.%d", (int)getpid(), serial++);
    mkdir(sc.dir.c_str(), 0755);
    struct Cleaner { string d; ~Cleaner() { std::error_code e; std::filesystem::remove_all(d, e); } } cleaner{sc.dir};
    sc.tool = (int)g.weighted({25, 15, 18, 18, 18, 14});
    ctx.label(NAMES[sc.tool]);
    sc.file = sc.dir + "/" + g.oneOf<const char *>({"data", "data", "data", "da ta.txt", "it's", "a;b", "$x", "-d*"});
    Alpha a = sc.tool == NUMBERPAD && g.flip() ? Alpha{'a', 'b', 'c', 'd', 'j', 'w', '2', '7'} : genAlpha(g, true);
    vector<U> dict = genDict(g, a, 30, 7);
    if(g.chance(1, 100)) { // used as it should not be
        bool missing = g.flip();
        vector<string> args = {NAMES[sc.tool]};
        if(missing && sc.tool != SCTEST) args.push_back(sc.dir + "/none");
        if(missing && sc.tool == QUERYINDEX) { args.push_back("a"); args.push_back("100"); }
        spill(sc.dir + "/script", "close\n");
        Outcome o = runProgram(program(sc.tool), args, environment(sc, sc.dir + "/script"), sc.dir);
        requireClean(o, sc.tool);
        ctx.log(string(NAMES[sc.tool]) + (missing ? " without its file" : " without arguments"));
        ctx.label("without arguments or file");
        return;
    }
    if(sc.tool == SCTEST) buildSoftware(g, ctx, a, dict, sc);
    else {
        size_t n = g.upto(14);
        if(g.chance(1, 20)) n = 100 + g.upto(100);
        bool dos = sc.tool > SINGLEWORD && g.chance(1, 5), many = false;
        if(sc.tool > SINGLEWORD && !SLOW && g.chance(1, 500)) many = true;
        for(size_t i = 0; i < n; i++) sc.lines.push_back(genLine(g, a, dict, sc.tool));
        if(n && g.chance(1, 40)) sc.lines[g.upto(n - 1)] = sc.tool <= SINGLEWORD ? g.oneOf<const char *>({"a b", "x\r", "\t", " "}) : badUtf8(g);
        if(!many && g.chance(1, 25)) { // much is found at once
            size_t m = edgeLen(g, 1500), salt = g.upto(100);
            string common = lettersToUtf8(g.pick(dict));
            for(size_t i = 0; i < m; i++) {
                size_t k = i * 7 + salt;
                string w = {(char)('a' + k % 26), (char)('a' + k / 26 % 26)};
                if(k >= 676) w += (char)('a' + k / 676 % 26);
                sc.lines.push_back(sc.tool <= SINGLEWORD ? w : sc.tool == HUDTEST ? w + ">" + common : common + " " + w);
            }
            for(const char *x : {"ab", "qx", "az"}) dict.push_back(U({(char32_t)x[0], (char32_t)x[1]}));
            ctx.label("hundreds of results");
        }
        if(many) {
            size_t m = 100000 + g.upto(2) - g.upto(std::min<size_t>(n, 3)) + (g.chance(1, 3) ? 100000 : 0), salt = g.upto(1000);
            for(size_t i = 0; sc.lines.size() < m; i++) sc.lines.push_back((sc.tool == HUDTEST ? "p>" : "") + lettersToUtf8(numWord(salt + i)));
            for(size_t k : {(size_t)0, (size_t)99998, (size_t)99999, (size_t)100000, (size_t)199999, m - 1})
                if(k >= n && k < m) dict.push_back(numWord(salt + k - n));
            ctx.label("more than a batch of lines");
        }
        string text;
        for(size_t i = 0; i < sc.lines.size(); i++) {
            if(dos) sc.lines[i] += "\r";
            text += sc.lines[i];
            if(i + 1 < sc.lines.size() || g.chance(2, 3)) text += "\n";
            else if(sc.lines[i].empty()) sc.lines.pop_back();
        }
        if(dos) ctx.label("DOS line ends");
        if(text.size() && text.back() != '\n') ctx.label("no newline at the end");
        spill(sc.file, text);
        ctx.log("file " + show(text.size() > 2000 ? text.substr(0, 2000) : text) + (text.size() > 2000 ? fmt(" ... %zu bytes", text.size()) : ""));
        if(sc.tool <= SINGLEWORD) buildWords(sc);
        else buildDocuments(sc);
    }
    if(sc.tool == QUERYINDEX) queryIndexCase(g, ctx, a, dict, sc);
    else guiCase(g, ctx, a, dict, sc);
}
} // namespace pbt
