// C17: accent data files.
#include "lib.hh"
#include <unicode/unorm2.h>
#include <unicode/ustring.h>
#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstdlib>
#include <climits>
namespace pbt {
const char *PROP_ID = "C17";
const char *PROP_RULE = "generated accent files (0-40 lines; any case, blank lines, no final newline, letters of every range, malformed lines, letters on two lines, missing files) in generated directories (trailing "
                        "slash or not, relative, odd names), or the shipped files; every pair of letters involved compared with an independent parser, the shipped ones also with Unicode decompositions; "
                        "non-trivial when a file has at least two groups or must be refused";
void process_setup() {}
using namespace lib;
using namespace Columbus;

static const int GROUP = 30;
static Letter L(uint32_t c) { return Letter((Letter_)c); }

static string shareDir() {
    const char *r = getenv("VERIF_REPO");
    return string(r ? r : "/repo") + "/share";
}

// Applies the lines of a file to the model; false when the file must be refused.
static bool apply(const string &content, Costs &c, set<uint32_t> &pool, size_t &groups) {
    for(auto &line : splitBytes(content, "\n")) {
        U u;
        if(parseWord(line, u) != WORD_OK) return false;
        for(uint32_t x : u) pool.insert(x);
        if(!c.setGroup(u, GROUP)) return false;
        groups++;
    }
    return true;
}
static void verify(const Costs &c, ErrorValues &e, const set<uint32_t> &pool, const char *what) {
    for(uint32_t x : pool) {
        REQUIRE(e.isInGroup(L(x)) == (c.group.count(x) > 0), "%s: U+%04X is%s in a group", what, x, c.group.count(x) ? " not" : "");
        for(uint32_t y : pool) {
            int want = c.sub(x, y), got = e.getSubstituteError(L(x), L(y));
            REQUIRE(want == got, "%s: cost of U+%04X against U+%04X is %d, expected %d", what, x, y, got, want);
        }
    }
}
static uint32_t baseLetter(uint32_t c) {
    UErrorCode err = U_ZERO_ERROR;
    const UNormalizer2 *n = unorm2_getNFDInstance(&err);
    UChar out[32];
    int32_t len = unorm2_getDecomposition(n, (UChar32)c, out, 32, &err);
    if(len <= 0 || U_FAILURE(err)) return c;
    UChar32 b;
    int32_t i = 0;
    U16_NEXT(out, i, len, b);
    return (uint32_t)b;
}
static string readFile(const string &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

static void shipped(Gen &g, Ctx &ctx) {
    ctx.label("shipped data");
    string dir = shareDir();
    bool slash = g.flip();
    setenv("COLUMBUS_DATADIR", (dir + (slash ? "/" : "")).c_str(), 1);
    int how = (int)g.upto(2);
    ctx.logf("shipped data, directory %s slash, %s", slash ? "with" : "without", how == 0 ? "latin then greek" : how == 1 ? "greek then latin" : "standard errors");
    Costs c;
    set<uint32_t> pool;
    size_t groups = 0;
    string lat = readFile(dir + "/latinAccentedLetterGroups.txt"), gre = readFile(dir + "/greekAccentedLetterGroups.txt");
    REQUIRE(lat.size() > 100 && gre.size() > 10, "shipped accent files are missing or empty");
    REQUIRE(apply(lat, c, pool, groups) && apply(gre, c, pool, groups), "a shipped accent file is not a proper set of groups");
    ErrorValues e, plain;
    if(how == 0) { e.addAccents(latinAccentGroup); e.addAccents(greekAccentGroup); }
    else if(how == 1) { e.addAccents(greekAccentGroup); e.addAccents(latinAccentGroup); }
    else e.addStandardErrors();
    set<uint32_t> listed = pool;
    for(uint32_t x = 0x21; x < 0x180; x++) pool.insert(x);
    for(uint32_t x = 0x384; x < 0x3d0; x++) pool.insert(x);
    for(int i = 0; i < 40; i++) pool.insert(anyStableBmp(g));
    if(how == 2) {
        // Both accent sets plus the keyboard set; letter pairs of the keyboard as a fresh table has them.
        plain.addAccents(latinAccentGroup);
        plain.addAccents(greekAccentGroup);
        plain.addKeyboardErrors();
        ErrorValues kb;
        kb.addKeyboardErrors();
        for(uint32_t x : pool) for(uint32_t y : pool) {
            int got = e.getSubstituteError(L(x), L(y)), k = kb.getSubstituteError(L(x), L(y));
            REQUIRE(got == plain.getSubstituteError(L(x), L(y)), "standard errors: cost of U+%04X against U+%04X is %d, but loading the sets one by one gives %d", x, y, got, plain.getSubstituteError(L(x), L(y)));
            int want = k != 100 ? k : c.sub(x, y);
            REQUIRE(got == want, "standard errors: cost of U+%04X against U+%04X is %d, expected %d", x, y, got, want);
        }
    } else verify(c, e, pool, "shipped data");
    // Unicode's own idea of which letters are variants of a plain one.
    std::map<uint32_t, vector<uint32_t>> variants;
    for(uint32_t x : listed) { uint32_t b = baseLetter(x); if(b != x) variants[b].push_back(x); }
    for(uint32_t x = 0x80; x < 0x180; x++) {
        if(u_charType((UChar32)x) != U_LOWERCASE_LETTER) continue;
        uint32_t b = baseLetter(x);
        if(b != x && u_isalpha((UChar32)b)) variants[b].push_back(x);
    }
    for(uint32_t x = 0x3ac; x < 0x3cf; x++) {
        uint32_t b = baseLetter(x);
        if(b != x && u_charType((UChar32)x) == U_LOWERCASE_LETTER) variants[b].push_back(x);
    }
    for(auto &v : variants) {
        vector<uint32_t> all = v.second;
        all.push_back(v.first);
        for(uint32_t x : all) for(uint32_t y : all)
            REQUIRE(e.getSubstituteError(L(x), L(y)) == (x == y ? 0 : GROUP), "shipped data: U+%04X and U+%04X are variants of U+%04X but cost %d", x, y, v.first, e.getSubstituteError(L(x), L(y)));
    }
    ctx.nontrivial();
}

// Makes opening files fail (1: no descriptors left) or makes the data files unreadable (2: directories in their place).
struct Unreadable {
    int how;
    struct rlimit nf;
    vector<string> moved;
    Unreadable(int h, const string &dir, const vector<int> &files) : how(h) {
        if(how == 1) {
            getrlimit(RLIMIT_NOFILE, &nf);
            int d = open("/dev/null", O_RDONLY);
            close(d);
            struct rlimit r = nf;
            r.rlim_cur = (rlim_t)d;
            setrlimit(RLIMIT_NOFILE, &r);
        } else if(how == 2) for(int f : files) {
            string n = dir + (f == 0 ? "/latinAccentedLetterGroups.txt" : "/greekAccentedLetterGroups.txt");
            rename(n.c_str(), (n + ".away").c_str());
            mkdir(n.c_str(), 0755);
            moved.push_back(n);
        }
    }
    void undo() {
        if(how == 1) setrlimit(RLIMIT_NOFILE, &nf);
        for(auto &n : moved) { rmdir(n.c_str()); rename((n + ".away").c_str(), n.c_str()); }
        moved.clear();
        how = 0;
    }
    ~Unreadable() { undo(); }
};

void run_case(Gen &g, Ctx &ctx) {
    if(g.chance(1, 40)) { shipped(g, ctx); return; }
    string name = g.oneOf<const char *>({"data", "d", "with space", "\xc3\xa4\xe4\xb8\xad", "dir.txt", "a-rather-long-directory-name-a-rather-long-directory-name-a-rather-long-directory-name-a-rather-long-directory-name"});
    string work = scratch() + "/" + fmt("c17.%d.w", (int)getpid()), dir = scratch() + "/" + fmt("c17.%d.", (int)getpid()) + name;
    // The directory built into the library is below the working directory here.
    const string installed = COLUMBUS_DATADIR;
    bool canBuiltin = !installed.empty() && installed[0] != '/';
    bool builtin = canBuiltin && g.chance(1, 8), decoy = canBuiltin && !builtin && g.chance(1, 8);
    if(builtin) dir = work + "/" + installed;
    while(dir.back() == '/') dir.pop_back();
    if(builtin || decoy) {
        string d = work + "/" + installed;
        for(size_t i = work.size(); i != string::npos; i = d.find('/', i + 1)) mkdir(d.substr(0, i).c_str(), 0755);
        mkdir(d.c_str(), 0755);
        if(decoy) for(const char *f : {"latinAccentedLetterGroups.txt", "greekAccentedLetterGroups.txt"}) std::ofstream(d + "/" + f) << "xy\n";
    }
    if(!builtin) mkdir(dir.c_str(), 0755);
    struct Cleanup {
        string d, work;
        ~Cleanup() {
            if(!work.empty()) {
                string i = work + "/" + COLUMBUS_DATADIR;
                unlink((i + "/latinAccentedLetterGroups.txt").c_str());
                unlink((i + "/greekAccentedLetterGroups.txt").c_str());
                while(i.size() >= work.size()) { rmdir(i.c_str()); i.resize(i.rfind('/')); }
            }
            unlink((d + "/latinAccentedLetterGroups.txt").c_str());
            unlink((d + "/greekAccentedLetterGroups.txt").c_str());
            rmdir(d.c_str());
            unsetenv("COLUMBUS_DATADIR");
        }
    } cleanup{dir, builtin || decoy ? work : string()};
    (void)cleanup;
    // Contents.
    string content[2];
    bool present[2];
    set<uint32_t> used;
    bool clash = g.chance(1, 5), bad = g.chance(1, 6);
    for(int f = 0; f < 2; f++) {
        present[f] = !g.chance(1, 10);
        size_t n = g.chance(1, 20) ? g.upto(40) : g.chance(1, 150) ? edgeLen(g, 1030) : g.upto(6);
        string &s = content[f];
        for(size_t i = 0; i < n; i++) {
            if(g.chance(1, 10)) { s += "\n"; continue; }
            size_t m = n > 40 ? 1 + g.upto(2) : g.chance(1, 30) ? 100 + g.upto(200) : g.chance(1, 300) ? edgeLen(g, 2050) : 1 + g.upto(6);
            U line;
            for(size_t k = 0; k < m; k++) {
                uint32_t c;
                switch(g.weighted({30, 40, 30})) {
                case 0: c = (uint32_t)g.range('a', 'z'); break;
                case 1: c = lower((uint32_t)g.range(0xc0, 0x233)); break;
                default: c = anyStableBmp(g); break;
                }
                if(!clash && used.count(c) && line.find((char32_t)c) == U::npos) continue;
                used.insert(c);
                line += (char32_t)c;
            }
            s += recase(g, line);
            if(bad && g.chance(1, 3)) s += g.oneOf<const char *>({"\xff", " x", "\t", "\r", "\xc3", "\xed\xa0\x80"});
            if(i + 1 < n || !g.chance(1, 3)) s += "\n";
        }
        const char *fn = f == 0 ? "/latinAccentedLetterGroups.txt" : "/greekAccentedLetterGroups.txt";
        if(present[f]) {
            std::ofstream o(dir + fn, std::ios::binary);
            o << s;
        }
        ctx.log((f == 0 ? "latin file: " : "greek file: ") + (present[f] ? show(s).substr(0, 1500) : string("missing")));
    }
    string envDir = dir;
    bool relative = !builtin && !decoy && g.chance(1, 6);
    char cwd[PATH_MAX];
    if(relative) {
        REQUIRE(getcwd(cwd, sizeof cwd) && chdir(scratch().c_str()) == 0, "harness: chdir failed");
        envDir = dir.substr(scratch().size() + 1);
        if(g.flip()) envDir = "./" + envDir;
    }
    if(builtin || decoy) REQUIRE(getcwd(cwd, sizeof cwd) && chdir(work.c_str()) == 0, "harness: chdir failed");
    struct Back { bool on; const char *d; ~Back() { if(on && chdir(d) != 0) abort(); } } back{relative || builtin || decoy, cwd};
    (void)back;
    size_t sl = g.weighted({45, 45, 10});
    envDir += sl == 0 ? "" : sl == 1 ? "/" : "//";
    if(!builtin && g.chance(1, 12)) {
        // The same directory by a long name.
        size_t want = edgeLen(g, 3000);
        string pre;
        while(pre.size() + 2 <= want) pre += g.chance(1, 20) ? "/" : "./";
        if(relative) envDir = "./" + pre + envDir;
        else {
            size_t at = envDir.rfind(name);
            if(at != string::npos && envDir[at-1] != '/') at = envDir.rfind('/', at - 1) + 1;
            envDir.insert(at, pre);
        }
        ctx.label("long path");
        ctx.logf("name of %zu bytes", envDir.size());
    }
    if(!builtin) setenv("COLUMBUS_DATADIR", envDir.c_str(), 1);
    else if(g.flip()) setenv("COLUMBUS_DATADIR", "", 1);
    else unsetenv("COLUMBUS_DATADIR");
    if(builtin) { ctx.label("built-in directory"); ctx.logf("built-in directory, variable %s", getenv("COLUMBUS_DATADIR") ? "empty" : "not set"); }
    else ctx.logf("directory %s, %s", relative ? "relative" : "absolute", sl == 0 ? "no slash" : "trailing slash");
    ErrorValues e;
    Costs c;
    set<uint32_t> pool;
    for(uint32_t x : used) if(pool.size() < 120) pool.insert(x);
    for(uint32_t x : {0x61, 0x62, 0x65, 0x6f, 0x7a, 0xe5, 0xe9, 0x3b1, 0x3ac}) pool.insert(x);
    size_t groups = 0, n = 1 + g.upto(2);
    for(size_t k = 0; k < n; k++) {
        int what = (int)g.upto(4);
        if(what == 3) { c.clear(); e.clearErrors(); ctx.log("clear"); verify(c, e, pool, "clear"); continue; }
        if(what == 4) {
            uint32_t x = g.pick(edgeLetters()), y = (uint32_t)g.range('a', 'z');
            c.setError(x, y, 77);
            e.setError(L(x), L(y), 77);
            ctx.logf("set U+%04X U+%04X = 77", x, y);
            pool.insert(x); pool.insert(y);
            continue;
        }
        vector<int> order = what == 0 ? vector<int>{0} : what == 1 ? vector<int>{1} : vector<int>{0, 1};
        ctx.log(what == 0 ? "load latin" : what == 1 ? "load greek" : "standard errors");
        bool ok = true;
        bool blocked = g.chance(1, 14);
        for(int f : order) {
            if(!present[f] || blocked) { ok = false; break; }
            if(!apply(content[f], c, pool, groups)) { ok = false; break; }
        }
        bool threw = false;
        // The file exists but can not be opened, or not be read.
        Unreadable u(blocked ? (g.flip() ? 1 : 2) : 0, dir, order);
        if(blocked) { ctx.label("unreadable file"); ctx.log(u.how == 1 ? "(the files can not be opened)" : "(the files can not be read)"); }
        try {
            if(what == 0) e.addAccents(latinAccentGroup);
            else if(what == 1) e.addAccents(greekAccentGroup);
            else e.addStandardErrors();
        } catch(const std::exception &) { threw = true; }
        u.undo();
        REQUIRE(threw == !ok, "loading %s although the data is %s", threw ? "failed" : "succeeded", ok ? "in order" : "missing, unreadable, malformed or has a letter on two lines");
        if(!ok) { ctx.nontrivial(); ctx.label("refused"); return; } // how much of it was loaded is not specified
        if(what == 2) {
            // Individual costs outrank groups.
            ErrorValues kb;
            kb.addKeyboardErrors();
            set<uint32_t> keys = {0xe5, 0xe4, 0xf6};
            for(uint32_t x = 0x21; x < 0x7f; x++) keys.insert(x);
            for(uint32_t x : keys) for(uint32_t y : keys) { int kk = kb.getSubstituteError(L(x), L(y)); if(x != y && kk != 100) c.setError(x, y, kk); }
            for(uint32_t x : {0x61, 0x73, 0x71, 0x70, 0x6d, 0xe4, 0xf6, 0xe5}) pool.insert((uint32_t)x);
        }
        verify(c, e, pool, "loading");
        if(pool.size() > 400) break;
    }
    if(groups >= 2) { ctx.nontrivial(); ctx.label("two or more groups"); }
}
} // namespace pbt
