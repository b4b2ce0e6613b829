// C18: failures of the backing storage.
#include "world.hh"
#include "resources.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include <memory>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/statvfs.h>
#include <stdio.h>
#include <stdarg.h>

// ---------------------------------------------------------------- injection
namespace fault {
static bool active = false;      // inside a library call
static int countdown = -1;       // fail the call this many storage calls from now
static bool sticky = false;      // and all later ones, until disarmed
static bool firing = false;
static size_t fired = 0, calls = 0;
static bool hit() {
    if(!active) return false;
    calls++;
    if(firing) { fired++; return true; }
    if(countdown > 0 && --countdown == 0) {
        fired++;
        if(sticky) firing = true;
        return true;
    }
    return false;
}
static void disarm() { countdown = -1; sticky = false; firing = false; }
struct In { In() { active = true; } ~In() { active = false; } };
}
extern "C" {
FILE *__real_tmpfile(); FILE *__wrap_tmpfile() { if(fault::hit()) { errno = EMFILE; return nullptr; } return __real_tmpfile(); }
FILE *__real_tmpfile64(); FILE *__wrap_tmpfile64() { if(fault::hit()) { errno = EMFILE; return nullptr; } return __real_tmpfile64(); }
int __real_ftruncate(int f, off_t n); int __wrap_ftruncate(int f, off_t n) { if(fault::hit()) { errno = ENOSPC; return -1; } return __real_ftruncate(f, n); }
int __real_ftruncate64(int f, off64_t n); int __wrap_ftruncate64(int f, off64_t n) { if(fault::hit()) { errno = ENOSPC; return -1; } return __real_ftruncate64(f, n); }
int __real_posix_fallocate(int f, off_t o, off_t n); int __wrap_posix_fallocate(int f, off_t o, off_t n) { if(fault::hit()) return ENOSPC; return __real_posix_fallocate(f, o, n); }
int __real_fallocate(int f, int m, off_t o, off_t n); int __wrap_fallocate(int f, int m, off_t o, off_t n) { if(fault::hit()) { errno = ENOSPC; return -1; } return __real_fallocate(f, m, o, n); }
void *__real_mmap(void *a, size_t n, int p, int fl, int f, off_t o); void *__wrap_mmap(void *a, size_t n, int p, int fl, int f, off_t o) { if(fault::hit()) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap(a, n, p, fl, f, o); }
void *__real_mmap64(void *a, size_t n, int p, int fl, int f, off64_t o); void *__wrap_mmap64(void *a, size_t n, int p, int fl, int f, off64_t o) { if(fault::hit()) { errno = ENOMEM; return MAP_FAILED; } return __real_mmap64(a, n, p, fl, f, o); }
void *__real_mremap(void *a, size_t o, size_t n, int fl, ...); void *__wrap_mremap(void *a, size_t o, size_t n, int fl, ...) {
    va_list ap; va_start(ap, fl); void *na = (fl & MREMAP_FIXED) ? va_arg(ap, void *) : nullptr; va_end(ap);
    if(fault::hit()) { errno = ENOMEM; return MAP_FAILED; }
    return (fl & MREMAP_FIXED) ? __real_mremap(a, o, n, fl, na) : __real_mremap(a, o, n, fl);
}
int __real_madvise(void *a, size_t n, int ad); int __wrap_madvise(void *a, size_t n, int ad) { if(fault::hit()) { errno = EINVAL; return -1; } return __real_madvise(a, n, ad); }
int __real_mkstemp(char *t); int __wrap_mkstemp(char *t) { if(fault::hit()) { errno = EMFILE; return -1; } return __real_mkstemp(t); }
int __real_memfd_create(const char *n, unsigned f); int __wrap_memfd_create(const char *n, unsigned f) { if(fault::hit()) { errno = EMFILE; return -1; } return __real_memfd_create(n, f); }
}

namespace pbt {
const char *PROP_ID = "C18";
const char *PROP_RULE = "a history of constructions and insertions on a word store, a dictionary index or a matcher in which the k-th storage call (temporary file, truncate, map, advise) fails once or until disarmed, or "
                        "a real file-size or descriptor limit is in force for a while; everything stored is verified after each failure, the failed operation retried, and resources balanced at the end; non-trivial when an "
                        "operation failed with an exception after something had been stored";
using namespace world;
using namespace Columbus;

void process_setup() { signal(SIGXFSZ, SIG_IGN); }

struct Op { int kind; size_t w; size_t k; bool sticky; int how; };
struct Limits { // real limits, lifted again on destruction
    struct rlimit fs, nf;
    bool on = false;
    void set(int how) {
        lift();
        getrlimit(RLIMIT_FSIZE, &fs);
        getrlimit(RLIMIT_NOFILE, &nf);
        on = true;
        if(how == 1) { struct rlimit r = fs; r.rlim_cur = 0; setrlimit(RLIMIT_FSIZE, &r); }
        else {
            int d = open("/dev/null", O_RDONLY);
            close(d);
            struct rlimit r = nf;
            r.rlim_cur = (rlim_t)d;
            setrlimit(RLIMIT_NOFILE, &r);
        }
    }
    void lift() { if(on) { setrlimit(RLIMIT_FSIZE, &fs); setrlimit(RLIMIT_NOFILE, &nf); on = false; } }
    ~Limits() { lift(); }
};
struct Disarm { ~Disarm() { fault::disarm(); } };

// A library call under the current faults; false when it threw.
template<typename F> static bool call(F f) {
    fault::In in;
    try { f(); return true; }
    catch(const std::exception &) { return false; }
}
static size_t g_failed, g_failedLater, g_ctorFailed;

static void arm(const Op &o, Limits &l) {
    if(o.how == 0) { fault::countdown = (int)o.k; fault::sticky = o.sticky; fault::firing = false; }
    else l.set(o.how);
}
static void disarm(Limits &l) { fault::disarm(); l.lift(); }

static void runStore(const vector<Op> &ops, const vector<U> &pool) {
    Disarm da;
    Limits lim;
    std::unique_ptr<WordStore> s;
    map<U, WordID> ids;
    vector<U> byId;
    auto construct = [&] {
        if(s) return;
        bool ok = call([&] { s.reset(new WordStore()); });
        if(ok) return;
        g_ctorFailed++;
        disarm(lim);
        REQUIRE(call([&] { s.reset(new WordStore()); }), "constructing a word store still fails after storage is available again");
    };
    auto verify = [&](const char *when) {
        for(size_t i = 0; i < byId.size(); i++) {
            REQUIRE(s->hasWord((WordID)i), "%s: id %zu is gone", when, i);
            U got = letters(s->getWord((WordID)i));
            REQUIRE(got == byId[i], "%s: id %zu gives %s, expected %s", when, i, show(got).c_str(), show(byId[i]).c_str());
            REQUIRE(s->hasWord(mk(byId[i])), "%s: word %s is gone", when, show(byId[i]).c_str());
            REQUIRE(s->getID(mk(byId[i])) == i, "%s: word %s has another id", when, show(byId[i]).c_str());
        }
        REQUIRE(!s->hasWord((WordID)byId.size()), "%s: id %zu is known", when, byId.size());
        for(auto &w : pool) REQUIRE(s->hasWord(mk(w)) == (ids.count(w) > 0), "%s: hasWord(%s) is wrong", when, show(w).c_str());
    };
    for(auto &o : ops) {
        switch(o.kind) {
        case 0: arm(o, lim); break;
        case 1: disarm(lim); break;
        case 2: if(byId.size()) { disarm(lim); verify("before the store is destroyed"); } s.reset(); ids.clear(); byId.clear(); construct(); break;
        default: {
            construct();
            const U &w = pool[o.w];
            Word word = mk(w);
            WordID id = 0;
            if(!call([&] { id = s->getID(word); })) {
                g_failed++;
                if(byId.size()) g_failedLater++;
                REQUIRE(!ids.count(w), "asking for the id of the stored word %s failed", show(w).c_str());
                disarm(lim);
                verify("after a failed registration");
                bool again = call([&] { id = s->getID(word); });
                REQUIRE(again, "registering %s still fails after storage is available again", show(w).c_str());
            }
            auto it = ids.find(w);
            if(it != ids.end()) REQUIRE(id == it->second, "word %s has id %u, first got %u", show(w).c_str(), id, it->second);
            else {
                REQUIRE(id == byId.size(), "new word %s got id %u, expected %zu", show(w).c_str(), id, byId.size());
                ids[w] = id;
                byId.push_back(w);
            }
        }
        }
    }
    disarm(lim);
    construct();
    verify("at the end");
}

static void runIndex(const vector<Op> &ops, const vector<U> &pool) {
    Disarm da;
    Limits lim;
    std::unique_ptr<LevenshteinIndex> s;
    ErrorValues ev;
    map<U, WordID> ids;
    map<WordID, size_t> counts;
    set<U> present;
    size_t maxCount = 0;
    auto construct = [&] {
        if(s) return;
        if(call([&] { s.reset(new LevenshteinIndex()); })) return;
        g_ctorFailed++;
        disarm(lim);
        REQUIRE(call([&] { s.reset(new LevenshteinIndex()); }), "constructing an index still fails after storage is available again");
    };
    auto verify = [&](const char *when) {
        REQUIRE(s->numWords() == present.size(), "%s: numWords is %zu, expected %zu", when, s->numWords(), present.size());
        REQUIRE(s->maxCount() == maxCount, "%s: maxCount is %zu, expected %zu", when, s->maxCount(), maxCount);
        for(auto &w : pool) REQUIRE(s->hasWord(mk(w)) == (present.count(w) > 0), "%s: hasWord(%s) is wrong", when, show(w).c_str());
        for(auto &x : ids) {
            auto c = counts.find(x.second);
            REQUIRE(s->wordCount(x.second) == (c == counts.end() ? 0 : c->second), "%s: wordCount of %s is %zu", when, show(x.first).c_str(), s->wordCount(x.second));
        }
        for(size_t i = 0; i < pool.size(); i += 1 + pool.size() / 6) {
            IndexMatches m;
            s->findWords(mk(pool[i]), ev, 200, m);
            map<WordID, int> got, want;
            for(size_t k = 0; k < m.size(); k++) REQUIRE(got.insert({m.getMatch(k), m.getMatchError(k)}).second, "%s: a word is found twice", when);
            static const Costs plain;
            for(auto &w : present) { int d = distance(pool[i], w, plain); if(d <= 200) want[ids[w]] = d; }
            REQUIRE(got == want, "%s: searching for %s finds %zu words, expected %zu (or other errors)", when, show(pool[i]).c_str(), got.size(), want.size());
        }
    };
    for(auto &o : ops) {
        switch(o.kind) {
        case 0: arm(o, lim); break;
        case 1: disarm(lim); break;
        case 2: s.reset(); ids.clear(); counts.clear(); present.clear(); maxCount = 0; construct(); break;
        default: {
            construct();
            const U &w = pool[o.w];
            Word word = mk(w);
            WordID id = ids.insert({w, (WordID)ids.size()}).first->second;
            if(!call([&] { s->insertWord(word, id); })) {
                g_failed++;
                if(present.size()) g_failedLater++;
                disarm(lim);
                verify("after a failed insertion");
                bool again = call([&] { s->insertWord(word, id); });
                REQUIRE(again, "inserting %s still fails after storage is available again", show(w).c_str());
            }
            if(!w.empty()) {
                maxCount = std::max(maxCount, ++counts[id]);
                present.insert(w);
            }
        }
        }
    }
    disarm(lim);
    construct();
    verify("at the end");
}

static void runMatcher(const vector<Op> &ops, const vector<U> &pool) {
    Disarm da;
    Limits lim;
    std::unique_ptr<Matcher> m;
    vector<pair<Id, U>> stored;
    auto construct = [&] {
        if(m) return;
        if(call([&] { m.reset(new Matcher()); })) return;
        g_ctorFailed++;
        disarm(lim);
        REQUIRE(call([&] { m.reset(new Matcher()); }), "constructing a matcher still fails after storage is available again");
    };
    auto found = [&](Id id, const U &w) {
        MatchResults r = m->match(mkList({w}));
        for(size_t i = 0; i < r.size(); i++) if(r.getDocumentID(i) == id) return true;
        return false;
    };
    auto verify = [&](const char *when) {
        size_t step = 1 + stored.size() / 12;
        for(size_t i = 0; i < stored.size(); i += step)
            REQUIRE(found(stored[i].first, stored[i].second), "%s: document %llu is no longer found by its word %s", when, (unsigned long long)stored[i].first, show(stored[i].second).c_str());
    };
    Id next = 1;
    for(auto &o : ops) {
        switch(o.kind) {
        case 0: arm(o, lim); break;
        case 1: disarm(lim); break;
        case 2: m.reset(); stored.clear(); construct(); break;
        default: {
            construct();
            const U &w = pool[o.w];
            Doc d;
            d.id = next++;
            // New fields now and then: each has an index of its own.
            d.fields[o.k % 5 == 0 ? U(1, (char32_t)('A' + 32 + next % 20)) : U(U"f")] = {w};
            Corpus c;
            c.addDocument(mkDoc(d));
            if(!call([&] { m->index(c); })) {
                g_failed++;
                if(stored.size()) g_failedLater++;
                disarm(lim);
                verify("after a failed indexing");
                bool again = call([&] { m->index(c); });
                REQUIRE(again, "indexing still fails after storage is available again");
            }
            // Words of no letters cannot be found.
            if(!w.empty()) stored.push_back({d.id, w});
        }
        }
    }
    disarm(lim);
    construct();
    verify("at the end");
}

#ifdef PBT_BIG
// A dictionary that outgrows what its offsets can reach: the 32 bits of an offset give it four gigabytes.
static bool roomForBig() {
    struct statvfs v;
    if(statvfs("/tmp", &v) != 0 || (unsigned long long)v.f_bavail * v.f_frsize < 12ull << 30) return false;
    FILE *f = fopen("/proc/meminfo", "r");
    char line[256];
    unsigned long long kb = 0;
    while(f && fgets(line, sizeof line, f)) if(sscanf(line, "MemAvailable: %llu", &kb) == 1) break;
    if(f) fclose(f);
    return kb > 8ull << 20;
}

void run_case(Gen &g, Ctx &ctx) {
    bool store = g.flip();
    vector<U> pool = genDict(g, genAlpha(g, true), 20, 12), small;
    std::set<char32_t> firsts;
    for(auto &w : pool) if(wellFormed(w) && !w.empty()) { small.push_back(w); firsts.insert(w[0]); }
    if(small.empty()) { small.push_back(U(U"a")); firsts.insert(U'a'); }
    size_t len = 25000000 + g.upto(50000000);
    uint32_t spice = (uint32_t)g.upto(1000);
    ctx.label(store ? "word store" : "dictionary index");
    ctx.logf("on a %s: %zu small words, then words of %zu letters until one does not fit", store ? "word store" : "dictionary index", small.size(), len);
    if(!roomForBig()) { ctx.label("skipped: not enough room"); return; }
    std::unique_ptr<WordStore> ws;
    std::unique_ptr<LevenshteinIndex> ix;
    if(store) ws.reset(new WordStore()); else ix.reset(new LevenshteinIndex());
    vector<Letter> v(len);
    for(size_t i = 0; i < len; i++) v[i] = Letter((Letter_)('a' + (i * 7 + i / 1000 + spice) % 23));
    auto big = [&](size_t n) {
        v[0] = Letter((Letter_)(0x4e00 + n));
        return Word(v.data(), v.size());
    };
    map<U, WordID> ids;
    size_t stored = 0;
    // False when the word was refused.
    auto insert = [&](const Word &w) {
        WordID id = (WordID)stored;
        bool ok = call([&] { if(store) id = ws->getID(w); else ix->insertWord(w, id); });
        REQUIRE(!ok || id == stored, "new word number %zu has id %u", stored, id);
        return ok;
    };
    for(auto &w : small) if(!ids.count(w)) {
        REQUIRE(insert(mk(w)), "a small word does not fit into an empty dictionary");
        ids[w] = (WordID)stored++;
    }
    size_t bigs = 0;
    bool full = false;
    while(!full && bigs * len < 250000000) {
        Word w = big(bigs);
        if(insert(w)) { bigs++; stored++; } else full = true;
    }
    REQUIRE(bigs > 0, "a word of %zu letters does not fit", len);
    ctx.logf("%zu fitted", bigs);
    auto verify = [&](const char *when, bool again) {
        for(auto &x : ids) {
            if(store) {
                REQUIRE(ws->hasWord(mk(x.first)) && ws->getID(mk(x.first)) == x.second, "%s: word %s is gone", when, show(x.first).c_str());
                REQUIRE(letters(ws->getWord(x.second)) == x.first, "%s: id %u gives another word", when, x.second);
            } else {
                REQUIRE(ix->hasWord(mk(x.first)), "%s: word %s is gone", when, show(x.first).c_str());
                REQUIRE(ix->wordCount(x.second) == 1, "%s: word %s has count %zu", when, show(x.first).c_str(), ix->wordCount(x.second));
            }
        }
        for(size_t n = again && bigs ? bigs - 1 : 0; n <= bigs; n++) {
            Word w = big(n);
            bool has = store ? ws->hasWord(w) : ix->hasWord(w);
            REQUIRE(has == (n < bigs), "%s: long word %zu of %zu is%s there", when, n, bigs, has ? "" : " not");
            if(store && n + 1 == bigs) REQUIRE(ws->getWord((WordID)(ids.size() + n)) == w, "%s: long word %zu reads differently", when, n);
        }
        if(store) REQUIRE(!ws->hasWord((WordID)stored), "%s: an id that was never given is known", when);
        else REQUIRE(ix->numWords() == stored, "%s: %zu words, expected %zu", when, ix->numWords(), stored);
    };
    if(full) {
        verify("full", false);
        REQUIRE(!insert(big(bigs)), "a word that did not fit does when tried again");
        verify("after a second refusal", true);
        ctx.label("refused when full");
        ctx.nontrivial();
    }
}
#else
void run_case(Gen &g, Ctx &ctx) {
    Alpha a = genAlpha(g, true);
    int what = (int)g.weighted({40, 40, 20});
    vector<U> pool;
    size_t shape = g.weighted({50, 25, 15, 10});
    pool = genDict(g, a, shape == 0 ? 12 : shape == 1 ? 40 : shape == 2 ? 6 : 150, shape == 2 ? 300 : shape == 0 ? 20 : 9);
    vector<U> ok;
    for(auto &w : pool) if(wellFormed(w)) ok.push_back(w);
    if(ok.empty()) ok.push_back(U(U"a"));
    pool = ok;
    size_t n = 2 + g.upto(std::min<size_t>(2 * pool.size(), 200));
    if(what == 2 && n > 40) n = 40;
    vector<Op> ops;
    for(size_t i = 0; i < n; i++) {
        Op o = {3, 0, 0, false, 0};
        if(i == 0 ? g.chance(1, 3) : g.chance(1, 5)) {
            o.kind = 0;
            o.how = (int)g.weighted({80, 12, 8});
            o.k = 1 + g.small(11);
            o.sticky = g.chance(1, 3);
            ctx.log(o.how == 0 ? fmt("storage call %zu from here fails%s", o.k, o.sticky ? ", and all later ones" : "") : o.how == 1 ? "file size limit" : "descriptor limit");
        } else if(g.chance(1, 20)) { o.kind = 1; ctx.log("storage is available"); }
        else if(g.chance(1, 40)) { o.kind = 2; ctx.log("new object"); }
        else { o.w = g.upto(pool.size() - 1); o.k = g.upto(20); ctx.log("insert " + show(pool[o.w])); }
        ops.push_back(o);
    }
    ctx.label(what == 0 ? "word store" : what == 1 ? "dictionary index" : "matcher");
    ctx.log(what == 0 ? "on a word store" : what == 1 ? "on a dictionary index" : "on a matcher");
    auto body = [&] {
        g_failed = g_failedLater = g_ctorFailed = 0;
        fault::fired = fault::calls = 0;
        try {
            if(what == 0) runStore(ops, pool);
            else if(what == 1) runIndex(ops, pool);
            else runMatcher(ops, pool);
        } catch(...) { fault::disarm(); fault::active = false; throw; }
    };
    body();
    res::Level a0 = res::Level::now();
    body();
    res::Level a1 = res::Level::now();
    body();
    res::Level a2 = res::Level::now();
    REQUIRE(!(a0.heap != a1.heap && a1.heap != a2.heap), "heap in use grows from run to run of the same history: %zu, %zu, %zu bytes", a0.heap, a1.heap, a2.heap);
    REQUIRE(a0.fds == a1.fds && a1.fds == a2.fds, "open file descriptors grow from run to run: %zu, %zu, %zu", a0.fds, a1.fds, a2.fds);
    REQUIRE(a0.maps == a1.maps && a1.maps == a2.maps, "mapped files grow from run to run: %zu, %zu, %zu", a0.maps, a1.maps, a2.maps);
    if(g_ctorFailed) ctx.label("construction failed");
    if(g_failed) ctx.label("insertion failed");
    if(fault::fired) ctx.label("fault injected");
    if(g_failedLater) ctx.nontrivial();
}
#endif
} // namespace pbt
