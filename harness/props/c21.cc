// C21: separate objects do not influence each other.
#include "world.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "ColumbusHelpers.hh"
#include "columbus.h"
#include <memory>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <stdlib.h>
#include <poll.h>
#include <signal.h>
#include <time.h>
#include <sys/wait.h>
namespace pbt {
const char *PROP_ID = "C21";
const char *PROP_RULE = "2-4 generated scripts, each on objects of its own (matcher, word store, dictionary index with error values, text and result values, C handles); every script is run by itself in a process that never "
                        "used the library before, then all of them interleaved step by step and on one thread each in another process, and all transcripts compared; non-trivial when two scripts use objects of "
                        "the same kind and produced results";
void process_setup() {}
using namespace world;
using namespace Columbus;

struct State {
    std::unique_ptr<Matcher> matcher;
    std::unique_ptr<WordStore> store;
    std::unique_ptr<LevenshteinIndex> index;
    std::unique_ptr<ErrorValues> errors;
    vector<Word> words;
    vector<WordList> lists;
    vector<Document> docs;
    MatchResults results;
    ColMatcher cm = nullptr;
    ~State() { if(cm) col_matcher_delete(cm); }
};
typedef std::function<void(State &, string &)> Step;
struct Script { string kind; vector<Step> steps; vector<string> texts; };

static void say(string &o, const char *f, ...) __attribute__((format(printf, 2, 3)));
static void say(string &o, const char *f, ...) {
    char b[400];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    o += b;
    o += '\n';
}
static void put(string &o, const MatchResults &r) {
    vector<pair<Id, double>> v;
    for(size_t i = 0; i < r.size(); i++) v.push_back({r.getDocumentID(i), r.getRelevancy(i)});
    std::sort(v.begin(), v.end()); // the order of ties is not specified
    for(auto &x : v) say(o, " %llu:%.9g", (unsigned long long)x.first, x.second);
}
static void run(const Step &s, State &st, string &o) {
    try { s(st, o); }
    catch(const std::exception &) { o += "refused\n"; }
}

struct CostCall { int what; U letters; uint32_t a, b; int e; };
static vector<CostCall> genCostCalls(Gen &g, const Alpha &al) {
    vector<CostCall> r;
    size_t n = g.upto(4);
    for(size_t i = 0; i < n; i++) {
        CostCall c;
        c.what = (int)g.upto(9);
        c.e = genCost(g);
        c.a = g.pick(al) & 0xffff;
        c.b = g.pick(al) & 0xffff;
        size_t m = 2 + g.upto(3);
        for(size_t k = 0; k < m; k++) { uint32_t x = g.pick(al); if(x < 0xd800) c.letters += (char32_t)x; }
        r.push_back(c);
    }
    return r;
}
static void apply(const vector<CostCall> &cs, ErrorValues &e) {
    for(auto &c : cs) switch(c.what) {
    case 0: e.setInsertionError(c.e); break;
    case 1: e.setDeletionError(c.e); break;
    case 2: e.setEndDeletionError(c.e); break;
    case 3: e.setTransposeError(c.e); break;
    case 4: e.setSubstringMode(); break;
    case 5: e.addKeyboardErrors(); break;
    case 6: e.addNumberpadErrors(); break;
    case 7: try { e.setGroupError(mk(c.letters), c.e); } catch(const std::exception &) {} break;
    case 8: try { e.addAccents(c.e & 1 ? latinAccentGroup : greekAccentGroup); } catch(const std::exception &) {} break;
    default: if(c.a != c.b) e.setError(Letter((Letter_)c.a), Letter((Letter_)c.b), c.e);
    }
}

static Script matcherScript(Gen &g, const World &w) {
    Script s;
    s.kind = "matcher";
    auto calls = genCostCalls(g, w.alpha);
    s.steps.push_back([calls](State &st, string &) { st.matcher.reset(new Matcher()); apply(calls, st.matcher->getErrorValues()); });
    s.texts.push_back(fmt("new matcher, %zu cost calls", calls.size()));
    vector<Doc> docs = w.docs;
    size_t pos = 0;
    while(pos < docs.size()) {
        size_t n = 1 + g.small(docs.size() - pos - 1);
        vector<Doc> part(docs.begin() + pos, docs.begin() + pos + n);
        pos += n;
        s.steps.push_back([part](State &st, string &) { indexAll(*st.matcher, part); });
        s.texts.push_back(fmt("index %zu documents", n));
        size_t k = g.upto(2);
        for(size_t i = 0; i < k; i++) {
            vector<U> q = genQuery(g, w, 3);
            U f = g.pick(w.fieldNames);
            double v = g.oneOf<double>({0.5, 2.0, 0.0});
            switch(g.upto(4)) {
            case 0: s.steps.push_back([q](State &st, string &o) { put(o, st.matcher->match(mkList(q))); }); s.texts.push_back("match " + showList(q)); break;
            case 1: s.steps.push_back([q, f](State &st, string &o) { put(o, st.matcher->onlineMatch(mkList(q), mk(f))); }); s.texts.push_back("online " + showList(q) + " in " + show(f)); break;
            case 2: s.steps.push_back([f, v](State &st, string &) { st.matcher->getIndexWeights().setWeight(mk(f), v); }); s.texts.push_back("weight of " + show(f)); break;
            case 3: s.steps.push_back([q, f](State &st, string &o) {
                SearchParameters p;
                p.addNonsearchingField(mk(f));
                p.getResultFilter().addNewSubTerm(mk(f), mk(q[0]));
                p.getResultFilter().addNewTerm();
                put(o, st.matcher->match(mkList(q), p));
            }); s.texts.push_back("match " + showList(q) + " not in " + show(f)); break;
            default: { auto more = genCostCalls(g, w.alpha); s.steps.push_back([more](State &st, string &) { apply(more, st.matcher->getErrorValues()); }); s.texts.push_back("cost calls"); }
            }
        }
    }
    vector<U> q = genQuery(g, w, 3);
    s.steps.push_back([q](State &st, string &o) { put(o, st.matcher->match(mkList(q))); });
    s.texts.push_back("match " + showList(q));
    return s;
}
static Script storeScript(Gen &g, const World &w) {
    Script s;
    s.kind = "word store";
    s.steps.push_back([](State &st, string &) { st.store.reset(new WordStore()); });
    s.texts.push_back("new store");
    size_t n = 3 + g.upto(30);
    for(size_t i = 0; i < n; i++) {
        U u = g.flip() ? g.pick(w.vocab) : genQueryWord(g, w);
        uint32_t id = (uint32_t)g.upto(20);
        switch(g.weighted({60, 15, 25})) {
        case 0: s.steps.push_back([u](State &st, string &o) { say(o, "id %u", st.store->getID(mk(u))); }); s.texts.push_back("id of " + show(u)); break;
        case 1: s.steps.push_back([u](State &st, string &o) { say(o, "has %d", (int)st.store->hasWord(mk(u))); }); s.texts.push_back("has " + show(u)); break;
        default: s.steps.push_back([id](State &st, string &o) { o += st.store->getWord(id).asUtf8() + "\n"; }); s.texts.push_back(fmt("word %u", id));
        }
    }
    return s;
}
static Script indexScript(Gen &g, const World &w) {
    Script s;
    s.kind = "dictionary index";
    auto calls = genCostCalls(g, w.alpha);
    s.steps.push_back([calls](State &st, string &) { st.index.reset(new LevenshteinIndex()); st.errors.reset(new ErrorValues()); apply(calls, *st.errors); });
    s.texts.push_back(fmt("new index, %zu cost calls", calls.size()));
    map<U, WordID> ids;
    size_t n = 3 + g.upto(30);
    for(size_t i = 0; i < n; i++) {
        if(g.flip()) {
            U u = g.pick(w.vocab);
            WordID id = ids.insert({u, (WordID)ids.size()}).first->second;
            s.steps.push_back([u, id](State &st, string &o) { st.index->insertWord(mk(u), id); say(o, "count %zu max %zu words %zu nodes %zu", st.index->wordCount(id), st.index->maxCount(), st.index->numWords(), st.index->numNodes()); });
            s.texts.push_back("insert " + show(u));
        } else if(g.chance(1, 5)) {
            auto more = genCostCalls(g, w.alpha);
            bool clear = g.chance(1, 4);
            s.steps.push_back([more, clear](State &st, string &) { if(clear) st.errors->clearErrors(); apply(more, *st.errors); });
            s.texts.push_back("cost calls");
        } else {
            U u = genQueryWord(g, w);
            int e = g.oneOf<int>({100, 200, 300, 30});
            s.steps.push_back([u, e](State &st, string &o) {
                IndexMatches m;
                st.index->findWords(mk(u), *st.errors, e, m);
                vector<pair<int, unsigned>> v;
                for(size_t k = 0; k < m.size(); k++) v.push_back({m.getMatchError(k), m.getMatch(k)});
                std::sort(v.begin(), v.end());
                for(auto &x : v) say(o, " %u:%d", x.second, x.first);
                say(o, "has %d", (int)st.index->hasWord(mk(u)));
            });
            s.texts.push_back("find " + show(u));
        }
    }
    return s;
}
static Script valueScript(Gen &g, const World &w) {
    Script s;
    s.kind = "values";
    size_t n = 5 + g.upto(30);
    for(size_t i = 0; i < n; i++) {
        vector<U> q = genQuery(g, w, 4);
        size_t a = g.upto(50), b = g.upto(50);
        switch(g.upto(6)) {
        case 0: { string t = joinText(g, q, true); if(g.chance(1, 6)) t += "\xff"; s.steps.push_back([t](State &st, string &o) { st.lists.push_back(splitToWords(t.c_str())); for(size_t k = 0; k < st.lists.back().size(); k++) o += st.lists.back()[k].asUtf8() + " "; o += "\n"; }); s.texts.push_back("split " + show(t)); break; }
        case 1: { string t = recase(g, q[0]); if(g.chance(1, 6)) t += " x"; s.steps.push_back([t](State &st, string &o) { st.words.push_back(Word(t)); char buf[64]; st.words.back().toUtf8(buf, sizeof buf); say(o, "%s %zu", buf, (size_t)st.words.back().length()); }); s.texts.push_back("word " + show(t)); break; }
        case 2: s.steps.push_back([a, b](State &st, string &o) { if(st.words.empty()) return; const Word &x = st.words[a % st.words.size()], &y = st.words[b % st.words.size()]; say(o, "%d %d %s", (int)(x == y), (int)(x < y), x.join(y).asUtf8().substr(0, 200).c_str()); }); s.texts.push_back("compare and join"); break;
        case 3: { Id id = genId(g, i); U f = g.pick(w.fieldNames); s.steps.push_back([id, f, q](State &st, string &o) { Document d((DocumentID)id); d.addText(mk(f), mkList(q)); st.docs.push_back(d); say(o, "%llu %zu", (unsigned long long)st.docs.back().getID(), st.docs.back().fieldCount()); }); s.texts.push_back("document"); break; }
        case 4: { double r = (double)g.upto(3); Id id = g.upto(9); s.steps.push_back([r, id](State &st, string &o) { st.results.addResult((DocumentID)id, r); MatchResults c(st.results); st.results.addResults(c); if(st.results.size() > 100) st.results = MatchResults(); put(o, st.results); }); s.texts.push_back("add a result"); break; }
        case 5: s.steps.push_back([a](State &st, string &o) { if(st.docs.empty()) return; WordList fs; st.docs[a % st.docs.size()].getFieldNames(fs); for(size_t k = 0; k < fs.size(); k++) o += fs[k].asUtf8() + " "; o += "\n"; }); s.texts.push_back("field names"); break;
        default: { auto calls = genCostCalls(g, w.alpha); vector<uint32_t> ls(w.alpha.begin(), w.alpha.end()); s.steps.push_back([calls, ls](State &st, string &o) {
            if(!st.errors) st.errors.reset(new ErrorValues());
            apply(calls, *st.errors);
            for(uint32_t x : ls) for(uint32_t y : {(uint32_t)'a', (uint32_t)'e', (uint32_t)0xe9, ls[0]}) say(o, "%d", st.errors->getSubstituteError(Letter((Letter_)x), Letter((Letter_)y)));
        }); s.texts.push_back("error values"); }
        }
    }
    return s;
}
static Script cScript(Gen &g, const World &w) {
    Script s;
    s.kind = "C handles";
    s.steps.push_back([](State &st, string &) { st.cm = col_matcher_new(); });
    s.texts.push_back("new C matcher");
    size_t n = 2 + g.upto(12);
    for(size_t i = 0; i < n; i++) {
        vector<U> q = genQuery(g, w, 3);
        string t = joinText(g, q, true), f = lettersToUtf8(g.pick(w.fieldNames));
        if(g.chance(1, 10)) t += "\xff";
        Id id = genId(g, i);
        double v = g.oneOf<double>({0.5, 2.0, 0.0});
        switch(g.weighted({50, 40, 10})) {
        case 0: s.steps.push_back([t, f, id](State &st, string &) {
            ColCorpus c = col_corpus_new();
            ColDocument d = col_document_new((DocumentID)id);
            ColWord w = col_word_new(f.c_str());
            col_document_add_text(d, w, t.c_str());
            col_corpus_add_document(c, d);
            col_matcher_index(st.cm, c);
            col_word_delete(w);
            col_document_delete(d);
            col_corpus_delete(c);
        }); s.texts.push_back("C: index " + show(t)); break;
        case 1: s.steps.push_back([t](State &st, string &o) {
            ColMatchResults r = col_matcher_match(st.cm, t.c_str());
            vector<pair<Id, double>> v;
            if(r) { for(size_t i = 0; i < col_match_results_size(r); i++) v.push_back({col_match_results_get_id(r, i), col_match_results_get_relevancy(r, i)}); col_match_results_delete(r); }
            else o += "null\n";
            std::sort(v.begin(), v.end());
            for(auto &x : v) say(o, " %llu:%.9g", (unsigned long long)x.first, x.second);
        }); s.texts.push_back("C: match " + show(t)); break;
        default: s.steps.push_back([f, v](State &st, string &o) {
            ColWord w = col_word_new(f.c_str());
            ColIndexWeights iw = col_matcher_get_index_weights(st.cm);
            col_index_weights_set_weight(iw, w, v);
            say(o, "weight %g", col_index_weights_get_weight(iw, w));
            col_word_delete(w);
        }); s.texts.push_back("C: weight");
        }
    }
    return s;
}

static double clock_() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
// Runs f in a process of its own and returns what it produced.
static string inChild(const char *what, const std::function<void(string &)> &f) {
    int fd[2];
    REQUIRE(pipe(fd) == 0, "pipe failed");
    fflush(nullptr);
    pid_t p = fork();
    if(p == 0) {
        close(fd[0]);
        string o;
        f(o);
        o += "DONE";
        size_t pos = 0;
        while(pos < o.size()) {
            ssize_t n = write(fd[1], o.data() + pos, o.size() - pos);
            if(n <= 0) _exit(3);
            pos += (size_t)n;
        }
        _exit(0);
    }
    close(fd[1]);
    string r;
    double t0 = clock_();
    bool late = false;
    for(;;) {
        struct pollfd pf = {fd[0], POLLIN, 0};
        int k = poll(&pf, 1, 1000);
        if(k > 0) {
            char b[65536];
            ssize_t n = read(fd[0], b, sizeof b);
            if(n <= 0) break;
            r.append(b, (size_t)n);
        } else if(clock_() - t0 > 120) { late = true; kill(p, SIGKILL); break; }
    }
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    REQUIRE(!late, "%s: no answer within 120 s", what);
    REQUIRE(!(WIFEXITED(st) && WEXITSTATUS(st) == 96), "%s: sanitizer report (see the standard error output)", what);
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "%s: the process ended with %s %d", what, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    REQUIRE(r.size() >= 4 && r.substr(r.size() - 4) == "DONE", "%s: incomplete answer", what);
    r.resize(r.size() - 4);
    return r;
}
static const char SEP = '\x01'; // between the transcripts of a child
static vector<string> cut(const string &s) {
    vector<string> r(1);
    for(char c : s) { if(c == SEP) r.emplace_back(); else r.back() += c; }
    return r;
}
static void same(const string &want, const string &got, const Script &s, const char *how, size_t i) {
    if(want == got) return;
    size_t k = 0;
    while(k < want.size() && k < got.size() && want[k] == got[k]) k++;
    size_t from = k > 60 ? k - 60 : 0;
    throw Fail(fmt("%s, script %zu (%s) gives ...%s... but alone ...%s...", how, i, s.kind.c_str(), show(got.substr(from, 120)).c_str(), show(want.substr(from, 120)).c_str()));
}

void run_case(Gen &g, Ctx &ctx) {
    size_t n = 2 + g.upto(2);
    Shape sh;
    sh.maxDocs = 8;
    sh.maxVocab = 14;
    World shared = genWorld(g, sh, true, false);
    vector<Script> scripts;
    int fixedKind = g.flip() ? (int)g.upto(4) : -1;
    map<string, int> kinds;
    for(size_t i = 0; i < n; i++) {
        // Often the same vocabulary: equal words in different objects.
        World w = g.chance(2, 3) ? shared : genWorld(g, sh, true, false);
        switch(fixedKind >= 0 ? fixedKind : (int)g.upto(4)) {
        case 0: scripts.push_back(matcherScript(g, w)); break;
        case 1: scripts.push_back(storeScript(g, w)); break;
        case 2: scripts.push_back(indexScript(g, w)); break;
        case 3: scripts.push_back(valueScript(g, w)); break;
        default: scripts.push_back(cScript(g, w)); break;
        }
        kinds[scripts.back().kind]++;
        ctx.label(scripts.back().kind);
        ctx.logf("script %zu: %s", i, scripts.back().kind.c_str());
        for(size_t k = 0; k < scripts.back().steps.size() && k < 40; k++) ctx.log("  " + scripts.back().texts[k]);
    }
    // The schedule.
    vector<size_t> order;
    {
        vector<size_t> at(n, 0);
        size_t left = 0;
        for(auto &s : scripts) left += s.steps.size();
        size_t cur = 0;
        while(left) {
            if(g.flip()) cur = g.upto(n - 1);
            while(at[cur] >= scripts[cur].steps.size()) cur = (cur + 1) % n;
            order.push_back(cur);
            at[cur]++;
            left--;
        }
    }
    size_t rounds = 1 + g.upto(2);
    setenv("COLUMBUS_DATADIR", "/repo/share", 1);
    if(getenv("VERIF_REPO")) setenv("COLUMBUS_DATADIR", (string(getenv("VERIF_REPO")) + "/share").c_str(), 1);

    vector<string> alone;
    for(auto &s : scripts)
        alone.push_back(inChild("alone", [&](string &o) { State st; for(auto &x : s.steps) run(x, st, o); }));
    // All in one process: interleaved, then concurrent; and the other way round.
    bool threadsFirst = g.flip();
    string all = inChild("together", [&](string &o) {
        string parts[2];
        for(int pass = 0; pass < 2; pass++) {
            bool threads = (pass == 0) == threadsFirst;
            string &part = parts[threads ? 1 : 0];
            if(!threads) {
                vector<State> st(n);
                vector<string> t(n);
                vector<size_t> at(n, 0);
                for(size_t k : order) run(scripts[k].steps[at[k]++], st[k], t[k]);
                for(size_t i = 0; i < n; i++) { part += t[i]; part += SEP; }
            } else {
                vector<vector<string>> t(rounds, vector<string>(n));
                std::atomic<size_t> ready(0);
                vector<std::thread> th;
                for(size_t i = 0; i < n; i++)
                    th.emplace_back([&, i] {
                        ready++;
                        while(ready < n) std::this_thread::yield();
                        for(size_t r = 0; r < rounds; r++) {
                            State st;
                            for(auto &x : scripts[i].steps) run(x, st, t[r][i]);
                        }
                    });
                for(auto &x : th) x.join();
                for(size_t r = 0; r < rounds; r++) for(size_t i = 0; i < n; i++) { part += t[r][i]; part += SEP; }
            }
        }
        o = parts[0] + parts[1];
    });
    vector<string> t = cut(all);
    REQUIRE(t.size() == n + rounds * n + 1, "the process returned %zu transcripts", t.size());
    bool produced = false;
    for(size_t i = 0; i < n; i++) same(alone[i], t[i], scripts[i], threadsFirst ? "interleaved, after concurrent use," : "interleaved", i);
    for(size_t r = 0; r < rounds; r++)
        for(size_t i = 0; i < n; i++) same(alone[i], t[n + r * n + i], scripts[i], "on concurrent threads", i);
    for(auto &a : alone) if(a.size() > 20) produced = true;
    for(auto &k : kinds) if(k.second > 1 && produced) ctx.nontrivial();
}
} // namespace pbt
