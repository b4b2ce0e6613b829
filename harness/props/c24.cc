// C24: running out of memory.
#include "world.hh"
#include "resources.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "Trie.hh"
#include "ColumbusHelpers.hh"
#include "columbus.h"
#include <iconv.h>
#include <errno.h>
#include <cstring>
#include <cstdlib>
#include <memory>
#include <new>

// ---------------------------------------------------------------- injection
namespace oom {
static thread_local bool in = false; // inside a library call made by an attempt
static size_t countdown = 0;         // the how-manieth request from now on fails; 0: none
static bool sticky = false, firing = false;
static size_t fired = 0, requests = 0;
static size_t live = 0;              // blocks requested by attempts and not given back
static size_t converters = 0;
static bool hit() {
    if(!in) return false;
    requests++;
    if(firing) { fired++; return true; }
    if(countdown && --countdown == 0) { fired++; firing = sticky; return true; }
    return false;
}
struct Header { uint64_t tag; uint64_t pad; };
static const uint64_t MINE = 0x6c6962636f6c7562ull, OTHER = 0x6f74686572626c6bull;
static void *get(size_t n) {
    if(hit()) return nullptr;
    Header *h = (Header *)malloc(n + sizeof(Header));
    if(!h) return nullptr;
    h->tag = in ? MINE : OTHER;
    if(in) live++;
    return h + 1;
}
static void put(void *p) {
    if(!p) return;
    Header *h = (Header *)p - 1;
    if(h->tag == MINE) live--;
    else if(h->tag != OTHER) abort();
    h->tag = 0;
    free(h);
}
}
void *operator new(size_t n) { void *p = oom::get(n); if(!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = oom::get(n); if(!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return oom::get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return oom::get(n); }
void operator delete(void *p) noexcept { oom::put(p); }
void operator delete[](void *p) noexcept { oom::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { oom::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { oom::put(p); }
void operator delete(void *p, size_t) noexcept { oom::put(p); }
void operator delete[](void *p, size_t) noexcept { oom::put(p); }
extern "C" {
char *__real_strdup(const char *s); char *__wrap_strdup(const char *s) { if(oom::hit()) { errno = ENOMEM; return nullptr; } return __real_strdup(s); }
char *__wrap___strdup(const char *s) { if(oom::hit()) { errno = ENOMEM; return nullptr; } return __real_strdup(s); }
iconv_t __real_iconv_open(const char *a, const char *b); iconv_t __wrap_iconv_open(const char *a, const char *b) {
    if(oom::hit()) { errno = ENOMEM; return (iconv_t)-1; }
    iconv_t c = __real_iconv_open(a, b);
    if(c != (iconv_t)-1) oom::converters++;
    return c;
}
int __real_iconv_close(iconv_t c); int __wrap_iconv_close(iconv_t c) { oom::converters--; return __real_iconv_close(c); }
}

namespace pbt {
const char *PROP_ID = "C24";
const char *PROP_RULE = "a few operations on objects of one family (words, lists and documents, results, settings, stores and indexes, matchers, C handles); in each the k-th request for memory fails (operator new, string "
                        "duplication, converter; once or from then on) for growing k until the operation succeeds, with everything verified after every failure; non-trivial when an operation failed at two or more different points";
using namespace world;
using namespace Columbus;
void process_setup() {
    const char *repo = getenv("VERIF_REPO");
    setenv("COLUMBUS_DATADIR", (string(repo ? repo : "/repo") + "/share").c_str(), 1);
}

struct Run {
    Gen &g;
    Ctx &ctx;
    size_t points = 0, failed = 0;
    Run(Gen &g_, Ctx &c_) : g(g_), ctx(c_) {}
    // `op` may only hold library calls and must be repeatable as long as it fails.
    // Returns how often it failed.
    template<typename F, typename C> size_t attempt(const string &what, F op, C afterFailure, bool once = false) {
        ctx.log(what);
        int mode = (int)g.weighted({10, 60, 30});
        size_t k = 1, failures = 0;
        size_t step = 1 + g.small(12), cap = 30;
        if(mode == 2) k += g.upto(60);
        bool sticky = g.chance(1, 3);
        for(size_t n = 0;; n++) {
            oom::requests = oom::fired = 0;
            oom::sticky = sticky;
            oom::firing = false;
            oom::countdown = mode == 0 || n >= cap ? 0 : k;
            bool threw = false;
            oom::in = true;
            try {
                op();
                oom::in = false;
            } catch(const std::exception &e) {
                oom::in = false;
                threw = true;
            } catch(...) {
                oom::in = false;
                REQUIRE(false, "%s: something that is no standard exception is thrown", what.c_str());
            }
            oom::countdown = 0;
            oom::firing = false;
            REQUIRE(!threw || oom::fired, "%s: throws although memory was there (attempt %zu)", what.c_str(), n + 1);
            if(!threw) {
                if(oom::fired) ctx.label("a failed request was survived");
                break;
            }
            failures++;
            failed++;
            ctx.log(fmt("  failed at request %zu%s", k, sticky ? " and later ones" : ""));
            afterFailure(what + fmt(" (failed at request %zu)", k));
            if(once) break;
            k += n < 8 ? 1 : step;
        }
        if(failures >= 2) points++;
        return failures;
    }
};

// An operation that is refused also when there is memory.
template<typename F> static auto refused(F op) {
    return [op] {
        try {
            op();
        } catch(const std::bad_alloc &) {
            throw;
        } catch(const std::exception &) {
            if(oom::fired) throw; // which of the two is the reason does not matter
            return;
        }
        throw 1;
    };
}
// C functions let nothing through.
template<typename F> static void cc(F op) {
    try {
        op();
    } catch(...) {
        throw 1;
    }
}

static U genW(Gen &g, const Alpha &a) {
    U w = genWord(g, a, g.chance(1, 8) ? 0 : 1, g.chance(1, 8) ? 60 : 9);
    return wellFormed(w) ? w : U(1, U'a');
}
static void isWord(const Word &w, const U &want, const string &what) {
    U have = letters(w);
    REQUIRE(have == want, "%s: a word is %s, expected %s", what.c_str(), show(have).c_str(), show(want).c_str());
}
static void isList(const WordList &l, const vector<U> &want, const string &what) {
    vector<U> have = listLetters(l);
    REQUIRE(have == want, "%s: a list is %s, expected %s", what.c_str(), showList(have).c_str(), showList(want).c_str());
}

// ------------------------------------------------------------------ words
static void words(Run &r) {
    Gen &g = r.g;
    Alpha a = genAlpha(g, true);
    vector<std::unique_ptr<Word>> w;
    vector<U> m;
    for(int i = 0; i < 3; i++) { m.push_back(genW(g, a)); w.emplace_back(new Word(mk(m[i]))); }
    auto others = [&](size_t target) {
        return [&, target](const string &what) {
            for(size_t i = 0; i < 3; i++) {
                if(i != target) { isWord(*w[i], m[i], what); continue; }
                // The one that was to be changed is whatever it is, but a word.
                Word copy(*w[i]);
                U have = letters(copy);
                REQUIRE(have.size() == w[i]->length() && copy == *w[i], "%s: what is left of the word is no proper value", what.c_str());
                (void)w[i]->asUtf8();
            }
        };
    };
    size_t ops = 1 + g.upto(6);
    for(size_t n = 0; n < ops; n++) {
        size_t i = g.upto(2), j = g.upto(2);
        U u = genW(g, a);
        string text = lettersToUtf8(u);
        switch(g.upto(12)) {
        case 10: { string bad = text + g.oneOf<string>({"\xff", "\xc3", " ", "\n", "\xed\xa0\x80"}) + text; std::unique_ptr<Word> x; bool str = g.flip();
            r.attempt("word from wrong text " + show(bad), refused([&] { if(str) x.reset(new Word(bad)); else x.reset(new Word(bad.c_str())); }), others(9)); break; }
        case 11: { string bad = text + g.oneOf<string>({"\xff", "\xc3", " ", "\t"}); r.attempt(fmt("word %zu = wrong text ", i) + show(bad), refused([&] { *w[i] = bad; }), others(i)); m[i] = letters(*w[i]); break; }
        case 12: { vector<Letter> l; for(char32_t c : u) l.push_back(Letter((Letter_)c)); l.push_back(Letter(g.flip() ? ' ' : 0)); l.push_back(Letter('a'));
            std::unique_ptr<Word> x; r.attempt("word from wrong letters " + show(u), refused([&] { x.reset(new Word(l.data(), l.size())); }), others(9)); break; }
        case 0: r.attempt(fmt("word %zu = word %zu", i, j), [&] { *w[i] = *w[j]; }, others(i)); m[i] = m[j]; break;
        case 1: r.attempt(fmt("word %zu = text ", i) + show(u), [&] { *w[i] = text.c_str(); }, others(i)); m[i] = u; break;
        case 2: r.attempt(fmt("word %zu = string ", i) + show(u), [&] { *w[i] = text; }, others(i)); m[i] = u; break;
        case 3: { std::unique_ptr<Word> x; r.attempt(fmt("copy of word %zu", j), [&] { x.reset(new Word(*w[j])); }, others(9)); isWord(*x, m[j], "copy"); break; }
        case 4: { std::unique_ptr<Word> x; r.attempt("word from text " + show(u), [&] { x.reset(new Word(text.c_str())); }, others(9)); isWord(*x, u, "word from text"); break; }
        case 5: { vector<Letter> l; for(char32_t c : u) l.push_back(Letter((Letter_)c)); l.push_back(Letter(0));
            std::unique_ptr<Word> x; r.attempt("word from letters " + show(u), [&] { x.reset(new Word(l.data(), u.size())); }, others(9)); isWord(*x, u, "word from letters"); break; }
        case 6: if(wellFormed(m[i] + m[j])) { std::unique_ptr<Word> x; r.attempt(fmt("join %zu and %zu", i, j), [&] { x.reset(new Word(w[i]->join(*w[j]))); }, others(9)); isWord(*x, m[i] + m[j], "join"); } break;
        case 7: { string s; r.attempt(fmt("text of word %zu", i), [&] { s = w[i]->asUtf8(); }, others(9)); REQUIRE(s == lettersToUtf8(m[i]), "text of a word is wrong"); break; }
        case 8: { vector<char> buf(m[i].size() * 4 + 10); r.attempt(fmt("word %zu into a buffer", i), [&] { w[i]->toUtf8(buf.data(), buf.size()); }, others(9)); REQUIRE(string(buf.data()) == lettersToUtf8(m[i]), "text of a word is wrong"); break; }
        case 9: { bool eq = false; r.attempt(fmt("compare word %zu with ", i) + show(u), [&] { eq = *w[i] == text.c_str(); }, others(9)); REQUIRE(eq == (m[i] == u), "comparison is wrong"); break; }
        }
        others(9)("after the operation");
    }
}

// ------------------------------------------------- lists, documents, corpora
static void docsEqual(const Document &d, const Doc &m, const string &what) {
    REQUIRE(d.getID() == m.id && d.fieldCount() == m.fields.size(), "%s: a document has id %llu and %zu fields, expected %llu and %zu", what.c_str(), (unsigned long long)d.getID(), d.fieldCount(), (unsigned long long)m.id, m.fields.size());
    for(auto &f : m.fields) isList(d.getText(mk(f.first)), f.second, what);
}
static void readDoc(const Document &d) {
    WordList names;
    d.getFieldNames(names);
    for(size_t i = 0; i < names.size(); i++) listLetters(d.getText(names[i]));
}
static void documents(Run &r) {
    Gen &g = r.g;
    Alpha a = genAlpha(g, true);
    vector<std::unique_ptr<WordList>> l;
    vector<vector<U>> lm(2);
    vector<std::unique_ptr<Document>> d;
    vector<Doc> dm(2);
    Corpus corpus;
    vector<Doc> cm;
    for(int i = 0; i < 2; i++) {
        size_t n = g.upto(5);
        for(size_t k = 0; k < n; k++) lm[i].push_back(genW(g, a));
        l.emplace_back(new WordList(mkList(lm[i])));
        dm[i].id = 10 + i;
        d.emplace_back(new Document(10 + i));
        size_t fields = g.upto(2);
        for(size_t k = 0; k < fields; k++) { U f = genW(g, a); dm[i].fields[f] = lm[i]; d[i]->addText(mk(f), *l[i]); }
    }
    auto check = [&](int list, int doc) {
        return [&, list, doc](const string &what) {
            for(int i = 0; i < 2; i++) {
                if(i == list) listLetters(*l[i]); else isList(*l[i], lm[i], what);
                if(i == doc) { readDoc(*d[i]); Document copy(*d[i]); readDoc(copy); } else docsEqual(*d[i], dm[i], what);
            }
            REQUIRE(corpus.size() == cm.size(), "%s: the corpus has %zu documents, expected %zu", what.c_str(), corpus.size(), cm.size());
            for(size_t i = 0; i < cm.size(); i++) docsEqual(corpus.getDocument(i), cm[i], what);
        };
    };
    // A text that could not be set: the other fields are as before, a field that was there still is.
    auto checkField = [&](int doc, const U &field) {
        return [&, doc, field](const string &what) {
            check(-1, doc)(what);
            for(auto &f : dm[doc].fields) {
                if(f.first == field) listLetters(d[doc]->getText(mk(f.first)));
                else isList(d[doc]->getText(mk(f.first)), f.second, what);
            }
            REQUIRE(d[doc]->getID() == dm[doc].id && d[doc]->fieldCount() - dm[doc].fields.size() <= (dm[doc].fields.count(field) ? 0 : 1), "%s: the document has %zu fields, had %zu", what.c_str(), d[doc]->fieldCount(), dm[doc].fields.size());
        };
    };
    size_t ops = 1 + g.upto(7);
    for(size_t n = 0; n < ops; n++) {
        size_t i = g.upto(1), j = g.upto(1);
        U u = genW(g, a);
        if(!dm[i].fields.empty() && g.chance(1, 3)) u = dm[i].fields.begin()->first;
        Word w = mk(u);
        switch(g.upto(14)) {
        case 12: { string bad = lettersToUtf8(u) + " \xff x"; std::unique_ptr<WordList> x; r.attempt("split wrong text " + show(bad), refused([&] { x.reset(new WordList(splitToWords(bad.c_str()))); }), check(-1, -1)); break; }
        case 13: { string bad = lettersToUtf8(u) + " \xc3\x28"; r.attempt(fmt("document %zu wrong text ", i) + show(bad), refused([&] { d[i]->addText(w, bad); }), check(-1, -1)); break; }
        case 14: if(!dm[i].fields.count(u)) { r.attempt(fmt("unknown field of document %zu ", i) + show(u), refused([&] { d[i]->getText(w); }), check(-1, -1)); r.attempt("out of range", refused([&] { (*l[i])[lm[i].size()]; }), check(-1, -1)); } break;
        case 0: r.attempt(fmt("add to list %zu ", i) + show(u), [&] { l[i]->addWord(w); }, check(-1, -1)); lm[i].push_back(u); break;
        case 1: r.attempt(fmt("list %zu = list %zu", i, j), [&] { *l[i] = *l[j]; }, check(i, -1)); lm[i] = lm[j]; break;
        case 2: { std::unique_ptr<WordList> x; r.attempt(fmt("copy of list %zu", j), [&] { x.reset(new WordList(*l[j])); }, check(-1, -1)); isList(*x, lm[j], "copy"); l[i] = std::move(x); lm[i] = lm[j]; break; }
        case 3: { vector<U> ws; size_t k = g.upto(6); for(size_t q = 0; q < k; q++) { U x = genW(g, a); if(!x.empty()) ws.push_back(x); }
            string text = joinText(g, ws, false); std::unique_ptr<WordList> x; r.attempt("split " + show(text), [&] { x.reset(new WordList(splitToWords(text.c_str()))); }, check(-1, -1)); isList(*x, ws, "split"); break; }
        case 4: r.attempt(fmt("document %zu field ", i) + show(u) + fmt(" = list %zu", j), [&] { d[i]->addText(w, *l[j]); }, checkField(i, u)); dm[i].fields[u] = lm[j]; break;
        case 5: { vector<U> ws; size_t k = g.upto(4); for(size_t q = 0; q < k; q++) { U x = genW(g, a); if(!x.empty()) ws.push_back(x); }
            string text = joinText(g, ws, false); bool str = g.flip();
            r.attempt(fmt("document %zu field ", i) + show(u) + " = text " + show(text), [&] { if(str) d[i]->addText(w, text); else d[i]->addText(w, text.c_str()); }, checkField(i, u)); dm[i].fields[u] = ws; break; }
        case 6: r.attempt(fmt("document %zu = document %zu", i, j), [&] { *d[i] = *d[j]; }, check(-1, i)); dm[i] = dm[j]; break;
        case 7: { std::unique_ptr<Document> x; r.attempt(fmt("copy of document %zu", j), [&] { x.reset(new Document(*d[j])); }, check(-1, -1)); docsEqual(*x, dm[j], "copy"); d[i] = std::move(x); dm[i] = dm[j]; break; }
        case 8: r.attempt(fmt("add document %zu to the corpus", i), [&] { corpus.addDocument(*d[i]); }, check(-1, -1)); cm.push_back(dm[i]); break;
        case 9: { std::unique_ptr<WordList> x; size_t f = r.attempt(fmt("field names of document %zu", i), [&] { WordList names; d[i]->getFieldNames(names); x.reset(new WordList(names)); }, check(-1, -1)); (void)f;
            REQUIRE(x->size() == dm[i].fields.size(), "%zu field names, expected %zu", x->size(), dm[i].fields.size()); break; }
        case 10: { size_t c = 0, want = 0; r.attempt(fmt("count in document %zu ", i) + show(u), [&] { c = d[i]->totalWordCount(w); }, check(-1, -1)); for(auto &f : dm[i].fields) for(auto &x : f.second) want += x == u; REQUIRE(c == want, "word counted %zu times, expected %zu", c, want); break; }
        case 11: { std::unique_ptr<Corpus> x; r.attempt("a new corpus", [&] { x.reset(new Corpus()); }, check(-1, -1)); std::unique_ptr<Document> y; r.attempt("a new document", [&] { y.reset(new Document(4)); }, check(-1, -1)); break; }
        }
        check(-1, -1)("after the operation");
    }
}

// ---------------------------------------------------------------- results
static void results(Run &r) {
    Gen &g = r.g;
    typedef vector<pair<double, Id>> M;
    vector<std::unique_ptr<MatchResults>> s;
    vector<M> m(2);
    for(int i = 0; i < 2; i++) {
        s.emplace_back(new MatchResults());
        size_t n = g.upto(20);
        for(size_t k = 0; k < n; k++) { double rel = (double)g.upto(5) / 2; Id id = g.upto(9); s[i]->addResult(id, rel); m[i].push_back({rel, id}); }
    }
    auto sorted = [](M x) { std::stable_sort(x.begin(), x.end(), [](const pair<double, Id> &p, const pair<double, Id> &q) { return p.first > q.first; }); return x; };
    auto shown = [&](const MatchResults &x) { M v; for(size_t i = 0; i < x.size(); i++) v.push_back({x.getRelevancy(i), x.getDocumentID(i)}); return v; };
    auto check = [&](int target) {
        return [&, target](const string &what) {
            for(int i = 0; i < 2; i++) {
                M v = shown(*s[i]);
                if(i != target) REQUIRE(v == sorted(m[i]), "%s: a result list shows other results than it should", what.c_str());
            }
        };
    };
    size_t ops = 1 + g.upto(7);
    for(size_t n = 0; n < ops; n++) {
        size_t i = g.upto(1), j = g.upto(1);
        bool look = g.flip();
        switch(g.upto(5)) {
        case 0: { Id id = g.upto(9); double rel = (double)g.upto(5) / 2; r.attempt(fmt("add to results %zu", i), [&] { s[i]->addResult(id, rel); }, check(-1)); m[i].push_back({rel, id}); break; }
        case 1: if(i != j) { r.attempt(fmt("add results %zu to %zu", j, i), [&] { s[i]->addResults(*s[j]); }, check(-1)); m[i].insert(m[i].end(), m[j].begin(), m[j].end()); } break;
        case 2: if(!m[j].empty()) { size_t k = g.upto(m[j].size() - 1); r.attempt(fmt("copy result %zu of %zu to %zu", k, j, i), [&] { s[i]->copyResult(*s[j], k); }, check(-1)); m[i].push_back(sorted(m[j])[k]); } break;
        case 3: r.attempt(fmt("results %zu = results %zu", i, j), [&] { *s[i] = *s[j]; }, check(i)); m[i] = m[j]; break;
        case 4: { std::unique_ptr<MatchResults> x; r.attempt(fmt("copy of results %zu", j), [&] { x.reset(new MatchResults(*s[j])); }, check(-1)); s[i] = std::move(x); m[i] = m[j]; break; }
        case 5: if(!m[i].empty()) { double top = 0; r.attempt(fmt("read results %zu", i), [&] { top = s[i]->getRelevancy(0); }, check(-1)); REQUIRE(top == sorted(m[i])[0].first, "the first result is wrong"); } break;
        }
        if(look) check(-1)("after the operation");
    }
}

// --------------------------------------------------------------- settings
static void settings(Run &r) {
    Gen &g = r.g;
    Alpha a;
    for(uint32_t c : genAlpha(g, false)) if(c <= 0xffff) a.push_back(c);
    if(a.empty()) a.push_back('a');
    std::unique_ptr<IndexWeights> weights;
    std::unique_ptr<SearchParameters> params;
    std::unique_ptr<ErrorValues> e;
    map<U, double> wm;
    set<U> ns;
    model::Filter fm;
    Costs cm;
    bool broken = false; // a preset that failed half way
    vector<U> names;
    for(int i = 0; i < 4; i++) names.push_back(genW(g, a));
    auto nothing = [](const string &) {};
    r.attempt("new weights", [&] { weights.reset(new IndexWeights()); }, nothing);
    r.attempt("new parameters", [&] { params.reset(new SearchParameters()); }, nothing);
    r.attempt("new error values", [&] { e.reset(new ErrorValues()); }, nothing);
    if(g.chance(1, 4)) { std::unique_ptr<ResultFilter> x; r.attempt("new filter", [&] { x.reset(new ResultFilter()); }, nothing); REQUIRE(x->numTerms() == 1, "a new filter has %zu terms", x->numTerms()); }
    // What is being set may have its old or its new value.
    const U *pendingName = nullptr;
    double pendingWeight = 0;
    uint32_t px = 0, py = 0;
    int pendingCost = 0;
    auto check = [&](const string &what) {
        for(auto &n : names) {
            if(pendingName && *pendingName == n && weights->getWeight(mk(n)) == pendingWeight) continue;
            auto i = wm.find(n);
            double have = weights->getWeight(mk(n)), want = i == wm.end() ? 1.0 : i->second;
            REQUIRE(have == want, "%s: weight of %s is %g, expected %g", what.c_str(), show(n).c_str(), have, want);
            REQUIRE(params->isNonsearchingField(mk(n)) == (ns.count(n) > 0), "%s: non-searching %s", what.c_str(), show(n).c_str());
        }
        ResultFilter &f = params->getResultFilter();
        REQUIRE(f.numTerms() == fm.terms.size(), "%s: filter has %zu terms, expected %zu", what.c_str(), f.numTerms(), fm.terms.size());
        for(size_t t = 0; t < fm.terms.size(); t++) {
            REQUIRE(f.numSubTerms(t) == fm.terms[t].size(), "%s: filter term has %zu subterms, expected %zu", what.c_str(), f.numSubTerms(t), fm.terms[t].size());
            for(size_t k = 0; k < fm.terms[t].size(); k++) { isWord(f.getField(t, k), fm.terms[t][k].first, what); isWord(f.getWord(t, k), fm.terms[t][k].second, what); }
        }
        for(uint32_t x : a) for(uint32_t y : a) {
            int have = e->getSubstituteError(Letter((Letter_)x), Letter((Letter_)y));
            if(px && ((x == px && y == py) || (x == py && y == px)) && have == pendingCost) continue;
            if(!broken) REQUIRE(have == cm.sub(x, y), "%s: cost of U+%04X and U+%04X is %d, expected %d", what.c_str(), x, y, have, cm.sub(x, y));
            if(!broken) REQUIRE(e->isInGroup(Letter((Letter_)x)) == (cm.group.count(x) > 0), "%s: U+%04X in a group: %d", what.c_str(), x, (int)e->isInGroup(Letter((Letter_)x)));
        }
    };
    size_t ops = 1 + g.upto(7);
    for(size_t n = 0; n < ops; n++) {
        U u = g.pick(names), v = genW(g, a);
        Word w = mk(u), x = mk(v);
        switch(g.upto(8)) {
        case 7: { size_t t = fm.terms.size() + g.upto(2); r.attempt("filter out of range", refused([&] { (void)params->getResultFilter().getWord(t, 0); }), check); r.attempt("filter out of range", refused([&] { (void)params->getResultFilter().getField(0, fm.terms[0].size()); }), check); break; }
        case 8: { uint32_t in = 0; for(uint32_t y : a) if(e->isInGroup(Letter((Letter_)y))) in = y; if(!in || broken) break; U grp(1, (char32_t)g.pick(a)); grp += (char32_t)in; Word gw = mk(grp); if(letters(gw) != grp) break;
            r.attempt("group that overlaps " + show(grp), refused([&] { e->setGroupError(gw, 7); }), check); break; }
        case 0: { double val = (double)g.upto(40) / 4; r.attempt("weight of " + show(u) + fmt(" = %g", val), [&] { weights->setWeight(w, val); }, [&](const string &what) { pendingName = &u; pendingWeight = val; check(what); pendingName = nullptr; }); wm[u] = val; break; }
        case 1: r.attempt("non-searching " + show(u), [&] { params->addNonsearchingField(w); }, check); ns.insert(u); break;
        case 2: r.attempt("subterm " + show(u) + " " + show(v), [&] { params->getResultFilter().addNewSubTerm(w, x); }, check); fm.terms.back().push_back({u, v}); break;
        case 3: r.attempt("new term", [&] { params->getResultFilter().addNewTerm(); }, check); fm.terms.emplace_back(); break;
        case 4: { uint32_t p = g.pick(a), q = g.pick(a); int cost = genCost(g); if(p == q) break; r.attempt(fmt("cost U+%04X U+%04X = %d", p, q, cost), [&] { e->setError(Letter((Letter_)p), Letter((Letter_)q), cost); }, [&](const string &what) { px = p; py = q; pendingCost = cost; check(what); px = 0; }); cm.setError(p, q, cost); break; }
        case 5: { U grp; size_t k = 1 + g.upto(4); for(size_t i = 0; i < k; i++) grp += (char32_t)g.pick(a); Word gw = mk(grp); if(letters(gw) != grp) break; int cost = genCost(g);
            Costs probe = cm; if(!probe.setGroup(grp, cost)) break;
            r.attempt("group " + show(grp) + fmt(" = %d", cost), [&] { e->setGroupError(gw, cost); }, check); cm.setGroup(grp, cost); break; }
        case 6: r.attempt("clear errors", [&] { e->clearErrors(); }, [](const string &) {}); cm.clear(); broken = false; break;
        }
        check("after the operation");
    }
    if(g.chance(1, 6)) { // presets: what a failed one leaves is cleared away
        bool std_ = g.flip();
        std::unique_ptr<ErrorValues> f, ref(new ErrorValues());
        f.reset(new ErrorValues());
        r.attempt(std_ ? "standard errors" : "Latin accents", [&] { if(std_) f->addStandardErrors(); else f->addAccents(latinAccentGroup); }, [&](const string &) { (void)f->getSubstituteError(Letter((Letter_)'a'), Letter((Letter_)0xe4)); f->clearErrors(); });
        if(std_) ref->addStandardErrors(); else ref->addAccents(latinAccentGroup);
        for(uint32_t p = 0x20; p < 0x180; p += 1 + (p > 0x7f ? 2 : 0)) for(uint32_t q = p; q < 0x180; q += 3) {
            int h = f->getSubstituteError(Letter((Letter_)p), Letter((Letter_)q)), want = ref->getSubstituteError(Letter((Letter_)p), Letter((Letter_)q));
            REQUIRE(h == want, "a preset repeated after failures gives U+%04X and U+%04X the cost %d, expected %d", p, q, h, want);
        }
        r.ctx.label("presets");
    }
}

// ------------------------------------------------------ stores and indexes
static void stores(Run &r) {
    Gen &g = r.g;
    Alpha a = genAlpha(g, true);
    auto nothing = [](const string &) {};
    std::unique_ptr<WordStore> s;
    std::unique_ptr<LevenshteinIndex> ind;
    r.attempt("new store", [&] { s.reset(new WordStore()); }, nothing);
    r.attempt("new index", [&] { ind.reset(new LevenshteinIndex()); }, nothing);
    vector<U> known;
    map<U, size_t> count;
    vector<U> pool = genDict(g, a, 25, 6);
    vector<U> ok;
    for(auto &w : pool) if(wellFormed(w)) ok.push_back(w);
    if(ok.empty()) ok.push_back(U(1, U'a'));
    auto idOf = [&](const U &w) { return (WordID)(std::find(ok.begin(), ok.end(), w) - ok.begin()); };
    auto check = [&](const string &what) {
        for(size_t i = 0; i < known.size(); i++) {
            REQUIRE(s->hasWord((WordID)i), "%s: id %zu is gone", what.c_str(), i);
            isWord(s->getWord((WordID)i), known[i], what);
            WordID id = s->getID(mk(known[i]));
            REQUIRE(id == i, "%s: word %s has id %u, expected %zu", what.c_str(), show(known[i]).c_str(), id, i);
        }
        REQUIRE(!s->hasWord((WordID)known.size()), "%s: id %zu is known", what.c_str(), known.size());
        for(auto &w : ok) {
            bool in = std::find(known.begin(), known.end(), w) != known.end();
            REQUIRE(s->hasWord(mk(w)) == in, "%s: store has %s: %d", what.c_str(), show(w).c_str(), (int)!in);
        }
    };
    auto checkIndex = [&](const string &what, const U *pending) {
        for(auto &w : ok) {
            if(w.empty() || (pending && *pending == w)) continue;
            auto c = count.find(w);
            size_t want = c == count.end() ? 0 : c->second;
            REQUIRE(ind->wordCount(idOf(w)) == want, "%s: %s counted %zu times, expected %zu", what.c_str(), show(w).c_str(), ind->wordCount(idOf(w)), want);
            REQUIRE(ind->hasWord(mk(w)) == (want > 0), "%s: index has %s: %d", what.c_str(), show(w).c_str(), (int)(want == 0));
        }
    };
    size_t ops = 1 + g.upto(20);
    for(size_t n = 0; n < ops; n++) {
        U u = g.pick(ok);
        Word w = mk(u);
        switch(g.upto(4)) {
        case 0: case 1: {
            WordID id = 0;
            r.attempt("id of " + show(u), [&] { id = s->getID(w); }, check);
            size_t at = std::find(known.begin(), known.end(), u) - known.begin();
            REQUIRE(id == at, "word %s got id %u, expected %zu", show(u).c_str(), id, at);
            if(at == known.size()) known.push_back(u);
            break; }
        case 2: if(!known.empty()) { size_t i = g.upto(known.size() - 1); std::unique_ptr<Word> x; r.attempt(fmt("word of id %zu", i), [&] { x.reset(new Word(s->getWord((WordID)i))); }, check); isWord(*x, known[i], "word of id"); } break;
        case 3: { r.attempt("insert " + show(u), [&] { ind->insertWord(w, idOf(u)); }, [&](const string &what) { checkIndex(what, &u); }); if(!u.empty()) count[u]++; break; }
        case 4: { ErrorValues e; int limit = (int)g.upto(3) * 50; U q = g.flip() ? mutate(g, a, u) : u; if(!wellFormed(q)) break; Word qw = mk(q);
            std::unique_ptr<IndexMatches> x; r.attempt("look up " + show(q), [&] { std::unique_ptr<IndexMatches> y(new IndexMatches()); ind->findWords(qw, e, limit, *y); x = std::move(y); }, [&](const string &what) { checkIndex(what, nullptr); });
            Costs c; map<WordID, int> want, have;
            for(auto &wc : count) { int dist = distance(q, wc.first, c); if(dist <= limit) want[idOf(wc.first)] = dist; }
            for(size_t i = 0; i < x->size(); i++) have[x->getMatch(i)] = x->getMatchError(i);
            REQUIRE(want == have && x->size() == want.size(), "looking up %s after failures finds %zu words, expected %zu", show(q).c_str(), x->size(), want.size());
            break; }
        }
        check("after the operation");
        checkIndex("after the operation", nullptr);
    }
    size_t mc = 0;
    for(auto &c : count) mc = std::max(mc, c.second);
    REQUIRE(ind->maxCount() == mc && ind->numWords() == count.size(), "index counts %zu words and %zu as the most, expected %zu and %zu", ind->numWords(), ind->maxCount(), count.size(), mc);
}

// ---------------------------------------------------------------- matchers
static void matchers(Run &r) {
    Gen &g = r.g;
    Shape shape;
    shape.maxDocs = 5; shape.maxVocab = 8; shape.maxText = 4; shape.crowd = 0;
    World w = genWorld(g, shape);
    std::unique_ptr<Matcher> m;
    r.attempt("new matcher", [&] { m.reset(new Matcher()); }, [](const string &) {});
    Engine eng;
    vector<Doc> first(w.docs.begin(), w.docs.begin() + g.upto(w.docs.size())), rest(w.docs.begin() + first.size(), w.docs.end());
    indexAll(*m, first);
    eng.index(first);
    logDocs(r.ctx, w.docs);
    set<Id> ids;
    for(auto &d : w.docs) ids.insert(d.id);
    size_t ops = 1 + g.upto(3);
    for(size_t n = 0; n < ops; n++) {
        vector<U> q = genQuery(g, w, 3);
        WordList ql = mkList(q);
        SearchParameters sp;
        Params p = genParams(g, w, sp, r.ctx, false, true, true);
        map<Id, double> want = eng.match(q, p);
        std::unique_ptr<MatchResults> got;
        auto again = [&](const string &what) { compare(want, toMap(m->match(ql, sp), what.c_str()), what.c_str()); };
        bool everyTime = g.chance(1, 4);
        r.attempt("search " + showList(q), [&] { got.reset(new MatchResults(m->match(ql, sp))); }, [&](const string &what) { if(everyTime) again(what); });
        compare(want, toMap(*got, "search"), "search");
        again("search again");
        if(g.chance(1, 6)) {
            Word field = mk(w.vocab[0] + U(U"zzzzqqqq"));
            r.attempt("online search in an unknown field", refused([&] { m->onlineMatch(ql, field); }), [](const string &) {});
            r.attempt("search for wrong text", refused([&] { m->match("a \xff b"); }), [](const string &) {});
        }
        if(!eng.fields.empty() && g.chance(1, 3)) {
            auto f = eng.fields.begin();
            std::advance(f, g.upto(eng.fields.size() - 1));
            Word field = mk(f->first);
            map<Id, double> online = toMap(m->onlineMatch(ql, field), "online search");
            std::unique_ptr<MatchResults> o;
            r.attempt("online search " + showList(q), [&] { o.reset(new MatchResults(m->onlineMatch(ql, field))); }, [](const string &) {});
            compare(online, toMap(*o, "online search"), "online search after failures");
        }
    }
    if(!rest.empty() && g.chance(2, 3)) { // indexing that fails: what was there stays, nothing unknown appears
        Corpus c;
        for(auto &d : rest) c.addDocument(mkDoc(d));
        size_t failures = r.attempt("index the rest", [&] { m->index(c); }, [](const string &) {}, true);
        if(failures) {
            for(auto &d : first) for(auto &f : d.fields) for(auto &x : f.second) {
                if(x.empty()) continue;
                WordList one;
                one.addWord(mk(x));
                map<Id, double> have = toMap(m->match(one), "search after an indexing that failed");
                REQUIRE(have.count(d.id), "document %llu is not found by its word %s after another document's indexing failed", (unsigned long long)d.id, show(x).c_str());
                for(auto &h : have) REQUIRE(ids.count(h.first), "document %llu is found but was never indexed", (unsigned long long)h.first);
            }
            for(auto &d : rest) for(auto &f : d.fields) for(auto &x : f.second) {
                WordList one;
                one.addWord(mk(x));
                (void)toMap(m->match(one), "search after an indexing that failed");
                try { (void)m->onlineMatch(one, mk(f.first)).size(); } catch(const std::invalid_argument &) {} // the field may not have been reached
            }
            r.ctx.label("indexing failed");
        } else {
            eng.index(rest);
            vector<U> q = genQuery(g, w, 3);
            Params p;
            compare(eng.match(q, p), toMap(m->match(mkList(q)), "search"), "search after indexing");
        }
    }
}

// --------------------------------------------------------------- C handles
struct Refused : std::exception {};
static void handles(Run &r) {
    Gen &g = r.g;
    Alpha a = genAlpha(g, false);
    vector<U> ws;
    size_t nw = 1 + g.upto(4);
    for(size_t i = 0; i < nw; i++) { U w = genW(g, a); if(w.empty()) w = U(1, U'a'); ws.push_back(w); }
    string text = joinText(g, ws, false), fieldText = lettersToUtf8(ws[0]);
    auto nothing = [](const string &) {};
    ColWord f = nullptr; ColDocument d = nullptr; ColCorpus c = nullptr; ColMatcher m = nullptr; ColMatchResults res = nullptr, own = nullptr;
    // The failure value is what the caller sees; here it becomes the failure of the attempt.
    r.attempt("col_word_new", [&] { cc([&] { f = col_word_new(fieldText.c_str()); }); if(!f) throw Refused(); }, nothing);
    REQUIRE(col_word_length(f) == ws[0].size(), "col_word_length is %zu, expected %zu", col_word_length(f), ws[0].size());
    r.attempt("col_document_new", [&] { cc([&] { d = col_document_new(77); }); if(!d) throw Refused(); }, nothing);
    r.attempt("col_corpus_new", [&] { cc([&] { c = col_corpus_new(); }); if(!c) throw Refused(); }, nothing);
    r.attempt("col_matcher_new", [&] { cc([&] { m = col_matcher_new(); }); if(!m) throw Refused(); }, nothing);
    r.attempt("col_match_results_new", [&] { cc([&] { own = col_match_results_new(); }); if(!own) throw Refused(); }, nothing);
    col_match_results_delete(own);
    // No failure value: what was requested in vain tells.
    r.attempt("col_document_add_text", [&] { cc([&] { col_document_add_text(d, f, text.c_str()); }); if(oom::fired) throw Refused(); }, nothing);
    r.attempt("col_corpus_add_document", [&] { cc([&] { col_corpus_add_document(c, d); }); if(oom::fired) throw Refused(); }, nothing);
    ColErrorValues ev = col_matcher_get_error_values(m);
    if(g.chance(1, 5)) {
        r.attempt("col_error_values_add_standard_errors", [&] { cc([&] { col_error_values_add_standard_errors(ev); }); if(oom::fired) throw Refused(); }, [&](const string &) { reinterpret_cast<ErrorValues *>(ev)->clearErrors(); });
    }
    ColIndexWeights iw = col_matcher_get_index_weights(m);
    double val = (double)(1 + g.upto(20)) / 4;
    r.attempt("col_index_weights_set_weight", [&] { cc([&] { col_index_weights_set_weight(iw, f, val); }); if(oom::fired) throw Refused(); }, nothing);
    REQUIRE(col_index_weights_get_weight(iw, f) == val, "weight is %g, expected %g", col_index_weights_get_weight(iw, f), val);
    col_matcher_index(m, c);
    r.attempt("col_matcher_match", [&] { cc([&] { res = col_matcher_match(m, text.c_str()); }); if(!res) throw Refused(); }, nothing);
    REQUIRE(col_match_results_size(res) == 1 && col_match_results_get_id(res, 0) == 77, "the document is not found");
    vector<char> buf(ws[0].size() * 4 + 4, 'x');
    r.attempt("col_word_as_utf8", [&] { cc([&] { col_word_as_utf8(f, buf.data(), buf.size()); }); if(oom::fired) throw Refused(); }, nothing);
    REQUIRE(string(buf.data()) == fieldText, "text of a word is wrong");
    col_match_results_delete(res);
    col_matcher_delete(m);
    col_corpus_delete(c);
    col_document_delete(d);
    col_word_delete(f);
}

void run_case(Gen &g, Ctx &ctx) {
    Run r(g, ctx);
    size_t live = oom::live, conv = oom::converters;
    res::Level before = res::Level::now();
    size_t kind = g.weighted({20, 20, 12, 14, 14, 14, 6});
    static const char *names[] = {"words", "lists and documents", "results", "settings", "stores and indexes", "matchers", "C handles"};
    ctx.label(names[kind]);
    ctx.log(names[kind]);
    switch(kind) {
    case 0: words(r); break;
    case 1: documents(r); break;
    case 2: results(r); break;
    case 3: settings(r); break;
    case 4: stores(r); break;
    case 5: matchers(r); break;
    case 6: handles(r); break;
    }
    REQUIRE(oom::live == live, "%zu blocks are not given back at the end", oom::live - live);
    REQUIRE(oom::converters == conv, "%zu character converters are not closed at the end", oom::converters - conv);
    res::Level after = res::Level::now();
    REQUIRE(after.fds == before.fds && after.maps == before.maps, "%zu descriptors and %zu mappings are left, there were %zu and %zu", after.fds, after.maps, before.fds, before.maps);
    if(r.points) ctx.nontrivial();
}
} // namespace pbt
