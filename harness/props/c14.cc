// C14: the C interface in lockstep with the C++ one.
#include "world.hh"
#include "columbus.h"
#include <memory>
#include <unistd.h>
namespace pbt {
const char *PROP_ID = "C14";
const char *PROP_RULE = "the same history of 5-40 operations (words, documents, corpora, indexing, weights, error presets, searches, malformed text, tiny buffers, bad indices) through the C and the C++ interface, every "
                        "answer compared; non-trivial when a search returns at least two results and some operation was refused";
void process_setup() {}
using namespace world;
using namespace Columbus;

static string genText(Gen &g, const World &w, bool &odd) {
    switch(g.weighted({60, 12, 8, 8, 6})) {
    case 0: { vector<U> t; size_t n = g.upto(5); for(size_t i = 0; i < n; i++) t.push_back(g.pick(w.vocab)); return joinText(g, t, true); }
    case 1: odd = true; return lettersToUtf8(g.pick(w.vocab)) + g.oneOf<const char *>({"\xff", " \xc3", "\xed\xa0\x80", "\xc0\x80", "\xf5\x80\x80\x80"}) + (g.flip() ? " tail" : "");
    case 2: return "";
    case 3: return genSpace(g, false);
    default: { string s; size_t n = 1 + g.upto(12); for(size_t i = 0; i < n; i++) s += (char)(1 + g.upto(254)); odd = true; return s; }
    }
}

struct CWord { ColWord c = nullptr; std::unique_ptr<Word> cc; U m; };
struct CDoc { ColDocument c = nullptr; std::unique_ptr<Document> cc; };

static map<Id, double> cMap(ColMatchResults r, const char *what) {
    map<Id, double> m;
    size_t n = col_match_results_size(r);
    double last = 0;
    for(size_t i = 0; i < n; i++) {
        double rel = col_match_results_get_relevancy(r, i);
        DocumentID id = col_match_results_get_id(r, i);
        REQUIRE(i == 0 || rel <= last, "%s: relevancy %.17g at %zu after %.17g", what, rel, i, last);
        last = rel;
        REQUIRE(m.insert({id, rel}).second, "%s: document %llu occurs twice", what, (unsigned long long)id);
    }
    for(size_t i : {n, n + 1, (size_t)1 << 32, (size_t)5 << 32 | (n ? n - 1 : 0), (size_t)-1}) {
        REQUIRE(col_match_results_get_id(r, i) == INVALID_DOCID, "%s: id of result %zu of %zu is %llu", what, i, n, (unsigned long long)col_match_results_get_id(r, i));
        REQUIRE(col_match_results_get_relevancy(r, i) == -1.0, "%s: relevancy of result %zu of %zu is %g", what, i, n, col_match_results_get_relevancy(r, i));
    }
    return m;
}

void run_case(Gen &g, Ctx &ctx) {
    Shape s = genShape(g, false);
    if(s.maxDocs > 40) s.maxDocs = 40;
    if(s.maxVocab > 80) s.maxVocab = 80;
    World w = genWorld(g, s, true);
    struct State {
        ColMatcher m = col_matcher_new();
        vector<CWord> words;
        vector<CDoc> docs;
        ColCorpus corpus = col_corpus_new();
        vector<ColMatchResults> kept;
        ~State() {
            for(auto r : kept) col_match_results_delete(r);
            for(auto &x : words) col_word_delete(x.c);
            for(auto &x : docs) col_document_delete(x.c);
            col_corpus_delete(corpus);
            col_matcher_delete(m);
        }
    } c;
    Matcher m;
    std::unique_ptr<Corpus> corpus(new Corpus());
    REQUIRE(c.m && c.corpus, "constructors returned null");
    ColErrorValues ev = col_matcher_get_error_values(c.m);
    ColIndexWeights iw = col_matcher_get_index_weights(c.m);
    REQUIRE(ev && iw, "no error values or weights");
    bool refused = false, hits = false;
    // Field names are words of their own; start with them.
    auto addWord = [&](const string &t) {
        CWord x;
        bool threw = false;
        try { x.cc.reset(new Word(t.c_str())); } catch(const std::exception &) { threw = true; }
        std::unique_ptr<char[]> exact(new char[t.size() + 1]);
        memcpy(exact.get(), t.c_str(), t.size() + 1);
        x.c = col_word_new(exact.get());
        REQUIRE((x.c == nullptr) == threw, "col_word_new(%s) is %s although the C++ word was %s", show(t).c_str(), x.c ? "a word" : "null", threw ? "refused" : "made");
        if(threw) { refused = true; return; }
        x.m = letters(*x.cc);
        REQUIRE(col_word_length(x.c) == x.m.size(), "col_word_length of %s is %zu, expected %zu", show(t).c_str(), col_word_length(x.c), x.m.size());
        string u = lettersToUtf8(x.m);
        vector<size_t> sizes = {u.size() + 1, u.size() + 2 + g.upto(30), u.size(), g.upto(u.size() + 1), 0};
        for(size_t sz : sizes) {
            std::unique_ptr<char[]> a(new char[sz ? sz : 1]), b(new char[sz ? sz : 1]);
            memset(a.get(), '~', sz ? sz : 1);
            memset(b.get(), '~', sz ? sz : 1);
            bool t2 = false;
            try { x.cc->toUtf8(b.get(), (unsigned int)sz); } catch(const std::exception &) { t2 = true; }
            col_word_as_utf8(x.c, a.get(), (unsigned int)sz);
            if(!t2) REQUIRE(memcmp(a.get(), b.get(), sz) == 0 && string(a.get()) == u, "col_word_as_utf8 of %s into %zu bytes gives %s", show(t).c_str(), sz, show(string(a.get(), strnlen(a.get(), sz))).c_str());
        }
        c.words.push_back(std::move(x));
    };
    for(auto &f : w.fieldNames) addWord(lettersToUtf8(f));
    auto addDoc = [&](uint64_t id) {
        CDoc d;
        d.c = col_document_new((DocumentID)id);
        d.cc.reset(new Document((DocumentID)id));
        REQUIRE(d.c != nullptr, "col_document_new returned null");
        c.docs.push_back(std::move(d));
    };
    auto checkIds = [&] {
        for(auto &d : c.docs)
            REQUIRE(col_document_get_id(d.c) == d.cc->getID(), "col_document_get_id gives %llu, expected %llu", (unsigned long long)col_document_get_id(d.c), (unsigned long long)d.cc->getID());
    };
    auto checkWeights = [&] {
        for(auto &x : c.words) {
            double a = col_index_weights_get_weight(iw, x.c), b = m.getIndexWeights().getWeight(*x.cc);
            REQUIRE(a == b, "weight of %s is %.17g through C, %.17g through C++", show(x.m).c_str(), a, b);
        }
    };
    auto search = [&](const string &q) {
        bool threw = false;
        map<Id, double> want;
        try { want = toMap(m.match(q.c_str()), "C++ match"); } catch(const std::exception &) { threw = true; refused = true; }
        ColMatchResults r = col_matcher_match(c.m, q.c_str());
        REQUIRE((r == nullptr) == threw, "col_matcher_match(%s) is %s although the C++ search %s", show(q).c_str(), r ? "a result" : "null", threw ? "threw" : "succeeded");
        if(!r) return;
        c.kept.push_back(r);
        compare(want, cMap(r, "C match"), "C match against C++ match");
        if(want.size() > 1) hits = true;
    };
    for(auto &d : w.docs) addDoc(d.id);
    ColMatchResults empty = col_match_results_new();
    c.kept.push_back(empty);
    REQUIRE(empty && col_match_results_size(empty) == 0, "a new result list is not empty");
    cMap(empty, "new result list");
    if(g.chance(1, 2000)) { // very many results
        size_t n = edgeLen(g, 70000);
        ctx.logf("%zu further documents", n);
        CWord &f = c.words[0];
        for(size_t i = 0; i < n; i++) {
            CDoc d;
            d.c = col_document_new((DocumentID)(5000000 + i));
            d.cc.reset(new Document((DocumentID)(5000000 + i)));
            col_document_add_text(d.c, f.c, "crowd");
            d.cc->addText(*f.cc, "crowd");
            col_corpus_add_document(c.corpus, d.c);
            corpus->addDocument(*d.cc);
            col_document_delete(d.c);
        }
        col_matcher_index(c.m, c.corpus);
        m.index(*corpus);
        search("crowd");
        ColCorpus fresh = col_corpus_new();
        col_corpus_delete(c.corpus);
        c.corpus = fresh;
        corpus.reset(new Corpus());
        ctx.label("very many results");
    }
    size_t ops = 5 + g.upto(35);
    for(size_t k = 0; k < ops; k++) {
        switch(g.weighted({24, 10, 14, 10, 12, 4, 2, 16, 3, 3})) {
        case 0: { // text for a document
            if(c.docs.empty()) continue;
            size_t d = g.upto(c.docs.size() - 1), f = g.upto(c.words.size() - 1);
            bool odd = false;
            string t = genText(g, w, odd);
            ctx.logf("add text %s to doc %zu field %s", show(t).c_str(), d, show(c.words[f].m).c_str());
            col_document_add_text(c.docs[d].c, c.words[f].c, t.c_str());
            try { c.docs[d].cc->addText(*c.words[f].cc, t.c_str()); } catch(const std::exception &) { refused = true; }
            break;
        }
        case 1: { bool odd = false; string t = g.chance(1, 3) ? genText(g, w, odd) : g.chance(1, 40) ? lettersToUtf8(genLong(g, w.alpha, g.chance(1, 5) ? 70000 : 3000)) : recase(g, g.pick(w.vocab)); ctx.log("word " + show(t)); addWord(t); break; }
        case 2: {
            if(c.docs.empty()) continue;
            size_t d = g.upto(c.docs.size() - 1);
            ctx.logf("doc %zu to corpus", d);
            col_corpus_add_document(c.corpus, c.docs[d].c);
            corpus->addDocument(*c.docs[d].cc);
            break;
        }
        case 3: ctx.log("index"); col_matcher_index(c.m, c.corpus); m.index(*corpus); break;
        case 4: {
            size_t f = g.upto(c.words.size() - 1);
            double v = g.oneOf<double>({0.5, 2.0, 0.0, 1e-3, 123.25, 1.0, 7.0 / 3});
            ctx.logf("weight of %s = %g", show(c.words[f].m).c_str(), v);
            col_index_weights_set_weight(iw, c.words[f].c, v);
            m.getIndexWeights().setWeight(*c.words[f].cc, v);
            break;
        }
        case 5: ctx.log("substring mode"); col_error_values_set_substring_mode(ev); m.getErrorValues().setSubstringMode(); break;
        case 6: { // the shipped data, or a directory without it
            const char *repo = getenv("VERIF_REPO");
            bool missing = g.chance(1, 3);
            string dir = missing ? scratch() + "/none" : string(repo ? repo : "/repo") + "/share";
            setenv("COLUMBUS_DATADIR", dir.c_str(), 1);
            ctx.logf("standard errors%s", missing ? " (no data)" : "");
            col_error_values_add_standard_errors(ev);
            try { m.getErrorValues().addStandardErrors(); } catch(const std::exception &) { refused = true; }
            unsetenv("COLUMBUS_DATADIR");
            ctx.label("standard errors");
            break;
        }
        case 7: {
            bool odd = false;
            string q;
            if(g.chance(1, 6)) q = genText(g, w, odd);
            else { vector<U> t = genQuery(g, w, 3); q = joinText(g, t, true); }
            ctx.log("search " + show(q));
            search(q);
            break;
        }
        case 8: { // end of life in any order
            if(g.flip()) { if(c.docs.size() < 2) continue; size_t d = g.upto(c.docs.size() - 1); ctx.logf("delete doc %zu", d); col_document_delete(c.docs[d].c); c.docs.erase(c.docs.begin() + d); }
            else { ctx.log("new corpus"); col_corpus_delete(c.corpus); c.corpus = col_corpus_new(); corpus.reset(new Corpus()); }
            break;
        }
        case 9: { uint64_t id = genId(g, 100000 + k); ctx.logf("new doc %llu", (unsigned long long)id); addDoc(id); break; }
        }
        if(g.chance(1, 4)) { checkIds(); checkWeights(); }
    }
    checkIds();
    checkWeights();
    { // words whose near misses depend on the error presets
        addDoc(0x7fffffffffffffffull);
        string t = "hello erable settings password \xce\xb1\xcf\x85\xcf\x84\xce\xbf";
        col_document_add_text(c.docs.back().c, c.words[0].c, t.c_str());
        c.docs.back().cc->addText(*c.words[0].cc, t.c_str());
    }
    for(auto &d : c.docs) { col_corpus_add_document(c.corpus, d.c); corpus->addDocument(*d.cc); }
    col_matcher_index(c.m, c.corpus);
    m.index(*corpus);
    for(int i = 0; i < 3; i++) { vector<U> t = genQuery(g, w, 3); string q = joinText(g, t, true); ctx.log("search " + show(q)); search(q); }
    for(const char *q : {"jello", "hekko", "\xc3\xa9r\xc3\xa0" "ble", "sett", "sword", "\xce\xac\xcf\x85\xcf\x84\xcf\x8c", "HALLO"}) search(q);
    if(hits && refused) ctx.nontrivial();
    if(hits) ctx.label("hits");
    if(refused) ctx.label("refused operation");
}
} // namespace pbt
