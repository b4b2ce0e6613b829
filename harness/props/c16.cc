// C16: memory safety and resource balance over random API histories.
#include "world.hh"
#include "ColumbusHelpers.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "WordStore.hh"
#include <memory>
#include "resources.hh"
#include <fstream>
#include <cstdlib>
#include <unistd.h>
namespace pbt {
const char *PROP_ID = "C16";
const char *PROP_RULE = "a program of 5-120 calls over pools of every public class (valid and refused arguments, moves, copies, self-assignment, buffers of every size, objects destroyed in any order), run three times under "
                        "AddressSanitizer and UndefinedBehaviorSanitizer; heap bytes, descriptors and mappings must return to their level after each run; non-trivial when at least 8 kinds of call ran and some call threw";
void process_setup() {}
using namespace world;
using namespace Columbus;

struct Reader {
    const vector<uint64_t> &v;
    size_t pos = 0;
    size_t next(size_t max) { uint64_t x = pos < v.size() ? v[pos++] : 0; return max == SIZE_MAX ? (size_t)x : (size_t)(x % (max + 1)); }
    bool flip() { return next(1); }
};

template<typename T> struct Obj { std::unique_ptr<T> o; bool moved = false; };

struct Machine {
    Reader r;
    const vector<string> &texts;
    const vector<U> &letterSeqs;
    vector<string> *log;
    std::set<int> kinds;
    size_t threw = 0;
    static const size_t N = 4;
    Obj<Word> W[N];
    Obj<WordList> L[N];
    Obj<Document> D[N];
    Obj<Corpus> C[2];
    Obj<MatchResults> R[N];
    std::unique_ptr<Matcher> M[2];
    std::unique_ptr<SearchParameters> S[2];
    std::unique_ptr<LevenshteinIndex> I[2];
    std::map<U, WordID> ids[2];
    std::unique_ptr<IndexMatches> IM[2];
    std::unique_ptr<WordStore> WS[2];
    std::unique_ptr<ErrorValues> E[2];
    size_t sink = 0;

    Machine(const vector<uint64_t> &v, const vector<string> &t, const vector<U> &ls, vector<string> *lg) : r{v}, texts(t), letterSeqs(ls), log(lg) {
        for(auto &x : W) x.o.reset(new Word());
        for(auto &x : L) x.o.reset(new WordList());
        for(auto &x : D) x.o.reset(new Document(1));
        for(auto &x : C) x.o.reset(new Corpus());
        for(auto &x : R) x.o.reset(new MatchResults());
        for(auto &x : M) x.reset(new Matcher());
        for(auto &x : S) x.reset(new SearchParameters());
        for(auto &x : I) x.reset(new LevenshteinIndex());
        for(auto &x : IM) x.reset(new IndexMatches());
        for(auto &x : WS) x.reset(new WordStore());
        for(auto &x : E) x.reset(new ErrorValues());
    }
    const string &text() { return texts[r.next(texts.size() - 1)]; }
    void say(const char *f, size_t a, size_t b = 0) { if(log) log->push_back(fmt(f, a, b)); }
    Word &word() { size_t b = r.next(N - 1); for(size_t k = 0; k < N; k++) { auto &x = W[(b + k) % N]; if(!x.moved) return *x.o; } W[0].o.reset(new Word()); W[0].moved = false; return *W[0].o; }
    WordList &list() { size_t b = r.next(N - 1); for(size_t k = 0; k < N; k++) { auto &x = L[(b + k) % N]; if(!x.moved) return *x.o; } L[0].o.reset(new WordList()); L[0].moved = false; return *L[0].o; }
    MatchResults &results() { size_t b = r.next(N - 1); for(size_t k = 0; k < N; k++) { auto &x = R[(b + k) % N]; if(!x.moved) return *x.o; } R[0].o.reset(new MatchResults()); R[0].moved = false; return *R[0].o; }
    std::unique_ptr<char[]> exact(const string &t) { std::unique_ptr<char[]> b(new char[t.size() + 1]); memcpy(b.get(), t.c_str(), t.size() + 1); return b; }
    std::unique_ptr<Letter[]> exactLetters(const U &u) { std::unique_ptr<Letter[]> b(new Letter[u.size() ? u.size() : 1]); for(size_t i = 0; i < u.size(); i++) b[i] = Letter((Letter_)u[i]); return b; }

    void words(size_t op) {
        size_t i = r.next(N - 1), j = r.next(N - 1);
        auto &x = W[i], &y = W[j];
        switch(op) {
        case 0: { auto t = exact(text()); say("word %zu from text", i); x.o.reset(new Word(t.get())); x.moved = false; break; }
        case 1: { const U &u = letterSeqs[r.next(letterSeqs.size() - 1)]; auto b = exactLetters(u); say("word %zu from %zu letters", i, u.size()); x.o.reset(new Word(b.get(), u.size())); x.moved = false; break; }
        case 2: { auto t = exact(text()); say("assign text to word %zu", i); *x.o = (const char *)t.get(); x.moved = false; break; }
        case 3: { say("assign string to word %zu", i); *x.o = text(); x.moved = false; break; }
        case 4: if(y.moved) return; say("word %zu = word %zu", i, j); *x.o = *y.o; x.moved = false; break;
        case 5: if(y.moved || i == j) return; say("word %zu = move(word %zu)", i, j); *x.o = std::move(*y.o); x.moved = false; y.moved = true; break;
        case 6: if(y.moved || i == j) return; say("new word %zu from move(word %zu)", i, j); x.o.reset(new Word(std::move(*y.o))); x.moved = false; y.moved = true; break;
        case 7: if(x.moved || y.moved) return; say("join words %zu %zu", i, j); if(x.o->length() + y.o->length() > 20000) return; { Word t = x.o->join(*y.o); auto &z = W[r.next(N - 1)]; z.o.reset(new Word(t)); z.moved = false; } break;
        case 8: {
            if(x.moved) return;
            string u = x.o->asUtf8();
            size_t sz = r.next(3) == 0 ? r.next(u.size() + 8) : u.size() + r.next(2);
            say("word %zu into a buffer of %zu", i, sz);
            std::unique_ptr<char[]> b(new char[sz]);
            x.o->toUtf8(b.get(), (unsigned int)sz);
            break;
        }
        case 9: { if(x.moved || y.moved) return; auto t = exact(text()); say("compare words %zu %zu", i, j); sink += *x.o == *y.o; sink += *x.o != *y.o; sink += *x.o < *y.o; sink += x.o->hash(); sink += *x.o == (const char *)t.get(); sink += *x.o != text(); break; }
        case 10: if(x.moved) return; say("letters of word %zu", i); for(size_t k = 0; k <= x.o->length(); k++) sink += (Letter_)(*x.o)[(unsigned int)k]; break;
        }
    }
    void lists(size_t op) {
        size_t i = r.next(N - 1), j = r.next(N - 1);
        auto &x = L[i], &y = L[j];
        switch(op) {
        case 0: if(x.moved) return; say("add word to list %zu", i); for(size_t k = r.next(9) == 0 ? 60 : 1; k; k--) x.o->addWord(word()); break;
        case 1: if(x.moved || !x.o->size()) return; say("add own word to list %zu", i); x.o->addWord((*x.o)[r.next(x.o->size() - 1)]); break;
        case 2: if(y.moved) return; say("list %zu = list %zu", i, j); *x.o = *y.o; x.moved = false; break;
        case 3: if(y.moved || i == j) return; say("list %zu = move(list %zu)", i, j); *x.o = std::move(*y.o); x.moved = false; y.moved = true; break;
        case 4: if(y.moved || i == j) return; say("new list %zu from list %zu", i, j); x.o.reset(new WordList(*y.o)); x.moved = false; break;
        case 5: { auto t = exact(text()); say("list %zu from text", i); *x.o = splitToWords(t.get()); x.moved = false; break; }
        case 6: { auto t = exact(text()); U u = {U',', U';', U' ', 0x7f}; auto b = exactLetters(u); size_t n = r.next(4); say("list %zu split by %zu", i, n); *x.o = split(t.get(), b.get(), (int)n); x.moved = false; break; }
        case 7: if(x.moved) return; say("read list %zu", i); sink += (*x.o)[r.next(x.o->size() + 1)].length(); break;
        case 8: if(x.moved || y.moved) return; say("compare lists %zu %zu", i, j); sink += *x.o == *y.o; sink += *x.o != *y.o; break;
        case 9: say("new list %zu", i); x.o.reset(new WordList()); x.moved = false; break;
        }
    }
    void docs(size_t op) {
        size_t i = r.next(N - 1), j = r.next(N - 1), c = r.next(1);
        auto &x = D[i], &y = D[j];
        switch(op) {
        case 0: say("doc %zu: add list", i); x.o->addText(word(), list()); break;
        case 1: { auto t = exact(text()); say("doc %zu: add text", i); x.o->addText(word(), (const char *)t.get()); break; }
        case 2: say("doc %zu: add string", i); x.o->addText(word(), text()); break;
        case 3: say("doc %zu = doc %zu", i, j); *x.o = *y.o; break;
        case 4: if(i == j) return; say("new doc %zu from doc %zu", i, j); x.o.reset(new Document(*y.o)); break;
        case 5: say("new doc %zu", i); x.o.reset(new Document((DocumentID)r.next(50))); break;
        case 6: { say("read doc %zu", i); sink += x.o->getID() + x.o->fieldCount(); WordList &l = list(); x.o->getFieldNames(l); sink += x.o->totalWordCount(word()); sink += x.o->wordCount(word(), word()); sink += x.o->getText(word()).size(); break; }
        case 7: { WordList names; x.o->getFieldNames(names); if(!names.size()) return; say("doc %zu: text from its own field", i); x.o->addText(word(), x.o->getText(names[r.next(names.size() - 1)])); break; }
        case 8: say("doc %zu to corpus %zu", i, c); if(C[c].o->size() > 60) return; C[c].o->addDocument(*x.o); break;
        case 9: if(!C[c].o->size() || C[c].o->size() > 60) return; say("corpus %zu: own document again", c); C[c].o->addDocument(C[c].o->getDocument(r.next(C[c].o->size() - 1))); break;
        case 10: say("doc %zu = document of corpus %zu", i, c); *x.o = C[c].o->getDocument(r.next(C[c].o->size())); break;
        case 11: say("new corpus %zu", c); C[c].o.reset(new Corpus()); break;
        }
    }
    void match(size_t op) {
        size_t i = r.next(1), j = r.next(1), q = r.next(N - 1);
        switch(op) {
        case 0: say("matcher %zu: index corpus %zu", i, j); M[i]->index(*C[j].o); break;
        case 1: { auto t = exact(text()); say("matcher %zu: match text", i); *R[q].o = M[i]->match(t.get()); R[q].moved = false; break; }
        case 2: say("matcher %zu: match list", i); *R[q].o = M[i]->match(list()); R[q].moved = false; break;
        case 3: say("matcher %zu: match with parameters %zu", i, j); *R[q].o = M[i]->match(list(), *S[j]); R[q].moved = false; break;
        case 4: { auto t = exact(text()); say("matcher %zu: match text with parameters %zu", i, j); *R[q].o = M[i]->match((const char *)t.get(), *S[j]); R[q].moved = false; break; }
        case 5: say("matcher %zu: online match", i); *R[q].o = M[i]->onlineMatch(list(), word()); R[q].moved = false; break;
        case 6: say("matcher %zu: weight", i); M[i]->getIndexWeights().setWeight(word(), (double)r.next(4) / 2); sink += M[i]->getIndexWeights().getWeight(word()) > 1; break;
        case 7: errors(M[i]->getErrorValues(), r.next(9)); break;
        case 8: say("new matcher %zu", i); M[i].reset(new Matcher()); break;
        case 9: say("matcher %zu: match string", i); *R[q].o = M[i]->match(text()); R[q].moved = false; break;
        }
    }
    void errors(ErrorValues &e, size_t op) {
        int v = (int)r.next(300);
        switch(op) {
        case 0: say("set letter error %zu", (size_t)v); e.setError(Letter((Letter_)r.next(0xffff)), Letter((Letter_)r.next(700)), v); break;
        case 1: say("set group error %zu", (size_t)v); e.setGroupError(word(), v); break;
        case 2: say("keyboard errors", 0); e.addKeyboardErrors(); break;
        case 3: say("number pad errors", 0); e.addNumberpadErrors(); break;
        case 4: say("clear errors", 0); e.clearErrors(); break;
        case 5: say("substring mode", 0); e.setSubstringMode(); break;
        case 6: say("costs %zu", (size_t)v); e.setInsertionError(v); e.setDeletionError((int)r.next(200)); e.setTransposeError((int)r.next(200)); e.setEndDeletionError((int)r.next(200)); e.setStartInsertionError((int)r.next(200)); e.setSubstringStartLimit(r.next(5)); break;
        case 7: { const char *repo = getenv("VERIF_REPO"); size_t k = r.next(3); string d = k == 0 ? "/nonexistent" : string(repo ? repo : "/repo") + (k == 1 ? "/share" : "/share/");
            say("accents, directory kind %zu", k); setenv("COLUMBUS_DATADIR", k == 3 ? "" : d.c_str(), 1); if(r.flip()) e.addStandardErrors(); else e.addAccents(r.flip() ? latinAccentGroup : greekAccentGroup); break; }
        case 8: say("read costs", 0); sink += e.getSubstituteError(Letter((Letter_)r.next(0xffff)), Letter((Letter_)r.next(600))) + e.isInGroup(Letter((Letter_)r.next(600))) + e.getStartInsertionError(r.next(5)); break;
        case 9: say("new error values", 0); E[r.next(1)].reset(new ErrorValues()); break;
        }
    }
    void results(size_t op) {
        size_t i = r.next(N - 1), j = r.next(N - 1);
        auto &x = R[i], &y = R[j];
        switch(op) {
        case 0: if(x.moved) return; say("add result to %zu", i); for(size_t k = r.next(9) == 0 ? 100 : 1; k; k--) x.o->addResult((DocumentID)r.next(9), (double)r.next(5)); break;
        case 1: if(x.moved || y.moved || i == j || x.o->size() + y.o->size() > 3000) return; say("merge %zu from %zu", i, j); x.o->addResults(*y.o); break;
        case 2: if(x.moved || y.moved) return; say("copy a result to %zu from %zu", i, j); x.o->copyResult(*y.o, r.next(y.o->size())); break;
        case 3: if(y.moved) return; say("results %zu = %zu", i, j); *x.o = *y.o; x.moved = false; break;
        case 4: if(y.moved || i == j) return; say("results %zu = move %zu", i, j); *x.o = std::move(*y.o); x.moved = false; y.moved = true; break;
        case 5: if(y.moved || i == j) return; say("new results %zu from %zu", i, j); x.o.reset(new MatchResults(*y.o)); x.moved = false; break;
        case 6: if(x.moved) return; say("read results %zu", i); for(size_t k = 0; k < x.o->size(); k++) sink += x.o->getDocumentID(k) + (x.o->getRelevancy(k) > 1); sink += x.o->getDocumentID(x.o->size() + r.next(2)); break;
        case 7: if(x.moved) return; say("read relevancy of %zu", i); sink += x.o->getRelevancy(r.next(x.o->size() + 2)) > 0; break;
        }
    }
    void index(size_t op) {
        size_t i = r.next(1), j = r.next(1);
        switch(op) {
        case 0: {
            Word &w = word();
            U u = letters(w);
            auto it = ids[i].insert({u, (WordID)ids[i].size()}).first;
            say("index %zu: insert a word of %zu letters", i, u.size());
            for(size_t k = r.next(20) == 0 ? 300 : 1; k; k--) I[i]->insertWord(w, it->second);
            break;
        }
        case 1: say("index %zu: find", i); I[i]->findWords(word(), *E[j], (int)r.next(400), *IM[j]); break;
        case 2: say("index %zu: counters", i); sink += I[i]->hasWord(word()) + I[i]->wordCount((WordID)r.next(20)) + I[i]->maxCount() + I[i]->numNodes() + I[i]->numWords(); break;
        case 3: say("new index %zu", i); I[i].reset(new LevenshteinIndex()); ids[i].clear(); break;
        case 4: say("read matches %zu", j); { size_t k = r.next(IM[j]->size()); sink += IM[j]->getMatchError(k); sink += IM[j]->getMatch(k) + IM[j]->getQuery(k).length(); } break;
        case 5: say("clear matches %zu", j); IM[j]->clear(); break;
        case 6: errors(*E[j], r.next(9)); break;
        case 7: { say("store %zu: id", i); WordID id = WS[i]->getID(word()); sink += id; if(r.flip()) sink += WS[i]->getWord(id).hash(); break; }
        case 8: say("store %zu: look up", i); sink += WS[i]->hasWord(word()) + WS[i]->hasWord((WordID)r.next(9)); sink += WS[i]->getWord((WordID)r.next(9)).length(); break;
        case 9: say("new store %zu", i); WS[i].reset(new WordStore()); break;
        }
    }
    void params(size_t op) {
        size_t i = r.next(1);
        ResultFilter &f = S[i]->getResultFilter();
        switch(op) {
        case 0: say("parameters %zu: nonsearching", i); S[i]->addNonsearchingField(word()); sink += S[i]->isNonsearchingField(word()); break;
        case 1: say("parameters %zu: dynamic", i); S[i]->setDynamic(r.flip()); sink += S[i]->isDynamic() + S[i]->getDynamicError(word()); break;
        case 2: say("parameters %zu: new term", i); f.addNewTerm(); break;
        case 3: say("parameters %zu: subterm", i); f.addNewSubTerm(word(), word()); break;
        case 4: { say("parameters %zu: read filter", i); size_t t = r.next(f.numTerms()); sink += f.numSubTerms(t); size_t k = r.next(f.numSubTerms(t)); sink += f.getField(t, k).length() + f.getWord(t, k).length(); break; }
        case 5: say("new parameters %zu", i); S[i].reset(new SearchParameters()); break;
        }
    }
    void step() {
        size_t g = r.next(6), op = 0;
        size_t save = r.pos;
        // Every step reads a fixed number of choices, so that steps can be dropped when shrinking.
        try {
            switch(g) {
            case 0: op = r.next(10); kinds.insert((int)op); words(op); break;
            case 1: op = r.next(9); kinds.insert(100 + (int)op); lists(op); break;
            case 2: op = r.next(11); kinds.insert(200 + (int)op); docs(op); break;
            case 3: op = r.next(9); kinds.insert(300 + (int)op); match(op); break;
            case 4: op = r.next(7); kinds.insert(400 + (int)op); results(op); break;
            case 5: op = r.next(9); kinds.insert(500 + (int)op); index(op); break;
            case 6: op = r.next(5); kinds.insert(600 + (int)op); params(op); break;
            }
        } catch(const std::exception &) {
            threw++;
            if(log) log->push_back("  -> refused");
        }
        r.pos = save + 23;
    }
};

static void execute(const vector<uint64_t> &prog, size_t steps, const vector<string> &texts, const vector<U> &seqs, vector<string> *log, size_t &kinds, size_t &threw) {
    unsetenv("COLUMBUS_DATADIR");
    Machine m(prog, texts, seqs, log);
    for(size_t i = 0; i < steps; i++) m.step();
    kinds = m.kinds.size();
    threw = m.threw;
}

void run_case(Gen &g, Ctx &ctx) {
    Alpha a = genAlpha(g, true);
    vector<string> texts;
    size_t nt = 4 + g.upto(6);
    for(size_t i = 0; i < nt; i++) {
        string t;
        switch(g.weighted({40, 25, 10, 10, 8, 4, 3})) {
        case 0: t = lettersToUtf8(genWord(g, a, 1, 6)); break;
        case 1: { vector<U> d = genDict(g, a, 6, 5); t = joinText(g, d, true); break; }
        case 2: t = lettersToUtf8(genWord(g, a, 1, 3)) + g.oneOf<const char *>({"\xff", "\xc3", "\xed\xa0\x80x", "\xe2\x82", "\xf0\x9f\x98"}); break;
        case 3: { size_t n = g.upto(10); for(size_t k = 0; k < n; k++) t += (char)(1 + g.upto(254)); break; }
        case 4: t = genSpace(g, true); break;
        case 5: { size_t n = 50 + g.upto(600); for(size_t k = 0; k < n; k++) t += (char)('a' + k % 7); break; }
        case 6: { size_t n = 20 + g.upto(200); for(size_t k = 0; k < n; k++) { putUtf8(t, anyCp(g)); if(g.chance(1, 6)) t += ' '; } break; }
        }
        texts.push_back(t);
    }
    vector<U> seqs;
    size_t ns = 1 + g.upto(4);
    for(size_t i = 0; i < ns; i++) {
        U u = g.flip() ? genWord(g, a, 0, 6) : U();
        size_t n = g.upto(4);
        for(size_t k = 0; k < n; k++) u += (char32_t)g.oneOf<uint32_t>({'a', 0xd800, 0xdc00, 0xdbff, 0xdfff, 0xd7ff, 0xe000, 0xffff, ' ', 0x41, 0});
        seqs.push_back(u);
    }
    // Words whose length lies on or beside a power of two.
    if(g.chance(1, 2)) {
        size_t n = g.oneOf<size_t>({7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256}) + g.upto(2);
        U u;
        for(size_t k = 0; k < n; k++) u += (char32_t)('a' + k % 5);
        seqs.push_back(u);
        if(g.flip()) texts.push_back(lettersToUtf8(u));
    }
    size_t steps = 5 + g.upto(115);
    vector<uint64_t> prog;
    for(size_t i = 0; i < steps * 24; i++) prog.push_back(g.draw(0xfffff));
    for(auto &t : texts) ctx.log("text " + show(t).substr(0, 400));
    vector<string> log;
    size_t kinds = 0, threw = 0;
    // The narration comes from a first, separate run, so that it survives a crash.
    if(ctx.mirror) {
        unsetenv("COLUMBUS_DATADIR");
        Machine m(prog, texts, seqs, &log);
        for(size_t i = 0; i < steps; i++) { size_t n = log.size(); m.step(); for(; n < log.size(); n++) ctx.log(log[n]); }
    }
    log.clear();
    log.shrink_to_fit();
    execute(prog, steps, texts, seqs, nullptr, kinds, threw);
    size_t h0 = res::heap(), f0 = res::fds(), m0 = res::maps();
    execute(prog, steps, texts, seqs, nullptr, kinds, threw);
    size_t h1 = res::heap(), f1 = res::fds(), m1 = res::maps();
    execute(prog, steps, texts, seqs, nullptr, kinds, threw);
    size_t h2 = res::heap(), f2 = res::fds(), m2 = res::maps();
    if(h1 != h0 && h2 != h1) ctx.failf("heap in use grows from run to run of the same program: %zu, %zu, %zu bytes", h0, h1, h2);
    if(f0 != f1 || f1 != f2) ctx.failf("open file descriptors grow from run to run: %zu, %zu, %zu", f0, f1, f2);
    if(m0 != m1 || m1 != m2) ctx.failf("mapped files grow from run to run: %zu, %zu, %zu", m0, m1, m2);
    for(auto &l : log) ctx.log(l);
    ctx.logf("%zu steps, %zu kinds of call, %zu refused, program %llx", steps, kinds, threw, (unsigned long long)std::hash<string>()(string((const char *)prog.data(), prog.size() * 8)));
    if(threw) ctx.label("some call refused");
    if(kinds >= 8 && threw) ctx.nontrivial();
}
} // namespace pbt
