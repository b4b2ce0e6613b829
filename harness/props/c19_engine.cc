// Executes neutral operations; compiled once per build configuration (C++11).
#include "props/c19_engine.hh"
#include "columbus.hh"
#include "ColumbusHelpers.hh"
#include "WordStore.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include <algorithm>
#include <cstdio>
#include <stdexcept>
using namespace Columbus;
using namespace neutral;
using std::string;

namespace {
string num(uint64_t n) { char b[32]; snprintf(b, sizeof b, "%llu ", (unsigned long long)n); return b; }
string show(const Word &w) {
    string r = num(w.length()) + "[";
    for(unsigned int i = 0; i < w.length(); i++) r += num((uint64_t)(Letter_)w[i]);
    return r + "] " + w.asUtf8() + "\n";
}
WordList list(const Texts &t) { WordList l; for(size_t i = 0; i < t.size(); i++) l.addWord(Word(t[i])); return l; }
Letter L(uint32_t c) { return Letter((Letter_)c); }

struct World {
    std::vector<Word> words;
    WordStore store;
    LevenshteinIndex index;
    ErrorValues errors;
    Matcher matcher;
    Corpus corpus;
    Document *doc;
    MatchResults results;
    World() : doc(nullptr) {}
    ~World() { delete doc; }

    void put(Out &o, const MatchResults &r) {
        double last = 0;
        for(size_t i = 0; i < r.size(); i++) {
            double rel = r.getRelevancy(i);
            if(i && rel > last) o.text += "unsorted ";
            last = rel;
            if(!o.rel.insert(std::make_pair((uint64_t)r.getDocumentID(i), rel)).second) o.text += "twice ";
        }
        o.text += num(r.size());
    }
    void cost(ErrorValues &e, const Op &op) {
        switch(op.a) {
        case 0: e.setInsertionError(op.e); break;
        case 1: e.setDeletionError(op.e); break;
        case 2: e.setEndDeletionError(op.e); break;
        case 3: e.setTransposeError(op.e); break;
        case 4: e.setStartInsertionError(op.e); break;
        case 5: e.setSubstringStartLimit((size_t)op.b); break;
        case 6: e.setSubstringMode(); break;
        case 7: e.addKeyboardErrors(); break;
        case 8: e.addNumberpadErrors(); break;
        case 9: e.setGroupError(Word(op.s), op.e); break;
        case 10: e.addAccents(op.b ? latinAccentGroup : greekAccentGroup); break;
        default: e.setError(L(op.l1), L(op.l2), op.e); break;
        }
    }
    void step(const Op &op, Out &o) {
        switch(op.kind) {
        case WORD: { Word w(op.s); o.text += show(w); if(words.size() < 12) words.push_back(w); else words[op.a % 12] = w; break; }
        case SPLIT: { WordList l = splitToWords(op.s.c_str()); for(size_t i = 0; i < l.size(); i++) o.text += show(l[i]); break; }
        case COMPARE: if(!words.empty()) { const Word &x = words[op.a % words.size()], &y = words[op.b % words.size()]; o.text += num(x == y) + num(x < y) + num(y < x) + num(x != y) + num(x == op.s.c_str()); } break;
        case JOIN: if(!words.empty()) { const Word &x = words[op.a % words.size()], &y = words[op.b % words.size()]; if(x.length() + y.length() < 600) o.text += show(x.join(y)); } break;
        case BUFFER: if(!words.empty()) { char b[64]; unsigned n = 1 + op.b % 63; words[op.a % words.size()].toUtf8(b, n); o.text += b; } break;
        case STORE_ID: o.text += num(store.getID(Word(op.s))); break;
        case STORE_HAS: o.text += num(store.hasWord(Word(op.s))) + num(store.hasWord((WordID)op.a)); break;
        case STORE_WORD: o.text += show(store.getWord((WordID)op.a)); break;
        case INSERT: index.insertWord(Word(op.s), (WordID)op.a); break;
        case FIND: {
            IndexMatches m;
            index.findWords(Word(op.s), errors, op.e, m);
            std::vector<std::pair<int, uint64_t> > v;
            for(size_t i = 0; i < m.size(); i++) v.push_back(std::make_pair(m.getMatchError(i), (uint64_t)m.getMatch(i)));
            for(size_t i = 1; i < v.size(); i++) if(v[i].first < v[i - 1].first) o.text += "unsorted ";
            std::sort(v.begin(), v.end());
            for(size_t i = 0; i < v.size(); i++) o.text += num(v[i].second) + ":" + num((uint64_t)(int64_t)v[i].first);
            break;
        }
        case COUNT: o.text += num(index.wordCount((WordID)op.a)) + num(index.maxCount()) + num(index.numWords()) + num(index.numNodes()) + num(index.hasWord(Word(op.s))); break;
        case COST: cost(op.b & 1 || op.a == 10 ? errors : matcher.getErrorValues(), op); break;
        case GETCOST: o.text += num((uint64_t)errors.getSubstituteError(L(op.l1), L(op.l2))) + num((uint64_t)matcher.getErrorValues().getSubstituteError(L(op.l1), L(op.l2))) + num(errors.isInGroup(L(op.l1))); break;
        case CLEAR: errors.clearErrors(); break;
        case DOC: delete doc; doc = nullptr; doc = new Document((DocumentID)op.id); break;
        case FIELD: if(doc) { if(op.a) doc->addText(Word(op.t), op.s); else doc->addText(Word(op.t), list(op.ws)); o.text += num(doc->fieldCount()) + num(doc->getID()); const WordList &l = doc->getText(Word(op.t)); for(size_t i = 0; i < l.size(); i++) o.text += show(l[i]); } break;
        case INDEX: if(doc) { Corpus c; c.addDocument(*doc); matcher.index(c); delete doc; doc = nullptr; } break;
        case MATCH: put(o, matcher.match(op.s.c_str())); break;
        case MATCH_FILTERED: {
            SearchParameters p;
            p.setDynamic(op.a & 1);
            if(op.a & 2) p.addNonsearchingField(Word(op.t));
            for(size_t i = 0; i + 1 < op.ws2.size(); i += 2) { if(i && (op.a & 4)) p.getResultFilter().addNewTerm(); p.getResultFilter().addNewSubTerm(Word(op.ws2[i]), Word(op.ws2[i + 1])); }
            put(o, matcher.match(list(op.ws), p));
            break;
        }
        case ONLINE: put(o, matcher.onlineMatch(list(op.ws), Word(op.t))); break;
        case WEIGHT: matcher.getIndexWeights().setWeight(Word(op.t), op.d); { char b[64]; snprintf(b, sizeof b, "%.17g", matcher.getIndexWeights().getWeight(Word(op.s))); o.text += b; } break;
        case RESULT: {
            results.addResult((DocumentID)op.id, op.d);
            if(op.a & 1) { MatchResults r(results); results.addResults(r); }
            if(results.size() > 60) results = MatchResults();
            for(size_t i = 0; i < results.size(); i++) o.text += num(results.getDocumentID(i));
            break;
        }
        }
    }
};
}

extern "C" __attribute__((visibility("default"))) void ENGINE(const Op *ops, size_t n, Out *out) {
    World w;
    for(size_t i = 0; i < n; i++) {
        try { w.step(ops[i], out[i]); }
        catch(const std::exception &) { out[i].text += "refused"; }
    }
}
