// Collections of documents, queries and search parameters: generators, bridges
// and comparison against the Engine model.
#pragma once
#include "lib.hh"
#include "Matcher.hh"
#include "MatchResults.hh"
#include "IndexWeights.hh"
#include "SearchParameters.hh"
#include "ResultFilter.hh"

namespace world {
using namespace lib;

struct Shape {
    size_t maxDocs = 12, maxFields = 4, maxText = 6, maxVocab = 30, maxLen = 7, maxQuery = 4;
    size_t crowd = 2000;     // size of the rare collections of very many small documents or different words
    bool emptyWords = false; // zero-length words and field names
};

struct World {
    Alpha alpha;
    vector<U> vocab, fieldNames;
    vector<Doc> docs;
    vector<pair<U, U>> rare; // (field, word) pairs of single documents of a crowd
    string tag;
};

inline Id genId(Gen &g, size_t i) {
    switch(g.weighted({60, 10, 10, 10, 10})) {
    case 0: return i;
    case 1: return 0x100000000ull + i;          // differs from others only above 32 bits
    case 2: return 0x8000000000000000ull + i;
    case 3: return (Id)-2 - i;
    default: return g.draw(UINT64_MAX - 1);
    }
}

inline Shape genShape(Gen &g, bool thorough) {
    Shape s;
    switch(g.weighted({70, 15, 6, 4, 3, thorough ? 2u : 1u})) {
    case 0: break;
    case 1: s.maxDocs = 40; s.maxVocab = 80; s.maxText = 12; break;
    case 2: s.maxDocs = 6; s.maxFields = 3; s.maxVocab = 12; s.maxLen = 40; break;      // long words
    case 3: s.maxDocs = 300; s.maxFields = 2; s.maxText = 6; s.maxVocab = 400; break;   // many documents
    case 4: s.maxDocs = 8; s.maxFields = g.chance(1, 4) ? 270 : 60; s.maxText = 3; break; // many fields
    case 5: s.maxDocs = 1500; s.maxFields = 3; s.maxText = 10; s.maxVocab = 5000; s.maxLen = 9; break;
    }
    return s;
}

inline World genWorld(Gen &g, const Shape &s, bool distinctIds = true, bool astral = true) {
    World w;
    w.alpha = genAlpha(g, astral);
    if(s.maxVocab > 1000) { w.alpha.clear(); for(uint32_t c = 'a'; c <= 'l'; c++) w.alpha.push_back(c); }
    w.vocab = genDict(g, w.alpha, s.maxVocab, s.maxLen);
    if(g.chance(1, 25)) {
        U lw;
        size_t n = g.oneOf<size_t>({127, 128, 255, 256, 257, 300, 520});
        for(size_t i = 0; i < n; i++) lw += (char32_t)(w.alpha[i * 7 % w.alpha.size()] > 0xffff ? 'q' : w.alpha[i * 7 % w.alpha.size()]);
        w.vocab.push_back(lw);
        U lw2 = lw;
        if(g.flip()) lw2.back() = 'z'; else lw2.pop_back();
        w.vocab.push_back(lw2);
    }
    size_t nf = 1 + (s.maxFields <= 4 ? g.upto(s.maxFields - 1) : g.small(s.maxFields - 1));
    for(size_t i = 0; i < nf; i++) {
        U f;
        if(g.chance(1, 4)) f = g.pick(w.vocab);               // a field named like a word
        else if(g.chance(1, 6) && !w.fieldNames.empty()) f = mutate(g, w.alpha, g.pick(w.fieldNames));
        else f = genWord(g, {'f', 'g', 't', 0xe9, 0x4e2d}, 1, 4);
        if(s.emptyWords && g.chance(1, 12)) f.clear();
        if(f.empty() && !s.emptyWords) f = U(1, U'f');
        w.fieldNames.push_back(f);
    }
    size_t nd = 1 + (s.maxDocs <= 40 && g.chance(2, 3) ? g.upto(s.maxDocs - 1) : g.small(s.maxDocs - 1));
    set<Id> used;
    bool skew = g.chance(1, 3);   // few words dominate: large counts
    bool sameField = g.chance(1, 3);
    for(size_t i = 0; i < nd; i++) {
        Doc d;
        d.id = genId(g, i);
        if(distinctIds) while(!used.insert(d.id).second) d.id++;
        else if(!used.empty() && g.chance(1, 6)) d.id = *used.begin();
        used.insert(d.id);
        size_t k = g.chance(1, 20) ? 0 : sameField ? 1 : 1 + g.small(s.maxFields > 20 ? s.maxFields : std::min<size_t>(3, s.maxFields) - 1 + 1);
        for(size_t j = 0; j < k; j++) {
            const U &f = sameField ? w.fieldNames[0] : g.pick(w.fieldNames);
            vector<U> text;
            size_t n = s.maxText <= 12 && g.chance(3, 4) ? g.upto(s.maxText) : g.small(s.maxText);
            for(size_t t = 0; t < n; t++) {
                if(s.emptyWords && g.chance(1, 15)) text.push_back(U());
                else if(skew && g.chance(1, 2)) text.push_back(w.vocab[0]);
                else text.push_back(g.pick(w.vocab));
            }
            d.fields[f] = text;
        }
        w.docs.push_back(d);
    }
    bool crowd = s.crowd && s.maxDocs <= 12 && g.chance(1, 3000), band = s.crowd && s.maxDocs <= 12 && !crowd && g.chance(1, 250);
    if(crowd || band) { // a crowd of small documents
        size_t n = crowd ? edgeLen(g, s.crowd) : 100 + g.upto(900), k = 1 + g.upto(w.vocab.size() - 1), two = g.upto(1);
        Id base = g.oneOf<Id>({1000, 0xfffffff0ull, 1ull << 40});
        const U &f = w.fieldNames[0];
        for(size_t i = 0; i < n; i++) {
            Doc d;
            d.id = base + i;
            if(!used.insert(d.id).second) continue;
            d.fields[f].push_back(w.vocab[i % k]);
            if(two) d.fields[f].push_back(w.vocab[(i / k) % k]);
            w.docs.push_back(d);
        }
        if(g.flip()) { // few of them hold something of their own
            size_t few = 1 + g.upto(2);
            for(size_t i = 0; i < few; i++) {
                Doc &d = w.docs[w.docs.size() - 1 - g.upto(std::min<size_t>(w.docs.size(), n) - 1)];
                U tag = numWord(7000 + i);
                const U &field = w.fieldNames[g.upto(w.fieldNames.size() - 1)];
                d.fields[field].push_back(tag);
                w.rare.push_back({field, tag});
            }
        }
    }
    if(s.crowd && s.maxDocs <= 12 && g.chance(1, 3000)) { // a large vocabulary
        size_t n = s.crowd > 66000 && g.chance(1, 3) ? s.crowd - g.upto(4000) : edgeLen(g, s.crowd), per = g.oneOf<size_t>({1, 7, 300, 70000}), salt = g.upto(1000);
        Id base = g.oneOf<Id>({2000, 0xfffffff8ull, 1ull << 33});
        Doc d;
        for(size_t i = 0; i < n; i++) {
            d.fields[w.fieldNames[i / per % w.fieldNames.size()]].push_back(numWord(salt * 1000 + i));
            if((i + 1) % per && i + 1 < n) continue;
            d.id = base + i;
            if(used.insert(d.id).second) w.docs.push_back(d);
            d.fields.clear();
        }
        for(size_t i = 0; i < 20; i++) w.vocab.push_back(numWord(salt * 1000 + (i < 10 ? i % n : n - 1 - (i - 10) % n)));
    }
    if(g.chance(1, 25)) { // one long text
        Doc &d = w.docs[g.upto(w.docs.size() - 1)];
        size_t n = edgeLen(g, 600), salt = g.upto(50), k = 1 + g.upto(std::min<size_t>(w.vocab.size(), 300) - 1);
        vector<U> &text = d.fields[g.pick(w.fieldNames)];
        text.clear();
        for(size_t i = 0; i < n; i++) text.push_back(w.vocab[salt ? (i * 2654435761u + i * i * salt >> 5) % k : i % k]);
    }
    return w;
}

inline Columbus::Document mkDoc(const Doc &d, bool viaText = false) {
    Columbus::Document r((DocumentID)d.id);
    for(auto &f : d.fields) {
        bool empties = false;
        for(auto &w : f.second) if(w.empty()) empties = true;
        if(viaText && !empties) {
            string s;
            for(auto &w : f.second) { s += lettersToUtf8(w); s += ' '; }
            r.addText(mk(f.first), s);
        } else {
            r.addText(mk(f.first), mkList(f.second));
        }
    }
    return r;
}
inline void indexAll(Columbus::Matcher &m, const vector<Doc> &ds, bool viaText = false) {
    Columbus::Corpus c;
    for(auto &d : ds) c.addDocument(mkDoc(d, viaText));
    m.index(c);
}
inline void logDocs(Ctx &ctx, const vector<Doc> &ds) {
    size_t n = 0;
    for(auto &d : ds) {
        if(n++ > 60) { ctx.logf("... %zu documents in total", ds.size()); break; }
        string s = pbt::fmt("doc %llu:", (unsigned long long)d.id);
        size_t k = 0;
        for(auto &f : d.fields) { if(k++ > 12) { s += " ..."; break; } s += " " + show(f.first) + "=" + showList(f.second); }
        ctx.log(s);
    }
}

// Query words: from the vocabulary, close to it, or unrelated.
inline U genQueryWord(Gen &g, const World &w) {
    for(int k = 0; k < 8; k++) {
        U q;
        switch(g.weighted({40, 40, 12, 8})) {
        case 0: q = g.pick(w.vocab); break;
        case 1: q = mutate(g, w.alpha, g.pick(w.vocab)); break;
        case 2: q = genWord(g, w.alpha, 1, 6); break;
        case 3: { // a piece of a word, for substring mode
            const U &v = g.pick(w.vocab);
            size_t a = g.upto(v.size() - 1), n = 1 + g.upto(v.size() - a - 1);
            q = v.substr(a, n);
            break;
        }
        }
        if(!q.empty() && wellFormed(q)) return q;
    }
    return U(1, U'a');
}
inline vector<U> genQuery(Gen &g, const World &w, size_t maxWords, bool emptyWords = false) {
    size_t n = maxWords > 2 && g.chance(1, 40) ? edgeLen(g, 70) : 1 + g.upto(maxWords - 1);
    vector<U> q;
    for(size_t i = 0; i < n; i++) {
        if(emptyWords && g.chance(1, 12)) q.push_back(U());
        else if(!q.empty() && g.chance(1, 8)) q.push_back(g.pick(q)); // repeated
        else q.push_back(genQueryWord(g, w));
    }
    return q;
}

inline void genWeights(Gen &g, const World &w, Engine &e, Columbus::Matcher &m, Ctx &ctx) {
    if(!g.chance(1, 2)) return;
    size_t n = g.small(4);
    for(size_t i = 0; i < n; i++) {
        const U &f = g.pick(w.fieldNames);
        double v = g.oneOf<double>({0.5, 2.0, 0.0, 1.0, 10.0, 0.125, 1e-6, 1e6, 3.3});
        e.weights[f] = v;
        m.getIndexWeights().setWeight(mk(f), v);
        ctx.logf("weight %s = %g", show(f).c_str(), v);
    }
}

// Something else happens between two searches of one matcher.
inline void between(Gen &g, const World &w, Engine &e, Columbus::Matcher &m, Ctx &ctx) {
    if(g.flip()) {
        const U &f = g.pick(w.fieldNames);
        double v = g.oneOf<double>({0.5, 2.0, 0.0, 1.0, 3.3});
        e.weights[f] = v;
        m.getIndexWeights().setWeight(mk(f), v);
        ctx.logf("weight %s = %g", show(f).c_str(), v);
    } else ctx.log(changeCosts(g, w.alpha, e.costs, m.getErrorValues()));
}

inline Params genParams(Gen &g, const World &w, Columbus::SearchParameters &p, Ctx &ctx, bool emptyWords, bool filters, bool nosearch) {
    Params r;
    if(g.chance(1, 4)) { r.dynamic = false; p.setDynamic(false); ctx.log("dynamic error off"); }
    if(nosearch) {
        size_t n = g.small(3);
        for(size_t i = 0; i < n; i++) {
            U f = g.chance(1, 10) ? genWord(g, {'u', 'v'}, 1, 3) : g.pick(w.fieldNames);
            r.nosearch.insert(f);
            p.addNonsearchingField(mk(f));
            ctx.log("nonsearching field " + show(f));
        }
    }
    if(filters) {
        Columbus::ResultFilter &rf = p.getResultFilter();
        bool many = g.chance(1, 40), wide = g.chance(1, 40);
        size_t terms = many ? edgeLen(g, 70) : 1 + g.small(4);
        // (field, word) pairs that really occur make filters that let something through
        vector<pair<U, U>> real;
        for(auto &d : w.docs) { for(auto &f : d.fields) for(auto &x : f.second) { real.push_back({f.first, x}); if(real.size() > 400) break; } if(real.size() > 400) break; }
        if(!w.rare.empty() && g.chance(2, 3)) real = w.rare;
        for(size_t t = 0; t < terms; t++) {
            if(t) { rf.addNewTerm(); r.filter.terms.push_back({}); }
            size_t subs = g.chance(1, 10) ? 0 : wide ? edgeLen(g, 20) : 1 + g.small(2);
            string s = pbt::fmt("filter term %zu:", t);
            if(!w.docs.empty() && g.chance(1, 6)) { // what one document holds, but perhaps for one subterm
                const Doc &d = g.pick(w.docs);
                vector<pair<U, U>> own;
                for(auto &f : d.fields) for(auto &x : f.second) if(own.size() < 400 && (emptyWords || !x.empty())) own.push_back({f.first, x});
                if(!own.empty()) {
                    subs = g.chance(1, 5) ? edgeLen(g, 70) : 1 + g.upto(5);
                    size_t odd = g.flip() ? g.upto(subs - 1) : subs;
                    for(size_t k = 0; k < subs; k++) {
                        pair<U, U> pr = own.size() > 1 && g.flip() ? g.pick(own) : own[k % own.size()];
                        if(k == odd) {
                            if(g.flip()) pr.second = g.flip() ? g.pick(w.vocab) : genQueryWord(g, w);
                            else pr.first = g.chance(1, 4) ? genWord(g, {'u', 'v'}, 1, 3) : g.pick(w.fieldNames);
                        }
                        rf.addNewSubTerm(mk(pr.first), mk(pr.second));
                        r.filter.terms.back().push_back(pr);
                        if(k < 12) s += " " + show(pr.first) + ":" + show(pr.second);
                    }
                    ctx.log(s + pbt::fmt(" (%zu subterms)", subs));
                    continue;
                }
            }
            for(size_t k = 0; k < subs; k++) {
                U f, x;
                if(!real.empty() && g.chance(7, 10)) { auto &pr = g.pick(real); f = pr.first; x = pr.second; }
                else { f = g.pick(w.fieldNames); x = g.pick(w.vocab); }
                if(g.chance(1, 12)) f = genWord(g, {'u', 'v'}, 1, 3);
                if(g.chance(1, 12)) x = genQueryWord(g, w);
                if(emptyWords && g.chance(1, 20)) x.clear();
                rf.addNewSubTerm(mk(f), mk(x));
                r.filter.terms.back().push_back({f, x});
                s += " " + show(f) + ":" + show(x);
            }
            ctx.log(s);
        }
    }
    return r;
}

inline map<Id, double> toMap(const Columbus::MatchResults &r, const char *what) {
    map<Id, double> m;
    double last = 0;
    for(size_t i = 0; i < r.size(); i++) {
        Id id = r.getDocumentID(i);
        double rel = r.getRelevancy(i);
        REQUIRE(i == 0 || !(rel > last), "%s: result %zu has relevancy %.17g after %.17g (not in non-increasing order)", what, i, rel, last);
        last = rel;
        REQUIRE(m.insert({id, rel}).second, "%s: document %llu occurs twice in the results", what, (unsigned long long)id);
    }
    return m;
}

inline void compare(const map<Id, double> &want, const map<Id, double> &got, const char *what) {
    for(auto &x : want) {
        auto it = got.find(x.first);
        REQUIRE(it != got.end(), "%s: document %llu (expected relevancy %.12g) is missing", what, (unsigned long long)x.first, x.second);
        REQUIRE(close(x.second, it->second), "%s: document %llu has relevancy %.15g, expected %.15g", what, (unsigned long long)x.first, it->second, x.second);
    }
    for(auto &x : got)
        REQUIRE(want.count(x.first), "%s: document %llu (relevancy %.12g) should not be in the results", what, (unsigned long long)x.first, x.second);
}

} // namespace world
