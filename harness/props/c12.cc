// C12: WordList, Document and Corpus as values.
#include "lib.hh"
#include <memory>
namespace pbt {
const char *PROP_ID = "C12";
const char *PROP_RULE = "1-60 operations over 4 word lists, 4 documents and 2 corpora (add, copy, move, assign, self-assign, aliasing add, destroy), contents of everything compared with plain containers after each; "
                        "non-trivial when an object is changed after having been copied";
void process_setup() {}
using namespace lib;
using namespace Columbus;

struct LSlot { std::unique_ptr<WordList> l; vector<U> m; bool moved = false; };
struct DModel { uint64_t id = 0; map<U, vector<U>> f; };
struct DSlot { std::unique_ptr<Document> d; DModel m; };
struct CSlot { std::unique_ptr<Corpus> c; vector<DModel> m; };

static void checkList(const WordList &l, const vector<U> &m, const string &what) {
    REQUIRE(l.size() == m.size(), "%s: list has %zu words, expected %zu", what.c_str(), l.size(), m.size());
    for(size_t i = 0; i < m.size(); i++) REQUIRE(letters(l[i]) == m[i], "%s: word %zu is %s, expected %s", what.c_str(), i, show(letters(l[i])).c_str(), show(m[i]).c_str());
    for(size_t i : {m.size(), m.size() + 1, (size_t)1 << 32, (size_t)-1}) {
        bool threw = false;
        try { (void)l[i]; } catch(const std::exception &) { threw = true; }
        REQUIRE(threw, "%s: reading word %zu of %zu was not refused", what.c_str(), i, m.size());
    }
}
static void checkDoc(const Document &d, const DModel &m, const vector<U> &probe, const string &what) {
    REQUIRE(d.getID() == (DocumentID)m.id, "%s: document id is %llu, expected %llu", what.c_str(), (unsigned long long)d.getID(), (unsigned long long)m.id);
    REQUIRE(d.fieldCount() == m.f.size(), "%s: document has %zu fields, expected %zu", what.c_str(), d.fieldCount(), m.f.size());
    WordList names;
    names.addWord(Word("keep"));
    d.getFieldNames(names);
    vector<U> got = listLetters(names), want;
    REQUIRE(!got.empty() && got[0] == U(U"keep"), "%s: getFieldNames dropped what the list already had", what.c_str());
    got.erase(got.begin());
    for(auto &x : m.f) want.push_back(x.first);
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    REQUIRE(got == want, "%s: field names are %s, expected %s", what.c_str(), showList(got).c_str(), showList(want).c_str());
    for(auto &x : m.f) checkList(d.getText(mk(x.first)), x.second, what + ", text of " + show(x.first));
    for(auto &p : probe) {
        if(!m.f.count(p)) {
            bool threw = false;
            try { d.getText(mk(p)); } catch(const std::exception &) { threw = true; }
            REQUIRE(threw, "%s: reading missing field %s was not refused", what.c_str(), show(p).c_str());
            REQUIRE(d.fieldCount() == m.f.size(), "%s: reading a missing field changed the field count", what.c_str());
            REQUIRE(d.wordCount(mk(p), mk(p)) == 0, "%s: word count in a missing field is not zero", what.c_str());
        }
        size_t total = 0;
        for(auto &x : m.f) {
            size_t n = std::count(x.second.begin(), x.second.end(), p);
            total += n;
            REQUIRE(d.wordCount(mk(p), mk(x.first)) == n, "%s: word %s counted %zu times in field %s, expected %zu", what.c_str(), show(p).c_str(),
                    d.wordCount(mk(p), mk(x.first)), show(x.first).c_str(), n);
        }
        REQUIRE(d.totalWordCount(mk(p)) == total, "%s: total count of %s is %zu, expected %zu", what.c_str(), show(p).c_str(), d.totalWordCount(mk(p)), total);
    }
}

void run_case(Gen &g, Ctx &ctx) {
    Alpha a = genAlpha(g, true);
    vector<U> words = genDict(g, a, 8, 5);
    words.push_back(U());
    vector<U> fields = genDict(g, a, 4, 3);
    vector<U> probe = {g.pick(words), g.pick(fields), g.pick(words)};
    LSlot L[4]; DSlot D[4]; CSlot C[2];
    for(auto &s : L) s.l.reset(new WordList());
    for(size_t i = 0; i < 4; i++) { D[i].m.id = g.chance(1, 3) ? g.draw(UINT64_MAX) : i; D[i].d.reset(new Document((DocumentID)D[i].m.id)); }
    for(auto &s : C) s.c.reset(new Corpus());
    size_t ops = 1 + g.small(60);
    bool copied = false, changed = false;
    for(size_t k = 0; k < ops; k++) {
        size_t i = g.upto(3), j = g.upto(3);
        string what;
        bool big = g.chance(1, 100);
        switch(g.weighted({16, 8, 8, 6, 6, 16, 6, 8, 8, 10, 4, 10})) {
        case 0: { // add a word to a list, possibly one of its own
            LSlot &s = L[i];
            if(s.moved) continue;
            size_t n = big ? edgeLen(g, 1030) : g.chance(1, 3) ? 1 + g.upto(11) : 1;
            for(size_t t = 0; t < n; t++) {
                if(!s.m.empty() && g.chance(1, 4)) { size_t p = g.upto(s.m.size() - 1); U u = s.m[p]; s.l->addWord((*s.l)[p]); s.m.push_back(u); }
                else { U u = g.pick(words); s.l->addWord(mk(u)); s.m.push_back(u); }
            }
            what = fmt("add word to list %zu", i);
            if(copied) changed = true;
            break;
        }
        case 1: if(L[j].moved || i == j) continue; L[i].l.reset(new WordList(*L[j].l)); L[i].m = L[j].m; L[i].moved = false; copied = true; what = fmt("list %zu = copy of %zu", i, j); break;
        case 2: if(L[j].moved) continue; *L[i].l = *L[j].l; L[i].m = L[j].m; L[i].moved = false; copied = true; what = fmt("assign list %zu from %zu", i, j); break;
        case 3: if(L[j].moved || i == j) continue; *L[i].l = std::move(*L[j].l); L[i].m = L[j].m; L[i].moved = false; L[j].moved = true; what = fmt("move list %zu into %zu", j, i); break;
        case 4: if(L[j].moved || i == j) continue; L[i].l.reset(new WordList(std::move(*L[j].l))); L[i].m = L[j].m; L[i].moved = false; L[j].moved = true; what = fmt("move-construct list %zu from %zu", i, j); break;
        case 5: { // add text to a document
            DSlot &s = D[i];
            U f = g.pick(fields);
            if(big) { // many fields
                size_t n = edgeLen(g, 300);
                U pre = genWord(g, a, 1, 2);
                for(size_t t = 0; t < n; t++) {
                    U name = pre;
                    for(size_t v = t; v; v /= 26) name += (char32_t)('a' + v % 26);
                    vector<U> text(t % 3, words[t % words.size()]);
                    s.d->addText(mk(name), mkList(text));
                    s.m.f[name] = text;
                }
                ctx.label("many fields");
            }
            switch(g.upto(4)) {
            case 4: { // the text of a field but for one word
                if(g.flip()) j = i;
                if(D[j].m.f.empty()) continue;
                auto it = D[j].m.f.begin();
                std::advance(it, g.upto(D[j].m.f.size() - 1));
                if(g.flip()) for(auto o = D[j].m.f.begin(); o != D[j].m.f.end(); ++o) if(o->second.size() > it->second.size()) it = o;
                vector<U> t = it->second;
                if(t.empty()) continue;
                size_t p = g.upto(t.size() - 1);
                U x = g.flip() ? mutate(g, a, t[p]) : g.pick(words);
                if(!wellFormed(x)) continue;
                if(g.chance(1, 4)) std::swap(t[p], t[g.upto(t.size() - 1)]); else t[p] = x;
                f = it->first;
                s.d->addText(mk(f), mkList(t));
                s.m.f[f] = t;
                what = fmt("doc %zu field %s = the same with word %zu changed", i, show(f).c_str(), p);
                break;
            }
            case 0: if(L[j].moved) continue; s.d->addText(mk(f), *L[j].l); s.m.f[f] = L[j].m; what = fmt("doc %zu field %s = list %zu", i, show(f).c_str(), j); break;
            case 1: case 2: {
                vector<U> t;
                size_t n = big ? edgeLen(g, 600) : g.chance(1, 12) ? g.upto(80) : g.small(5);
                for(size_t q = 0; q < n; q++) { U u = g.pick(words); if(!u.empty()) t.push_back(u); }
                string txt = joinText(g, t, true);
                if(g.flip()) s.d->addText(mk(f), txt); else s.d->addText(mk(f), txt.c_str());
                s.m.f[f] = t;
                what = fmt("doc %zu field %s = text %s", i, show(f).c_str(), show(txt).c_str());
                break;
            }
            case 3: { // from another field of the same or another document
                if(D[j].m.f.empty()) continue;
                U src = D[j].m.f.begin()->first;
                vector<U> t = D[j].m.f[src];
                s.d->addText(mk(f), D[j].d->getText(mk(src)));
                s.m.f[f] = t;
                what = fmt("doc %zu field %s = field %s of doc %zu", i, show(f).c_str(), show(src).c_str(), j);
                break;
            }
            }
            if(copied) changed = true;
            break;
        }
        case 6: { // refused text leaves the document as it was
            bool threw = false;
            try { D[i].d->addText(mk(g.pick(fields)), "ok \xff bad"); } catch(const std::exception &) { threw = true; }
            REQUIRE(threw, "malformed text was accepted by a document");
            what = fmt("refused text for doc %zu", i);
            break;
        }
        case 7: if(i == j) continue; D[i].d.reset(new Document(*D[j].d)); D[i].m = D[j].m; copied = true; what = fmt("doc %zu = copy of %zu", i, j); break;
        case 8: *D[i].d = *D[j].d; D[i].m = D[j].m; copied = true; what = fmt("assign doc %zu from %zu", i, j); break;
        case 9: {
            CSlot &c = C[g.upto(1)];
            size_t n = big ? edgeLen(g, 300) : 1;
            for(size_t t = 0; t < n; t++) {
                if(!c.m.empty() && g.chance(1, 4)) { size_t p = g.upto(c.m.size() - 1); DModel dm = c.m[p]; c.c->addDocument(c.c->getDocument(p)); c.m.push_back(dm); }
                else { c.c->addDocument(*D[i].d); c.m.push_back(D[i].m); }
            }
            copied = true;
            what = fmt("add doc %zu to a corpus", i);
            break;
        }
        case 10: { // take a document back out
            CSlot &c = C[g.upto(1)];
            if(c.m.empty()) continue;
            size_t p = g.upto(c.m.size() - 1);
            *D[i].d = c.c->getDocument(p);
            D[i].m = c.m[p];
            what = fmt("doc %zu = corpus document %zu", i, p);
            break;
        }
        case 11: // end of life
            if(g.flip()) { D[i].m = DModel(); D[i].m.id = k; D[i].d.reset(new Document((DocumentID)k)); what = fmt("new doc %zu", i); }
            else if(g.flip() || L[j].moved || L[j].m.empty()) { L[i].l.reset(new WordList()); L[i].m.clear(); L[i].moved = false; what = fmt("new list %zu", i); }
            else { // the same words but for one of them
                vector<U> t = L[j].m;
                size_t p = g.flip() ? t.size() - 1 : g.upto(t.size() - 1);
                U x = g.flip() ? mutate(g, a, t[p]) : g.pick(words);
                if(!wellFormed(x)) continue;
                t[p] = x;
                L[i].l.reset(new WordList(mkList(t))); L[i].m = t; L[i].moved = false;
                what = fmt("list %zu = list %zu with word %zu changed", i, j, p);
            }
            if(copied) changed = true;
            break;
        }
        ctx.log(what);
        for(int x = 0; x < 4; x++) {
            if(!L[x].moved) checkList(*L[x].l, L[x].m, fmt("after %s, list %d", what.c_str(), x));
            checkDoc(*D[x].d, D[x].m, probe, fmt("after %s, doc %d", what.c_str(), x));
            for(int y = 0; y < 4; y++) {
                if(L[x].moved || L[y].moved) continue;
                bool eq = L[x].m == L[y].m;
                REQUIRE((*L[x].l == *L[y].l) == eq && (*L[x].l != *L[y].l) == !eq, "after %s: lists %d and %d compare wrongly", what.c_str(), x, y);
            }
        }
        for(int x = 0; x < 2; x++) {
            REQUIRE(C[x].c->size() == C[x].m.size(), "after %s: corpus has %zu documents, expected %zu", what.c_str(), C[x].c->size(), C[x].m.size());
            size_t n = C[x].m.size(), step = n > 20 ? n / 10 : 1;
            for(size_t d = 0; d < n; d += step) checkDoc(C[x].c->getDocument(d), C[x].m[d], {probe[0]}, fmt("after %s, corpus %d document %zu", what.c_str(), x, d));
            if(n) checkDoc(C[x].c->getDocument(n - 1), C[x].m[n - 1], {probe[0]}, fmt("after %s, last document of corpus %d", what.c_str(), x));
            for(size_t bad : {n, (size_t)1 << 32, (size_t)-1}) {
                bool threw = false;
                try { C[x].c->getDocument(bad); } catch(const std::exception &) { threw = true; }
                REQUIRE(threw, "after %s: reading document %zu of %zu was not refused", what.c_str(), bad, n);
            }
        }
    }
    if(changed) ctx.nontrivial();
}
} // namespace pbt
