// C01: LevenshteinIndex::findWords against a brute-force weighted OSA distance.
#include "lib.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
namespace pbt {
const char *PROP_ID = "C01";
const char *PROP_RULE = "a dictionary of related words (mutations, prefixes, extensions), random non-negative costs, several queries and error limits; "
                        "non-trivial when some query has both a match at non-zero error and a dictionary word outside the limit";
void process_setup() {}
using namespace lib;
using namespace Columbus;

void run_case(Gen &g, Ctx &ctx) {
    Alpha a = genAlpha(g, true);
    size_t maxWords = 25, maxLen = 6;
    switch(g.weighted({60, 15, 12, 6, 5, 2})) {
    case 0: break;
    case 1: maxWords = 120; maxLen = 9; break;
    case 2: maxWords = 8; maxLen = 14; break;
    case 3: maxWords = 4; maxLen = 70; break;
    case 4: maxWords = 1200; maxLen = 7; ctx.label("large dictionary"); break;
    case 5: maxWords = 8000; maxLen = 8; a.clear(); for(uint32_t c = 'a'; c < 'k'; c++) a.push_back(c); ctx.label("very large dictionary"); break;
    }
    vector<U> dict = genDict(g, a, maxWords, maxLen);
    if(g.chance(1, 20)) {
        U base = genLong(g, a, 1030);
        dict.push_back(base);
        dict.push_back(mutate(g, a, base));
        if(base.size() > 5 && wellFormed(base.substr(0, 5))) dict.push_back(base.substr(0, 5));
        if(base.size() > 100) ctx.label("word over 100 letters");
    }
    bool wide = g.chance(1, 30);
    if(wide) { // very many siblings below one node
        size_t n = g.chance(1, 40) ? 1000 + g.upto(3000) : 100 + g.upto(400);
        for(size_t i = 0; i < n; i++) { U w(1, (char32_t)a[0] > 0xffff ? U'a' : (char32_t)a[0]); w += (char32_t)(0x4e00 + i); dict.push_back(w); }
        ctx.label("wide node");
    }
    bool deep = g.chance(1, 1000);
    if(deep) { // the search must not depend on the stack's size
        size_t n = g.oneOf<size_t>({30000, 65534, 65535, 65536, 65537, 150000});
        dict.push_back(U(n, (char32_t)(a[0] > 0xffff ? 'a' : a[0])) + U(g.upto(2), U'q'));
        ctx.label("word over 10000 letters");
    }
    vector<U> uniq;
    map<U, WordID> ids;
    LevenshteinIndex ind;
    IdScheme scheme(g);
    for(auto &w : dict) {
        if(w.empty() || !wellFormed(w)) continue;
        auto it = ids.find(w);
        if(it == ids.end()) {
            WordID id = scheme.nth(uniq.size());
            it = ids.insert({w, id}).first;
            uniq.push_back(w);
        }
        ind.insertWord(mk(w), it->second);
    }
    if(uniq.size() <= 60) ctx.log("dictionary " + showList(uniq));
    else ctx.logf("dictionary of %zu words, first %s", uniq.size(), show(uniq[0]).c_str());
    if(uniq.empty()) return;
    map<WordID, U> byId;
    for(auto &x : ids) byId[x.second] = x.first;

    ErrorValues e;
    bool longWords = false;
    for(auto &w : uniq) if(w.size() > 500) longWords = true;
    Costs c = genCosts(g, a, e, false, !longWords);
    bool huge = !longWords && g.chance(1, 30);
    if(huge) { // every cost far above what is usual
        auto cost = [&]() { return g.oneOf<int>({100, 9999, 10000, 10001, 15000, 20000, 32767, 32768, 40000}); };
        c.ins = cost(); e.setInsertionError(c.ins);
        c.del = cost(); e.setDeletionError(c.del);
        c.endDel = cost(); e.setEndDeletionError(c.endDel);
        c.startIns = cost(); e.setStartInsertionError(c.startIns);
        c.trans = cost(); e.setTransposeError(c.trans);
        for(size_t i = 0; i < a.size() && i < 8; i++) for(size_t j = 0; j < i; j++) if(g.chance(9, 10) && a[i] <= 0xffff && a[j] <= 0xffff && a[i] != a[j]) {
            int v = cost();
            c.setError(a[i], a[j], v);
            e.setError(Letter((Letter_)a[i]), Letter((Letter_)a[j]), v);
        }
        ctx.label("huge costs");
    }
    if(deep) { c.endDel = g.upto(1); e.setEndDeletionError(c.endDel); }
    ctx.log("costs " + showCosts(c));
    size_t nq = deep ? 2 : uniq.size() > 500 ? 3 : 1 + g.upto(5);
    bool far = false, fuzzy = false;
    U before;
    for(size_t k = 0; k < nq; k++) {
        U q;
        // The table of costs and the index may have been used already.
        if(k && !deep && g.chance(1, 5)) { ctx.log("then " + changeCosts(g, a, c, e)); ctx.label("costs changed between searches"); }
        if(k && uniq.size() < 200 && g.chance(1, 6)) {
            U w = mutate(g, a, g.pick(uniq));
            if(!w.empty() && wellFormed(w)) {
                auto it = ids.find(w);
                if(it == ids.end()) {
                    it = ids.insert({w, scheme.nth(uniq.size())}).first;
                    uniq.push_back(w);
                    byId[it->second] = w;
                }
                ctx.log("insert " + show(w));
                ind.insertWord(mk(w), it->second);
                ctx.label("inserted between searches");
            }
        }
        switch(g.weighted({15, 55, 15, 12, 3})) {
        case 0: q = g.pick(uniq); break;
        case 1: q = mutate(g, a, g.pick(uniq)); break;
        case 2: q = genWord(g, a, 1, maxLen); break;
        case 3: { const U &v = g.pick(uniq); size_t s = g.upto(v.size() - 1); q = v.substr(s, 1 + g.upto(v.size() - s - 1)); break; }
        case 4: break; // empty query
        }
        if(!wellFormed(q)) continue;
        if(deep && q.size() > 20) q.resize(20);
        if(!wellFormed(q)) continue;
        if(k && g.chance(1, 5)) q = before;
        before = q;
        if(q.empty()) ctx.label("empty query");
        int maxError = g.chance(3, 4) ? g.oneOf<int>({0, 15, 30, 50, 99, 100, 101, 130, 199, 200, 201, 300, 400}) : (int)g.range(0, 700);
        if(q.size() > 40 && maxError > 400) maxError = 400;
        if(deep || huge) maxError = (int)g.range(0, 200000);
        ctx.logf("query %s max %d", show(q).c_str(), maxError);
        IndexMatches m;
        ind.findWords(mk(q), e, maxError, m);
        map<WordID, int> got;
        int last = -1;
        for(size_t i = 0; i < m.size(); i++) {
            WordID id = m.getMatch(i);
            int err = m.getMatchError(i);
            REQUIRE(byId.count(id), "a word id (%u) that was never inserted was matched", id);
            REQUIRE(got.insert({id, err}).second, "word %s is listed twice", show(byId[id]).c_str());
            REQUIRE(err >= last, "match %zu has error %d after %d: not in non-decreasing order", i, err, last);
            last = err;
        }
        // Brute force over the dictionary (very long words only against long queries, to bound cost).
        for(auto &w : uniq) {
            int d = distance(q, w, c);
            WordID id = ids[w];
            auto it = got.find(id);
            if(d <= maxError) {
                if(d > 0) fuzzy = true;
                REQUIRE(it != got.end(), "word %s is at distance %d of query %s (limit %d) but was not found", show(w).c_str(), d, show(q).c_str(), maxError);
                REQUIRE(it->second == d, "word %s matched query %s with error %d, true distance %d", show(w).c_str(), show(q).c_str(), it->second, d);
            } else {
                far = true;
                REQUIRE(it == got.end(), "word %s was found for query %s with error %d (limit %d) but is at distance %d", show(w).c_str(), show(q).c_str(), it->second, maxError, d);
            }
        }
    }
    if(fuzzy) ctx.label("fuzzy match");
    if(c.startIns != 100 || c.endDel != 100) ctx.label("substring costs");
    if(c.trans != 100) ctx.label("custom transposition cost");
    if(far && fuzzy) ctx.nontrivial();
}
} // namespace pbt
