// C06: Matcher::onlineMatch against the reference engine plus bonuses.
#include "world.hh"
namespace pbt {
const char *PROP_ID = "C06";
const char *PROP_RULE = "a generated collection, queries built from a document's own primary field (exact, permuted, subset, extended, mutated) or at random, in error configurations where exact words may "
                        "or may not be fuzzy hits; non-trivial when some document gets an exact-word bonus";
void process_setup() {}
using namespace world;
using namespace Columbus;

void run_case(Gen &g, Ctx &ctx) {
    Shape s = genShape(g, false);
    s.crowd = 20000;
    if(s.maxDocs > 300) s.maxDocs = 300;
    World w = genWorld(g, s, true);
    logDocs(ctx, w.docs);
    Matcher m;
    Engine eng;
    eng.costs = genCosts(g, w.alpha, m.getErrorValues(), true);
    indexAll(m, w.docs, g.flip());
    eng.index(w.docs);
    bool longText = false;
    if(g.chance(1, 10)) { // identical documents indexed once more
        indexAll(m, w.docs);
        eng.index(w.docs);
        ctx.label("indexed twice");
    }
    if(g.chance(1, 300)) { // a long primary text of different words
        Doc d;
        d.id = 88888888;
        size_t n = edgeLen(g, 700), salt = g.upto(1000);
        vector<U> &text = d.fields[w.fieldNames[0]];
        for(size_t i = 0; i < n; i++) text.push_back(numWord(salt * 1000 + i));
        w.docs.push_back(d);
        if(g.flip()) { // and one that differs in one word
            d.id++;
            d.fields[w.fieldNames[0]][g.upto(n - 1)] = g.flip() ? numWord(salt * 1000 + n) : text[g.upto(n - 1)];
            w.docs.push_back(d);
        }
        vector<Doc> more(w.docs.end() - (d.id == 88888888 ? 1 : 2), w.docs.end());
        logDocs(ctx, more);
        indexAll(m, more);
        eng.index(more);
        longText = true;
        ctx.label("long text of different words");
    }
    if(g.chance(1, 8) && !longText && w.docs.size() < 1000) { // A document comes again, its text says the same or more.
        size_t n = g.upto(w.docs.size() - 1);
        Doc &d = w.docs[n];
        for(auto &f : d.fields) {
            if(f.second.size() > 50 || g.chance(1, 3)) continue;
            set<U> distinct(f.second.begin(), f.second.end());
            vector<U> text(distinct.begin(), distinct.end());
            size_t more = g.upto(3);
            for(size_t i = 0; i < more; i++) {
                U x = text.empty() || g.chance(1, 3) ? g.pick(w.vocab) : g.pick(text);
                if(!x.empty()) text.push_back(x);
            }
            f.second = text;
        }
        vector<Doc> again(1, d);
        logDocs(ctx, again);
        indexAll(m, again);
        eng.index(again);
        ctx.label("indexed again with other words");
    }
    genWeights(g, w, eng, m, ctx);
    size_t nq = w.docs.size() > 5000 ? 1 : 1 + g.upto(3);
    vector<U> beforeQuery;
    U beforeField;
    for(size_t k = 0; k < nq; k++) {
        vector<U> q;
        U primary;
        bool repeat = k && g.chance(1, 4);
        if(k && g.chance(1, 3)) between(g, w, eng, m, ctx);
        const Doc &d = longText && g.chance(2, 3) ? w.docs.back() : g.pick(w.docs);
        bool fromDoc = g.chance(3, 4) && !d.fields.empty();
        if(fromDoc) {
            auto it = d.fields.begin();
            std::advance(it, g.upto(d.fields.size() - 1));
            primary = it->first;
            q = it->second;
            if(q.size() > 8 && !longText && !g.chance(1, 3)) q.resize(8);
            if(q.size() > 700) q.resize(700);
            if(g.chance(1, 3)) for(size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[g.upto(i - 1)]);
            if(g.chance(1, 5) && !q.empty()) q.pop_back();
            if(g.chance(1, 5)) q.push_back(genQueryWord(g, w));
            if(g.chance(1, 6) && !q.empty()) { U x = mutate(g, w.alpha, q[0]); if(!x.empty() && wellFormed(x)) q[0] = x; }
        } else {
            q = genQuery(g, w, 4);
            primary = g.pick(w.fieldNames);
        }
        if(g.chance(1, 12)) primary = genWord(g, {'u', 'v', 'f'}, 1, 4);
        if(!g.chance(1, 4)) { // Mostly without repeated words.
            set<U> seen;
            vector<U> dq;
            for(auto &x : q) if(seen.insert(x).second) dq.push_back(x);
            q = dq;
        } else if(!q.empty() && q.size() < 600 && g.flip()) {
            size_t more = 1 + g.upto(3);
            for(size_t i = 0; i < more; i++) q.push_back(g.pick(q));
        }
        if(repeat) { q = beforeQuery; if(g.chance(2, 3)) primary = beforeField; }
        beforeQuery = q;
        beforeField = primary;
        ctx.log("query " + showList(q) + " primary " + show(primary));
        map<Id, double> got;
        bool refused = false;
        try { got = toMap(m.onlineMatch(mkList(q), mk(primary)), "onlineMatch"); }
        catch(const std::invalid_argument &) { refused = true; }
        bool isField = eng.fields.count(primary) > 0, known = eng.known.count(primary) > 0;
        if(!known) {
            REQUIRE(refused, "primary field %s was never seen but was accepted", show(primary).c_str());
            ctx.label("unknown primary");
            continue;
        }
        if(refused) {
            REQUIRE(!isField, "primary field %s is indexed but was refused", show(primary).c_str());
            continue; // a word that is no field: either answer will do
        }
        auto want = eng.match(q, Params());
        if(isField) {
            for(auto &doc : w.docs) {
                auto it = doc.fields.find(primary);
                if(it == doc.fields.end()) continue;
                size_t n = 0;
                for(auto &x : q) if(std::find(it->second.begin(), it->second.end(), x) != it->second.end()) n++;
                if(!n) continue;
                if(!want.count(doc.id)) { want[doc.id] = 0; ctx.label("only exact"); }
                want[doc.id] += 2.0 * n;
                if(n == q.size() && n == it->second.size()) {
                    vector<U> a = q, b = it->second;
                    std::sort(a.begin(), a.end());
                    std::sort(b.begin(), b.end());
                    bool same = a == b;
                    // All words present but not as often: not specified.
                    if(same || (got.count(doc.id) && got[doc.id] > want[doc.id] + 50)) want[doc.id] += 100;
                    ctx.label(same ? "perfect" : "perfect but for repetitions");
                }
                ctx.nontrivial();
            }
        }
        compare(want, got, "onlineMatch");
    }
}
} // namespace pbt
