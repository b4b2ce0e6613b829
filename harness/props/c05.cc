// C05: two indexing histories of the same documents; searches leave no trace.
#include "world.hh"
namespace pbt {
const char *PROP_ID = "C05";
const char *PROP_RULE = "the same documents indexed once as one corpus, and again permuted, split into several corpora and interleaved with arbitrary searches; "
                        "all probe queries compared; non-trivial when the second history has at least two corpora, an interleaved search, and a probe query with results";
void process_setup() {}
using namespace world;
using namespace Columbus;

static vector<pair<Id, double>> seq(const MatchResults &r) {
    vector<pair<Id, double>> v;
    for(size_t i = 0; i < r.size(); i++) v.push_back({r.getDocumentID(i), r.getRelevancy(i)});
    return v;
}
// map, "refused", never mixed
static std::pair<bool, map<Id, double>> online(Matcher &m, const vector<U> &q, const U &f) {
    try { return {true, toMap(m.onlineMatch(mkList(q), mk(f)), "onlineMatch")}; }
    catch(const std::invalid_argument &) { return {false, {}}; }
}

void run_case(Gen &g, Ctx &ctx) {
    Shape s = genShape(g, false);
    s.crowd = 70000;
    if(s.maxDocs > 300) s.maxDocs = 300;
    s.emptyWords = g.chance(1, 8);
    World w = genWorld(g, s, true);
    logDocs(ctx, w.docs);
    Matcher m1, m2;
    // The same costs on both sides, through the same calls.
    {
        int mode = (int)g.upto(2);
        for(Matcher *m : {&m1, &m2}) {
            if(mode == 1) m->getErrorValues().setSubstringMode();
            if(mode == 2) { m->getErrorValues().addKeyboardErrors(); m->getErrorValues().setTransposeError(40); }
        }
    }
    size_t nw = g.small(3);
    for(size_t i = 0; i < nw; i++) {
        const U &f = g.pick(w.fieldNames);
        double v = g.oneOf<double>({0.5, 2.0, 3.0});
        m1.getIndexWeights().setWeight(mk(f), v);
        m2.getIndexWeights().setWeight(mk(f), v);
    }
    indexAll(m1, w.docs);
    // Second history.
    vector<Doc> perm = w.docs;
    for(size_t i = perm.size(); i > 1; i--) std::swap(perm[i - 1], perm[g.upto(i - 1)]);
    size_t pos = 0, parts = 0, searches = 0;
    while(pos < perm.size()) {
        size_t n = 1 + (perm.size() > 40 ? g.upto(perm.size() - pos - 1) : g.small(perm.size() - pos - 1));
        vector<Doc> part(perm.begin() + pos, perm.begin() + pos + n);
        pos += n;
        parts++;
        indexAll(m2, part, g.flip());
        size_t k = g.small(3);
        for(size_t i = 0; i < k; i++) {
            searches++;
            vector<U> q = genQuery(g, w, 3, s.emptyWords);
            ctx.logf("after %zu documents: search %s", pos, showList(q).c_str());
            switch(g.upto(2)) {
            case 0: m2.match(mkList(q)); break;
            case 1: {
                SearchParameters sp;
                genParams(g, w, sp, ctx, s.emptyWords, true, true);
                auto a = seq(m2.match(mkList(q), sp)), b = seq(m2.match(mkList(q), sp));
                REQUIRE(a == b, "repeating a filtered search gave a different result list (%zu and %zu results)", a.size(), b.size());
                break;
            }
            case 2: {
                U f = g.chance(1, 3) ? genWord(g, {'u', 'v'}, 1, 3) : g.pick(w.fieldNames);
                auto a = online(m2, q, f), b = online(m2, q, f);
                REQUIRE(a == b, "repeating an online search gave different results");
                break;
            }
            }
        }
    }
    size_t nq = 1 + g.upto(3);
    bool hits = false;
    for(size_t k = 0; k < nq; k++) {
        vector<U> q = genQuery(g, w, 3, s.emptyWords);
        ctx.log("probe " + showList(q));
        auto a = toMap(m1.match(mkList(q)), "match (one corpus)");
        MatchResults r2 = m2.match(mkList(q)), r3 = m2.match(mkList(q));
        auto b = toMap(r2, "match (several corpora)");
        compare(a, b, "indexed in several corpora with searches in between");
        REQUIRE(seq(r2) == seq(r3), "repeating a search gave a different result list");
        if(!a.empty()) hits = true;
        // Fields, near-words and unknown names as the primary field.
        U f = g.chance(1, 3) ? (g.flip() ? genWord(g, {'u', 'v'}, 1, 3) : genQueryWord(g, w)) : g.pick(w.fieldNames);
        auto o1 = online(m1, q, f), o2 = online(m2, q, f);
        REQUIRE(o1.first == o2.first, "online search with primary field %s is %s after one history and %s after the other", show(f).c_str(),
                o1.first ? "accepted" : "refused", o2.first ? "accepted" : "refused");
        compare(o1.second, o2.second, "online match, several corpora");
        SearchParameters sp;
        genParams(g, w, sp, ctx, s.emptyWords, true, true);
        compare(toMap(m1.match(mkList(q), sp), "filtered"), toMap(m2.match(mkList(q), sp), "filtered"), "filtered match, several corpora");
    }
    if(parts > 1) ctx.label("several corpora");
    if(parts > 1 && searches && hits) ctx.nontrivial();
}
} // namespace pbt
