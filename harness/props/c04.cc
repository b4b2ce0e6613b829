// C04: filters and non-searchable fields.
#include "world.hh"
namespace pbt {
const char *PROP_ID = "C04";
const char *PROP_RULE = "a generated collection, a query, a filter of 1-5 terms with 0-3 subterms each (real, near and unknown field/word pairs) and 0-3 non-searchable fields; "
                        "non-trivial when the filter keeps some and drops some of the unfiltered results";
void process_setup() {}
using namespace world;
using namespace Columbus;

void run_case(Gen &g, Ctx &ctx) {
    Shape s = genShape(g, ctx.tier == "thorough");
    s.crowd = 70000;
    s.emptyWords = g.chance(1, 8);
    if(s.maxText < 6) s.maxText = 6;
    World w = genWorld(g, s, g.chance(4, 5));
    logDocs(ctx, w.docs);
    Matcher m;
    Engine eng;
    eng.costs = genCosts(g, w.alpha, m.getErrorValues(), true, true);
    indexAll(m, w.docs);
    eng.index(w.docs);
    genWeights(g, w, eng, m, ctx);
    size_t nq = w.docs.size() > 5000 ? 1 : 1 + g.upto(2);
    for(size_t k = 0; k < nq; k++) {
        vector<U> q = genQuery(g, w, 3);
        if(k && g.chance(1, 4)) between(g, w, eng, m, ctx);
        ctx.log("query " + showList(q));
        SearchParameters sp, unfiltered;
        Params p = genParams(g, w, sp, ctx, s.emptyWords, true, g.chance(1, 2));
        unfiltered.setDynamic(p.dynamic);
        for(auto &f : p.nosearch) unfiltered.addNonsearchingField(mk(f));
        Params pu = p;
        pu.filter = Filter();
        auto all = toMap(m.match(mkList(q), unfiltered), "unfiltered match");
        auto got = toMap(m.match(mkList(q), sp), "filtered match");
        // Relation between the two searches, independent of the scoring model.
        map<Id, double> want;
        for(auto &x : all) if(eng.passes(x.first, p.filter)) want.insert(x);
        compare(want, got, "filtered match");
        // And the unfiltered one is right about which fields take part.
        compare(eng.match(q, pu), all, "match with non-searchable fields");
        if(!p.nosearch.empty()) ctx.label("non-searchable field");
        if(want.size() < all.size() && !want.empty()) { ctx.nontrivial(); ctx.label("partial"); }
        if(want.empty() && !all.empty()) ctx.label("all dropped");
        if(p.filter.terms.size() > 1) ctx.label("several terms");
        // The same parameters object used again gives the same.
        compare(got, toMap(m.match(mkList(q), sp), "filtered match again"), "filtered match again");
        // And changed after it was used.
        if(g.chance(1, 3)) {
            const U &f = g.pick(w.fieldNames), &x = g.pick(w.vocab);
            switch(g.upto(3)) {
            case 0: sp.getResultFilter().addNewTerm(); p.filter.terms.push_back({}); // fall through
            case 1: sp.getResultFilter().addNewSubTerm(mk(f), mk(x)); p.filter.terms.back().push_back({f, x}); ctx.log("then subterm " + show(f) + ":" + show(x)); break;
            case 2: sp.addNonsearchingField(mk(f)); p.nosearch.insert(f); ctx.log("then nonsearching " + show(f)); break;
            case 3: p.dynamic = !p.dynamic; sp.setDynamic(p.dynamic); ctx.log("then dynamic switched"); break;
            }
            compare(eng.match(q, p), toMap(m.match(mkList(q), sp), "match with changed parameters"), "match with changed parameters");
            ctx.label("parameters changed after use");
        }
    }
}
} // namespace pbt
