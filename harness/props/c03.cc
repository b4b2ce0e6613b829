// C03: Matcher::match against the reference engine.
#include "world.hh"
namespace pbt {
const char *PROP_ID = "C03";
const char *PROP_RULE = "a generated collection (words related by small edits, repeated words, several fields), random weights and costs, indexed by list or by text, "
                        "several queries by list or text, dynamic error on or off; non-trivial when some document is found through a non-zero error";
void process_setup() {}
using namespace world;
using namespace Columbus;

void run_case(Gen &g, Ctx &ctx) {
    Shape s = genShape(g, ctx.tier == "thorough");
    s.crowd = 70000;
    s.emptyWords = g.chance(1, 6);
    World w = genWorld(g, s, g.chance(4, 5));
    logDocs(ctx, w.docs);
    Matcher m;
    Engine eng;
    eng.costs = genCosts(g, w.alpha, m.getErrorValues(), true, true);
    ctx.log("costs " + showCosts(eng.costs));
    bool text = g.flip();
    indexAll(m, w.docs, text);
    eng.index(w.docs);
    genWeights(g, w, eng, m, ctx);
    if(g.chance(1, 30)) { // a very common word
        size_t n = g.oneOf<size_t>({127, 128, 255, 256, 257, 1000, 70000});
        vector<Doc> extra(1);
        extra[0].id = 77777777;
        U word = g.pick(w.vocab);
        if(word.size() > 12) word.resize(12);
        if(!wellFormed(word)) word = U(1, U'a');
        extra[0].fields[w.fieldNames[0]] = vector<U>(n, word);
        ctx.logf("document 77777777 with %zu times %s", n, show(word).c_str());
        indexAll(m, extra, false);
        eng.index(extra);
        ctx.label("very common word");
    }
    size_t nq = w.docs.size() > 200 ? 2 : 1 + g.upto(4);
    size_t fuzzy = 0, hits = 0;
    vector<U> before;
    for(size_t k = 0; k < nq; k++) {
        vector<U> q = genQuery(g, w, 4, s.emptyWords);
        if(k && g.chance(1, 3)) {
            between(g, w, eng, m, ctx);
            if(g.chance(2, 3)) q = before;
            ctx.label("settings changed between searches");
        } else if(k && w.docs.size() < 100 && g.chance(1, 6)) {
            vector<Doc> again(1, g.pick(w.docs));
            again[0].id ^= (Id)1 << g.upto(62);
            ctx.log("then index"); logDocs(ctx, again);
            indexAll(m, again, text);
            eng.index(again);
            if(g.chance(2, 3)) q = before;
            ctx.label("indexed between searches");
        }
        before = q;
        bool plain = true;
        for(auto &x : q) if(x.empty()) plain = false;
        int how = (int)g.upto(4);
        Params p;
        SearchParameters sp;
        bool params = how >= 3;
        if(params && g.flip()) { p.dynamic = false; sp.setDynamic(false); }
        ctx.log("query " + showList(q) + (p.dynamic ? "" : " not dynamic"));
        map<Id, double> got;
        string qt;
        if(plain) qt = joinText(g, q, true);
        if(how == 0 || !plain) got = params ? toMap(m.match(mkList(q), sp), "match") : toMap(m.match(mkList(q)), "match");
        else if(how == 1) got = toMap(m.match(qt.c_str()), "match(text)");
        else if(how == 2) got = toMap(m.match(qt), "match(string)");
        else if(how == 3) got = toMap(m.match(mkList(q), sp), "match(params)");
        else got = toMap(m.match(qt.c_str(), sp), "match(text, params)");
        auto want = eng.match(q, p, &fuzzy);
        compare(want, got, "match");
        hits += want.size();
    }
    ctx.label(hits ? "some hits" : "no hits");
    if(w.docs.size() > 100) ctx.label("over 100 documents");
    if(eng.fields.size() > 1) ctx.label("several fields");
    if(eng.fields.size() > 20) ctx.label("over 20 fields");
    if(fuzzy && hits) ctx.nontrivial();
}
} // namespace pbt
