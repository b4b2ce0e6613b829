// C13: MatchResults.
#include "lib.hh"
#include "MatchResults.hh"
#include <memory>
namespace pbt {
const char *PROP_ID = "C13";
const char *PROP_RULE = "1-60 operations (add, merge, copy a result, copy, move, assign, read) over 4 result lists with few distinct relevancies, exact expected sequence of ids and relevancies; "
                        "non-trivial when a list with ties is modified again after it was read";
void process_setup() {}
using namespace lib;
using namespace Columbus;
typedef vector<pair<double, uint64_t>> Seq;
struct Slot { std::unique_ptr<MatchResults> r; Seq m; bool moved = false; bool read = false; };

static Seq shown(const Seq &m) {
    Seq s = m;
    std::stable_sort(s.begin(), s.end(), [](const pair<double, uint64_t> &a, const pair<double, uint64_t> &b) { return a.first > b.first; });
    return s;
}
static void check(Slot &s, const string &what) {
    Seq want = shown(s.m);
    REQUIRE(s.r->size() == want.size(), "%s: %zu results, expected %zu", what.c_str(), s.r->size(), want.size());
    for(int pass = 0; pass < 2; pass++)
        for(size_t i = 0; i < want.size(); i++) {
            double rel = s.r->getRelevancy(i);
            uint64_t id = s.r->getDocumentID(i);
            REQUIRE(rel == want[i].first && id == want[i].second, "%s: result %zu is document %llu with %g, expected document %llu with %g", what.c_str(), i,
                    (unsigned long long)id, rel, (unsigned long long)want[i].second, want[i].first);
        }
    for(size_t i : {want.size(), want.size() + 3, (size_t)1 << 32, (size_t)-1}) {
        int threw = 0;
        try { s.r->getRelevancy(i); } catch(const std::exception &) { threw++; }
        try { s.r->getDocumentID(i); } catch(const std::exception &) { threw++; }
        MatchResults t;
        try { t.copyResult(*s.r, i); } catch(const std::exception &) { threw++; }
        REQUIRE(threw == 3 && t.size() == 0, "%s: access to result %zu of %zu was not refused", what.c_str(), i, want.size());
    }
    s.read = true;
}

void run_case(Gen &g, Ctx &ctx) {
    Slot S[4];
    for(auto &s : S) s.r.reset(new MatchResults());
    size_t ops = 1 + g.upto(59);
    vector<double> rels = {1.0, 2.0, 0.0, 0.5, 1.0 + 1e-15, -1.0, 1e300, 1e-300, 100.0};
    if(g.flip()) rels.resize(3);
    bool nontriv = false;
    for(size_t k = 0; k < ops; k++) {
        size_t i = g.upto(3), j = g.upto(3);
        Slot &x = S[i], &y = S[j];
        string what;
        switch(g.weighted({35, 10, 15, 6, 8, 5, 5, 16})) {
        case 0: {
            if(x.moved) continue;
            size_t n = g.chance(1, 40) ? edgeLen(g, g.chance(1, 20) ? 70000 : 1030) : 1 + g.upto(3);
            if(x.read && x.m.size() > 1) nontriv = true;
            for(size_t t = 0; t < n; t++) {
                double r = g.chance(1, 6) ? (double)g.range(-1000, 1000) / 7.0 : g.pick(rels);
                uint64_t id = g.chance(1, 10) ? g.draw(UINT64_MAX) : g.upto(20);
                x.r->addResult((DocumentID)id, r);
                x.m.push_back({r, id});
                if(t < 4) what += fmt("add %llu:%g to %zu; ", (unsigned long long)id, r, i);
            }
            break;
        }
        case 1:
            if(x.moved || y.moved || i == j) continue;
            if(x.m.size() + y.m.size() > 150000) continue;
            x.r->addResults(*y.r);
            x.m.insert(x.m.end(), y.m.begin(), y.m.end());
            what = fmt("merge %zu into %zu", j, i);
            break;
        case 2: {
            if(x.moved || y.moved || y.m.empty()) continue;
            size_t p = g.upto(y.m.size() - 1);
            auto r = shown(y.m)[p];
            x.r->copyResult(*y.r, p);
            if(i == j) x.m = shown(x.m); // same content, now known to be sorted
            x.m.push_back(r);
            what = fmt("copy result %zu of %zu to %zu", p, j, i);
            if(i != j && !y.read && y.m.size() > 1) nontriv = true;
            break;
        }
        case 3: if(y.moved || i == j) continue; x.r.reset(new MatchResults(*y.r)); x.m = y.m; x.moved = false; x.read = y.read; what = fmt("%zu = copy of %zu", i, j); break;
        case 4: if(y.moved) continue; *x.r = *y.r; x.m = y.m; x.moved = false; x.read = y.read; what = fmt("assign %zu from %zu", i, j); break;
        case 5: if(y.moved || i == j) continue; *x.r = std::move(*y.r); x.m = y.m; x.moved = false; x.read = y.read; y.moved = true; what = fmt("move %zu into %zu", j, i); break;
        case 6: if(y.moved || i == j) continue; x.r.reset(new MatchResults(std::move(*y.r))); x.m = y.m; x.moved = false; x.read = y.read; y.moved = true; what = fmt("move-construct %zu from %zu", i, j); break;
        case 7: if(x.moved) continue; check(x, fmt("reading %zu", i)); what = fmt("read %zu", i); break;
        }
        ctx.log(what);
    }
    for(int i = 0; i < 4; i++) if(!S[i].moved) check(S[i], fmt("at the end, list %d", i));
    if(nontriv) ctx.nontrivial();
}
} // namespace pbt
