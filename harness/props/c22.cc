// C22: configuration objects.
#include "lib.hh"
#include "IndexWeights.hh"
#include "ResultFilter.hh"
#include "SearchParameters.hh"
#include "Matcher.hh"
#include <memory>
#include <type_traits>
namespace pbt {
const char *PROP_ID = "C22";
const char *PROP_RULE = "1-60 set, add, clear, copy (where the type allows it) and destroy calls over several weights, filters, search parameters and error value objects, some of them owned by a matcher, with everything "
                        "read back from all of them after each change; non-trivial when at least two objects of one kind hold different settings, or an entry was overwritten";
void process_setup() {}
using namespace lib;
using namespace Columbus;

static double genWeight(Gen &g) {
    return g.chance(2, 3) ? g.oneOf<double>({1.0, 0.0, 2.0, 0.5, 1e300, 1e-300, -1.0, 3.3}) : (double)g.range(-100000, 100000) / 77.0;
}
struct Names { vector<U> n; };

struct WeightsModel { map<U, double> m; };
struct FilterModel { vector<vector<pair<U, U>>> t{1}; };
struct ParamsModel { bool dyn = true; set<U> no; FilterModel f; };
struct ErrorsModel { Costs c; };

static void readBack(const IndexWeights &o, const WeightsModel &m, const Names &n, const string &who) {
    if(m.m.size() > n.n.size()) for(auto &x : m.m) { double got = o.getWeight(mk(x.first)); REQUIRE(got == x.second, "%s: weight of %s is %.17g, expected %.17g", who.c_str(), show(x.first).c_str(), got, x.second); }
    for(auto &x : n.n) {
        auto it = m.m.find(x);
        double want = it == m.m.end() ? 1.0 : it->second, got = o.getWeight(mk(x));
        REQUIRE(got == want, "%s: weight of %s is %.17g, expected %.17g", who.c_str(), show(x).c_str(), got, want);
    }
}
template<typename F> static void outOfRange(F f, const string &who, const char *what, size_t a, size_t b) {
    bool threw = false;
    try { f(); } catch(const std::exception &) { threw = true; }
    REQUIRE(threw, "%s: %s(%zu, %zu) was not refused", who.c_str(), what, a, b);
}
static void readBack(const ResultFilter &o, const FilterModel &m, const Names &, const string &who) {
    REQUIRE(o.numTerms() == m.t.size(), "%s: filter has %zu terms, expected %zu", who.c_str(), o.numTerms(), m.t.size());
    for(size_t i = 0; i < m.t.size(); i++) {
        REQUIRE(o.numSubTerms(i) == m.t[i].size(), "%s: term %zu has %zu subterms, expected %zu", who.c_str(), i, o.numSubTerms(i), m.t[i].size());
        for(size_t j = 0; j < m.t[i].size(); j++) {
            U f = letters(o.getField(i, j)), w = letters(o.getWord(i, j));
            REQUIRE(f == m.t[i][j].first && w == m.t[i][j].second, "%s: subterm (%zu, %zu) is (%s, %s), expected (%s, %s)", who.c_str(), i, j,
                    show(f).c_str(), show(w).c_str(), show(m.t[i][j].first).c_str(), show(m.t[i][j].second).c_str());
        }
        for(size_t j : {m.t[i].size(), m.t[i].size() + 1, (size_t)1 << 32, (size_t)-1}) {
            outOfRange([&] { o.getField(i, j); }, who, "getField", i, j);
            outOfRange([&] { o.getWord(i, j); }, who, "getWord", i, j);
        }
    }
    for(size_t i : {m.t.size(), m.t.size() + 7, (size_t)1 << 32, (size_t)-1}) {
        outOfRange([&] { o.numSubTerms(i); }, who, "numSubTerms", i, 0);
        outOfRange([&] { o.getField(i, 0); }, who, "getField", i, 0);
        outOfRange([&] { o.getWord(i, 0); }, who, "getWord", i, 0);
    }
}
static void readBack(const SearchParameters &o, const ParamsModel &m, const Names &n, const string &who) {
    REQUIRE(o.isDynamic() == m.dyn, "%s: isDynamic() is %d", who.c_str(), (int)o.isDynamic());
    for(auto &x : n.n) {
        bool got = o.isNonsearchingField(mk(x)), want = m.no.count(x) > 0;
        REQUIRE(got == want, "%s: isNonsearchingField(%s) is %d, expected %d", who.c_str(), show(x).c_str(), (int)got, (int)want);
        int e = o.getDynamicError(mk(x)), we = x.size() < 2 ? 100 : 200;
        REQUIRE(e == we, "%s: dynamic error of %s is %d, expected %d", who.c_str(), show(x).c_str(), e, we);
    }
    readBack(o.getResultFilter(), m.f, n, who);
}
static void readBack(const ErrorValues &o, const ErrorsModel &m, const Names &n, const string &who) {
    const Costs &c = m.c;
    REQUIRE(o.getInsertionError() == c.ins, "%s: insertion error %d, expected %d", who.c_str(), o.getInsertionError(), c.ins);
    REQUIRE(o.getDeletionError() == c.del, "%s: deletion error %d, expected %d", who.c_str(), o.getDeletionError(), c.del);
    REQUIRE(o.getEndDeletionError() == c.endDel, "%s: end deletion error %d, expected %d", who.c_str(), o.getEndDeletionError(), c.endDel);
    REQUIRE(o.getTransposeError() == c.trans, "%s: transpose error %d, expected %d", who.c_str(), o.getTransposeError(), c.trans);
    for(size_t l : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)4, c.limit ? c.limit - 1 : 0, c.limit, c.limit + 1, c.limit / 2, (size_t)1000, (size_t)70000, (size_t)1 << 40})
        REQUIRE(o.getStartInsertionError(l) == c.startCost(l), "%s: start insertion error for %zu letters is %d, expected %d", who.c_str(), l, o.getStartInsertionError(l), c.startCost(l));
    vector<uint32_t> ls = {'a', 'b', 'z', 0xe9, 0x3b1, 0x8000};
    for(auto &x : n.n) for(uint32_t u : x) if(ls.size() < 14 && !isHigh(u) && !isLow(u)) ls.push_back(u);
    for(auto &s : c.single) if(ls.size() < 22) { ls.push_back(s.first.first); ls.push_back(s.first.second); }
    for(uint32_t a : ls)
        for(uint32_t b : ls) {
            int got = o.getSubstituteError(Letter((Letter_)a), Letter((Letter_)b)), want = c.sub(a, b);
            REQUIRE(got == want, "%s: substituting U+%04X by U+%04X costs %d, expected %d", who.c_str(), a, b, got, want);
        }
}

template<typename T, typename M> struct Slot {
    std::unique_ptr<Matcher> owner; // when the object lives inside a matcher
    std::unique_ptr<T> own;
    T *o = nullptr;
    M m;
    bool changed = false;
};
template<typename T> static T *inside(Matcher &) { return nullptr; }
template<> IndexWeights *inside<IndexWeights>(Matcher &m) { return &m.getIndexWeights(); }
template<> ErrorValues *inside<ErrorValues>(Matcher &m) { return &m.getErrorValues(); }

template<typename T, typename M> static void fresh(Slot<T, M> &s, bool owned) {
    s.own.reset();
    s.owner.reset();
    s.m = M();
    s.changed = false;
    if(owned) {
        s.owner.reset(new Matcher());
        s.o = inside<T>(*s.owner);
    }
    if(!owned || !s.o) { s.own.reset(new T()); s.o = s.own.get(); }
}

static bool change(Gen &g, IndexWeights &o, WeightsModel &m, const Names &n, string &what) {
    if(g.chance(1, 200)) { // many fields
        size_t t = edgeLen(g, 600);
        U f = g.pick(n.n);
        for(size_t i = 0; i < t; i++) { U x = f; for(size_t v = i; v; v /= 26) x += (char32_t)('a' + v % 26); o.setWeight(mk(x), (double)i); m.m[x] = (double)i; }
        what = fmt("%zu weights", t);
        return true;
    }
    const U &f = g.pick(n.n);
    double v = genWeight(g);
    bool over = m.m.count(f) && m.m[f] != v;
    o.setWeight(mk(f), v);
    m.m[f] = v;
    what = fmt("weight of %s = %g", show(f).c_str(), v);
    return over;
}
static bool change(Gen &g, ResultFilter &o, FilterModel &m, const Names &n, string &what) {
    if(g.chance(1, 200)) {
        size_t t = edgeLen(g, 300), s = g.flip() ? 0 : edgeLen(g, 300);
        for(size_t i = 0; i < t; i++) { o.addNewTerm(); m.t.push_back({}); }
        for(size_t i = 0; i < s; i++) { const U &f = n.n[i % n.n.size()], &w = n.n[(i + 1 + i / 7) % n.n.size()]; o.addNewSubTerm(mk(f), mk(w)); m.t.back().push_back({f, w}); }
        what = fmt("%zu new terms, %zu subterms", t, s);
        return true;
    }
    if(g.chance(1, 3)) { o.addNewTerm(); m.t.push_back({}); what = "new term"; return false; }
    U f = g.pick(n.n), w = g.pick(n.n);
    if(g.chance(1, 8) && !m.t[0].empty()) { // a reference into the filter itself
        o.addNewSubTerm(o.getField(0, 0), o.getWord(0, 0));
        f = m.t[0][0].first; w = m.t[0][0].second;
    } else o.addNewSubTerm(mk(f), mk(w));
    m.t.back().push_back({f, w});
    what = "subterm " + show(f) + ":" + show(w);
    return m.t.size() > 1;
}
static bool change(Gen &g, SearchParameters &o, ParamsModel &m, const Names &n, string &what) {
    switch(g.upto(3)) {
    case 0: { bool d = g.flip(); bool over = d != m.dyn; o.setDynamic(d); m.dyn = d; what = d ? "dynamic on" : "dynamic off"; return over; }
    case 1: if(g.chance(1, 60)) {
            size_t t = edgeLen(g, 300);
            U f = g.pick(n.n);
            for(size_t i = 0; i < t; i++) { U x = f; for(size_t v = i; v; v /= 26) x += (char32_t)('a' + v % 26); o.addNonsearchingField(mk(x)); m.no.insert(x); }
            what = fmt("%zu nonsearching fields", t);
            return true;
        } else { const U &f = g.pick(n.n); o.addNonsearchingField(mk(f)); bool again = !m.no.insert(f).second; what = "nonsearching " + show(f); return again; }
    default: return change(g, o.getResultFilter(), m.f, n, what);
    }
}
static bool change(Gen &g, ErrorValues &o, ErrorsModel &m, const Names &n, string &what) {
    Costs &c = m.c;
    int e = genCost(g);
    switch(g.upto(9)) {
    case 0: o.setInsertionError(e); c.ins = e; what = fmt("insertion %d", e); return true;
    case 1: o.setDeletionError(e); c.del = e; what = fmt("deletion %d", e); return true;
    case 2: o.setEndDeletionError(e); c.endDel = e; what = fmt("end deletion %d", e); return true;
    case 3: o.setStartInsertionError(e); c.startIns = e; what = fmt("start insertion %d", e); return true;
    case 4: o.setTransposeError(e); c.trans = e; what = fmt("transpose %d", e); return true;
    case 5: { size_t l = g.chance(1, 3) ? ((size_t)1 << g.upto(40)) - 1 + g.upto(2) : g.upto(8); o.setSubstringStartLimit(l); c.limit = l; what = fmt("substring limit %zu", l); return true; }
    case 6: o.setSubstringMode(); c.substring(); what = "substring mode"; return true;
    case 7: if(!g.chance(1, 4)) { what = "-"; return false; } o.clearErrors(); c.clear(); what = "clear"; return true;
    default: {
        const U &x = g.pick(n.n), &y = g.pick(n.n);
        uint32_t a = x[g.upto(x.size() - 1)], b = y[g.upto(y.size() - 1)];
        if(a == b || isHigh(a) || isLow(a) || isHigh(b) || isLow(b)) { what = "-"; return false; }
        bool over = c.single.count(Costs::key(a, b)) > 0;
        o.setError(Letter((Letter_)a), Letter((Letter_)b), e);
        c.setError(a, b, e);
        what = fmt("U+%04X/U+%04X = %d", a, b, e);
        return over;
    }
    }
}

// Copies only where the type can be copied, so the check compiles either way.
template<typename T, typename M> static bool copyFrom(Slot<T, M> &x, Slot<T, M> &y, bool assign) {
    if constexpr(std::is_copy_assignable<T>::value) {
        if(assign) { *x.o = *y.o; x.m = y.m; return true; }
    }
    if constexpr(std::is_copy_constructible<T>::value) {
        std::unique_ptr<T> t(new T(*y.o));
        x.own = std::move(t);
        x.owner.reset();
        x.o = x.own.get();
        x.m = y.m;
        return true;
    }
    return false;
}

template<typename T, typename M> static void history(Gen &g, Ctx &ctx, const char *kind, const Names &n) {
    Slot<T, M> S[3];
    for(auto &s : S) fresh(s, g.chance(1, 3));
    size_t ops = 1 + g.upto(59);
    for(size_t k = 0; k < ops; k++) {
        size_t i = g.upto(2), j = g.upto(2);
        string what;
        switch(g.weighted({80, 6, 14})) {
        case 0: if(change(g, *S[i].o, S[i].m, n, what)) ctx.nontrivial(); S[i].changed = true; what = fmt("%s %zu: ", kind, i) + what; break;
        case 1: fresh(S[i], g.chance(1, 3)); what = fmt("%s %zu is replaced by a new one", kind, i); break;
        default: {
            bool assign = g.flip();
            if(i == j && !assign) continue;
            if(!copyFrom(S[i], S[j], assign)) continue;
            ctx.nontrivial();
            what = fmt("%s %zu = copy of %zu", kind, i, j);
            ctx.label("copied");
        }
        }
        ctx.log(what);
        for(size_t t = 0; t < 3; t++) readBack(*S[t].o, S[t].m, n, fmt("%s %zu after \"%s\"", kind, t, what.c_str()));
    }
    if(S[0].changed && S[1].changed) ctx.nontrivial();
}

void run_case(Gen &g, Ctx &ctx) {
    Names n;
    Alpha a = genAlpha(g, true);
    size_t k = 2 + g.upto(8);
    for(size_t i = 0; i < k; i++) {
        U w = n.n.empty() || g.flip() ? genWord(g, a, 1, g.chance(1, 15) ? 300 : 5) : mutate(g, a, g.pick(n.n));
        if(w.empty() || !wellFormed(w)) w = U(1, U'f');
        n.n.push_back(w);
    }
    switch(g.upto(3)) {
    case 0: ctx.label("weights"); history<IndexWeights, WeightsModel>(g, ctx, "weights", n); break;
    case 1: ctx.label("filter"); history<ResultFilter, FilterModel>(g, ctx, "filter", n); break;
    case 2: ctx.label("parameters"); history<SearchParameters, ParamsModel>(g, ctx, "parameters", n); break;
    default: ctx.label("errors"); history<ErrorValues, ErrorsModel>(g, ctx, "errors", n); break;
    }
}
} // namespace pbt
