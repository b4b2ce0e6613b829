// C20: metamorphic relations of searches.
#include "world.hh"
#include "ColumbusHelpers.hh"
#include <memory>
namespace pbt {
const char *PROP_ID = "C20";
const char *PROP_RULE = "a document collection, cost configuration, field weights and query, searched as they are and after recasing query and documents, changing white space, permuting or repeating query words, renaming "
                        "document ids, and changing one field's weight; non-trivial when the base search finds a document and the transformed input really differs";
void process_setup() {}
using namespace world;
using namespace Columbus;

static void applyCosts(const Costs &c, ErrorValues &e) {
    e.setInsertionError(c.ins);
    e.setDeletionError(c.del);
    e.setEndDeletionError(c.endDel);
    e.setStartInsertionError(c.startIns);
    e.setTransposeError(c.trans);
    e.setSubstringStartLimit(c.limit);
    for(size_t k = 0; k < c.groupErr.size(); k++) {
        U ls;
        for(auto &x : c.group) if(x.second == k) ls += (char32_t)x.first;
        e.setGroupError(mk(ls), c.groupErr[k]);
    }
    for(auto &s : c.single) e.setError(Letter((Letter_)s.first.first), Letter((Letter_)s.first.second), s.second);
}
struct Setup {
    Costs costs;
    map<U, double> weights;
    void apply(Matcher &m) const {
        applyCosts(costs, m.getErrorValues());
        for(auto &w : weights) m.getIndexWeights().setWeight(mk(w.first), w.second);
    }
};
// How a query is put to a matcher.
struct Ask {
    int form = 0; // 0 word list, 1 text, 2 std::string, 3 word list with parameters, 4 text with parameters, 5 online
    bool dynamic = true;
    set<U> nosearch;
    vector<vector<pair<U, U>>> filter;
    U primary;
};
static Word anyCase(Gen &g, const U &w, bool vary) { return vary ? Word(recase(g, w)) : mk(w); }
static std::pair<bool, map<Id, double>> ask(Gen &g, Matcher &m, const Ask &a, const vector<U> &q, bool vary, string *asText) {
    bool text = a.form == 1 || a.form == 2 || a.form == 4;
    string t = text || vary ? joinText(g, q, vary) : string();
    if(asText) *asText = t;
    WordList wl;
    if(!text) {
        if(vary) wl = splitToWords(t.c_str());
        else wl = mkList(q);
    }
    SearchParameters p;
    p.setDynamic(a.dynamic);
    for(auto &f : a.nosearch) p.addNonsearchingField(anyCase(g, f, vary));
    for(size_t i = 0; i < a.filter.size(); i++) {
        if(i) p.getResultFilter().addNewTerm();
        for(auto &s : a.filter[i]) p.getResultFilter().addNewSubTerm(anyCase(g, s.first, vary), anyCase(g, s.second, vary));
    }
    try {
        switch(a.form) {
        case 0: return {true, toMap(m.match(wl), "match")};
        case 1: return {true, toMap(m.match(t.c_str()), "match")};
        case 2: return {true, toMap(m.match(t), "match")};
        case 3: return {true, toMap(m.match(wl, p), "match")};
        case 4: return {true, toMap(m.match(t.c_str(), p), "match")};
        default: return {true, toMap(m.onlineMatch(wl, anyCase(g, a.primary, vary)), "onlineMatch")};
        }
    } catch(const std::invalid_argument &) {
        REQUIRE(a.form == 5, "a search was refused");
        return {false, {}};
    }
}
static map<Id, double> renamed(const map<Id, double> &r, const map<Id, Id> &ids) {
    map<Id, double> o;
    for(auto &x : r) o[ids.at(x.first)] = x.second;
    return o;
}

void run_case(Gen &g, Ctx &ctx) {
    Shape s = genShape(g, false);
    s.crowd = 70000;
    if(s.maxDocs > 300) { s.maxDocs = 300; s.maxVocab = 400; }
    World w = genWorld(g, s, true);
    Setup st;
    {
        ErrorValues scratchValues;
        st.costs = genCosts(g, w.alpha, scratchValues, true);
    }
    size_t nw = g.small(3);
    for(size_t i = 0; i < nw; i++) st.weights[g.pick(w.fieldNames)] = g.oneOf<double>({0.5, 2.0, 0.0, 3.3});
    logDocs(ctx, w.docs);
    ctx.log(showCosts(st.costs));
    for(auto &x : st.weights) ctx.logf("weight %s = %g", show(x.first).c_str(), x.second);

    Matcher base, other;
    st.apply(base);
    indexAll(base, w.docs);

    // The transformed collection.
    bool recaseDocs = g.flip(), renameIds = g.flip();
    map<Id, Id> ids;
    set<Id> taken;
    for(auto &d : w.docs) {
        Id n = renameIds ? (g.flip() ? genId(g, 5000 + ids.size() * 7) : d.id + 1000003) : d.id;
        while(n == (Id)-1 || !taken.insert(n).second) n = n == (Id)-1 ? 0 : n + 1;
        ids[d.id] = n;
    }
    bool changedDocs = renameIds;
    {
        st.apply(other);
        Corpus c;
        for(auto &d : w.docs) {
            Document r((DocumentID)ids[d.id]);
            for(auto &f : d.fields) {
                if(recaseDocs) {
                    string t = joinText(g, f.second, true);
                    if(t != joinText(g, f.second, false)) changedDocs = true;
                    r.addText(Word(recase(g, f.first)), t);
                } else r.addText(mk(f.first), mkList(f.second));
            }
            c.addDocument(r);
        }
        other.index(c);
    }
    ctx.logf("documents %s, ids %s", recaseDocs ? "recased and respaced" : "as they are", renameIds ? "renamed" : "kept");

    size_t nq = 1 + g.upto(3);
    for(size_t k = 0; k < nq; k++) {
        vector<U> q = genQuery(g, w, 4);
        Ask a;
        a.form = (int)g.upto(5);
        if(a.form == 3 || a.form == 4) {
            a.dynamic = !g.chance(1, 4);
            if(g.chance(1, 3)) a.nosearch.insert(g.pick(w.fieldNames));
            if(g.chance(1, 3)) {
                size_t terms = 1 + g.upto(1);
                for(size_t t = 0; t < terms; t++) {
                    a.filter.push_back({});
                    const Doc &d = g.pick(w.docs);
                    for(auto &f : d.fields) if(!f.second.empty() && g.flip()) a.filter.back().push_back({f.first, g.pick(f.second)});
                }
            }
        }
        bool online = a.form == 5;
        if(online) {
            a.primary = g.pick(w.fieldNames);
            vector<U> u; // repeated words mean something to the online search
            for(auto &x : q) if(std::find(u.begin(), u.end(), x) == u.end()) u.push_back(x);
            q = u;
            if(g.flip()) {
                const Doc &d = g.pick(w.docs);
                auto it = d.fields.find(a.primary);
                if(it != d.fields.end() && !it->second.empty() && it->second.size() < 6 && set<U>(it->second.begin(), it->second.end()).size() == it->second.size()) q = it->second;
            }
        }
        vector<U> q2 = q;
        string how;
        if(g.flip()) {
            for(size_t i = q2.size(); i > 1; i--) std::swap(q2[i - 1], q2[g.upto(i - 1)]);
            how += " permuted";
        }
        if(!online && g.flip()) {
            size_t n = 1 + g.upto(3);
            for(size_t i = 0; i < n; i++) { U x = q2[g.upto(q2.size() - 1)]; q2.insert(q2.begin() + g.upto(q2.size()), x); }
            how += " with repeated words";
        }
        bool vary = g.flip();
        auto r1 = ask(g, base, a, q, false, nullptr);
        string t;
        auto r2 = ask(g, other, a, q2, vary, &t);
        ctx.logf("form %d query %s against %s%s%s", a.form, showList(q).c_str(), t.empty() ? showList(q2).c_str() : show(t).c_str(), how.c_str(), online ? (" primary " + show(a.primary)).c_str() : "");
        REQUIRE(r1.first == r2.first, "the search is %s but %s after the transformation", r1.first ? "accepted" : "refused", r2.first ? "accepted" : "refused");
        compare(renamed(r1.second, ids), r2.second, "transformed search");
        if(!r1.second.empty() && (changedDocs || q != q2 || vary)) {
            ctx.nontrivial();
            ctx.label(online ? "online" : "ranked");
        }
    }

    // One field's weight.
    const U &f = g.pick(w.fieldNames);
    vector<U> q = genQuery(g, w, 3);
    double old = st.weights.count(f) ? st.weights[f] : 1.0;
    double up = old + g.oneOf<double>({0.25, 1.0, 7.0, 1e3});
    IndexWeights &iw = base.getIndexWeights();
    WordList wl = mkList(q);
    auto at = [&](double v) { iw.setWeight(mk(f), v); return toMap(base.match(wl), "match"); };
    auto zero = at(0), one = at(1), before = at(old), after = at(up);
    ctx.logf("query %s, weight of %s: %g, then %g", showList(q).c_str(), show(f).c_str(), old, up);
    map<Id, double> wantBefore, wantAfter;
    bool moved = false;
    REQUIRE(zero.size() == one.size(), "a weight changed which documents are found (%zu against %zu)", zero.size(), one.size());
    for(auto &x : zero) {
        REQUIRE(one.count(x.first), "document %llu is found with weight 0 and not with weight 1", (unsigned long long)x.first);
        double contribution = one[x.first] - x.second;
        REQUIRE(contribution >= -1e-9, "document %llu: raising the weight of %s from 0 to 1 lowers the relevancy from %.15g to %.15g", (unsigned long long)x.first, show(f).c_str(), x.second, one[x.first]);
        wantBefore[x.first] = x.second + old * contribution;
        wantAfter[x.first] = x.second + up * contribution;
        if(contribution > 1e-9) moved = true;
    }
    compare(wantBefore, before, "weight as it was");
    compare(wantAfter, after, "raised weight");
    for(auto &x : before) REQUIRE(after[x.first] >= x.second - 1e-9 * std::max(1.0, x.second), "document %llu: raising a weight lowers its relevancy from %.15g to %.15g", (unsigned long long)x.first, x.second, after[x.first]);
    if(moved) { ctx.nontrivial(); ctx.label("weight"); }
}
} // namespace pbt
