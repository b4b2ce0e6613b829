// C11: LevenshteinIndex membership and counters.
#include "lib.hh"
#include "LevenshteinIndex.hh"
#include "IndexMatches.hh"
#include "MatcherStatistics.hh"
#include <unordered_set>
namespace pbt {
const char *PROP_ID = "C11";
const char *PROP_RULE = "a history of insertions (repeats, prefixes, extensions, empty words) with searches in between, all counters compared with a model; non-trivial when some word was inserted more than "
                        "once and some word is a proper prefix of another";
void process_setup() {}
using namespace lib;
using namespace Columbus;

void run_case(Gen &g, Ctx &ctx) {
    Alpha a = genAlpha(g, true);
    size_t maxWords = 30, maxLen = 7;
    switch(g.weighted({70, 15, 8, 5, 2})) {
    case 0: break;
    case 1: maxWords = 200; break;
    case 2: maxWords = 10; maxLen = 300; break;
    case 3: maxWords = 3000; ctx.label("large"); break;
    case 4: maxWords = 30000; a.clear(); for(uint32_t c = 'a'; c <= 'p'; c++) a.push_back(c); ctx.label("very large"); break;
    }
    vector<U> pool = genDict(g, a, maxWords, maxLen);
    if(maxWords <= 30 && g.chance(1, 60)) {
        U w = genLong(g, a, 2500);
        pool.push_back(w);
        w += U'q'; pool.push_back(w);
        ctx.label("long word");
    }
    if(g.chance(1, 600)) { // one node with very many children
        size_t n = 500 + g.upto(2000);
        for(size_t i = 0; i < n; i++) pool.push_back(U(1, (char32_t)(0x4e00 + i)));
        ctx.label("thousands of siblings");
    }
    map<U, WordID> ids;
    IdScheme scheme(g);
    LevenshteinIndex ind;
    map<WordID, size_t> counts;
    set<U> present;
    std::set<U> prefixes;
    size_t maxCount = 0;
    bool repeat = false;
    string log;
    auto idOf = [&](const U &w) {
        auto it = ids.find(w);
        if(it == ids.end()) it = ids.insert({w, scheme.nth(ids.size())}).first;
        return it->second;
    };
    MatcherStatistics stats;
    map<WordID, size_t> processed;
    auto verify = [&](bool full) {
        REQUIRE(ind.maxCount() == maxCount, "maxCount is %zu, expected %zu", ind.maxCount(), maxCount);
        REQUIRE(ind.numWords() == present.size(), "numWords is %zu, expected %zu", ind.numWords(), present.size());
        REQUIRE(ind.numNodes() == prefixes.size() + 1, "numNodes is %zu, expected %zu", ind.numNodes(), prefixes.size() + 1);
        if(!full) return;
        for(auto &x : ids) {
            auto c = counts.find(x.second);
            size_t want = c == counts.end() ? 0 : c->second;
            size_t times = processed.count(x.second) ? processed[x.second] : 0;
            REQUIRE(stats.getTotalWordCount(x.second) == times, "statistics count id %u %zu times, expected %zu", x.second, stats.getTotalWordCount(x.second), times);
            REQUIRE(ind.wordCount(x.second) == want, "wordCount of %s is %zu, expected %zu", show(x.first).c_str(), ind.wordCount(x.second), want);
        }
        for(auto &w : pool) if(wellFormed(w)) REQUIRE(ind.hasWord(mk(w)) == (present.count(w) > 0), "hasWord(%s) is %d", show(w).c_str(), (int)ind.hasWord(mk(w)));
    };
    size_t ops = 1 + g.upto(pool.size() * 2);
    bool hot = g.chance(1, 3);
    verify(true);
    REQUIRE(!ind.hasWord(mk(U())), "an empty index contains the empty word");
    for(size_t k = 0; k < ops; k++) {
        U w = hot && g.flip() ? pool[0] : g.pick(pool);
        if(g.chance(1, 25)) w.clear();
        if(!wellFormed(w)) continue;
        if(log.size() < 3000) log += " " + show(w);
        WordID id = idOf(w);
        size_t times = 1;
        if(g.chance(1, 4000 / std::min<size_t>(pool.size(), 40))) { times = g.oneOf<size_t>({300, 70000}); ctx.label("hundreds of repeats"); }
        Word word = mk(w);
        for(size_t t = 0; t < times; t++) ind.insertWord(word, id);
        if(g.flip()) {
            for(size_t t = 0; t < times; t++) stats.wordProcessed(id);
            if(g.flip()) stats.addedWordToIndex(id, word);
            processed[id] += times;
        }
        if(!w.empty()) {
            size_t &c = counts[id];
            if(c || times > 1) repeat = true;
            c += times;
            maxCount = std::max(maxCount, c);
            present.insert(w);
            for(size_t i = 1; i <= w.size(); i++) if(!prefixes.insert(w.substr(0, i)).second && false) {}
        } else ctx.label("empty word");
        if(pool.size() <= 200 && g.chance(1, 10)) {
            verify(true);
            U q = mutate(g, a, w);
            if(wellFormed(q)) {
                ErrorValues e;
                IndexMatches m;
                ind.findWords(mk(q), e, 100, m);
                U miss = q;
                REQUIRE(ind.hasWord(mk(miss)) == (present.count(miss) > 0), "hasWord(%s) is wrong", show(miss).c_str());
                verify(true);
            }
        } else if(pool.size() <= 200) verify(false);
    }
    ctx.log("insertions" + log);
    verify(true);
    for(int i = 0; i < 5; i++) {
        WordID id = (WordID)g.range(0, 0xfffffffe);
        REQUIRE(counts.count(id) || ind.wordCount(id) == 0, "an id never inserted (%u) has count %zu", id, ind.wordCount(id));
    }
    bool pre = false;
    if(present.size() < 400) for(auto &w : present) { auto it = present.upper_bound(w); if(it != present.end() && it->compare(0, w.size(), w) == 0) pre = true; }
    else pre = true;
    if(repeat && pre) ctx.nontrivial();
}
} // namespace pbt
