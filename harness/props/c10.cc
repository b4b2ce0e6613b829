// C10: WordStore as a growing bijection.
#include "lib.hh"
#include "WordStore.hh"
#include <map>
namespace pbt {
const char *PROP_ID = "C10";
const char *PROP_RULE = "a history of registrations (new, repeated, prefixes, extensions, empty, very long) and look-ups on one store, with full verification of every id at intervals and at the end; "
                        "non-trivial when at least 40 trie nodes are needed (storage grows) and a repeated word occurs";
void process_setup() {}
using namespace lib;
using namespace Columbus;

void run_case(Gen &g, Ctx &ctx) {
    Alpha a = genAlpha(g, true);
    size_t maxWords = 40, maxLen = 8;
    switch(g.weighted({60, 20, 10, 6, 3, 1})) {
    case 0: break;
    case 1: maxWords = 200; break;
    case 2: maxWords = 10; maxLen = 200; break;
    case 3: maxWords = 5; maxLen = 2500; ctx.label("very long words"); break;
    case 4: maxWords = 5000; ctx.label("thousands of words"); break;
    case 5: maxWords = 70000; break;
    }
    vector<U> pool;
    bool huge = maxWords > 10000 && g.chance(1, 4);
    if(huge) { // numbers in an arbitrary base, some of them twice
        size_t n = g.oneOf<size_t>({65535, 65536, 65537, 70000, 100000, 131073}), base = 2 + g.upto(20), salt = g.upto(100000);
        for(size_t i = 0; i < n; i++) { U w; for(size_t v = i + salt; v; v /= base) w += (char32_t)('a' + v % base); if(w.empty()) w = U(1, U'z'); pool.push_back(w); if(i % 1000 == 7) pool.push_back(pool[i / 2]); }
        ctx.label("over 65000 words");
    } else {
        if(maxWords > 10000) maxWords = 40;
        pool = genDict(g, a, maxWords, maxLen);
    }
    if(g.chance(1, 150)) {
        U w = genLong(g, a, g.chance(1, 10) ? 140000 : 9000);
        pool.push_back(w);
        w += U'q'; pool.push_back(w);
        w.resize(w.size() / 2); if(wellFormed(w)) pool.push_back(w);
        ctx.label("long word");
    }
    if(g.chance(1, 3)) { // all prefixes of one word
        U w = g.pick(pool);
        for(size_t i = 1; i <= w.size() && i < 300; i++) { U p = w.substr(0, i); if(wellFormed(p)) pool.push_back(p); }
    }
    if(g.chance(1, 25)) { // one node with very many children
        size_t n = g.chance(1, 60) ? 1000 + g.upto(1500) : 200 + g.upto(500);
        for(size_t i = 0; i < n; i++) pool.push_back(U(1, (char32_t)(0x4e00 + i)));
    }
    WordStore s;
    map<U, WordID> ids;
    vector<U> byId;
    size_t nodes = 0, repeats = 0;
    if(pool.size() <= 60) ctx.log("pool " + showList(pool)); else ctx.logf("pool of %zu words", pool.size());
    auto verify = [&] {
        for(size_t i = 0; i < byId.size(); i++) {
            REQUIRE(s.hasWord((WordID)i), "id %zu is unknown after %zu registrations", i, byId.size());
            U got = letters(s.getWord((WordID)i));
            REQUIRE(got == byId[i], "id %zu gives word %s, expected %s", i, show(got).c_str(), show(byId[i]).c_str());
            REQUIRE(s.hasWord(mk(byId[i])), "registered word %s is not known", show(byId[i]).c_str());
            WordID id = s.getID(mk(byId[i]));
            REQUIRE(id == i, "word %s has id %u, first got %zu", show(byId[i]).c_str(), id, i);
        }
    };
    auto unknownId = [&](WordID id) {
        REQUIRE(!s.hasWord(id), "id %u is known although only %zu words are registered", id, byId.size());
        bool threw = false;
        try { s.getWord(id); } catch(const std::out_of_range &) { threw = true; }
        REQUIRE(threw, "unknown id %u was not refused", id);
    };
    size_t ops = huge ? pool.size() : pool.size() * 2;
    for(size_t k = 0; k < ops; k++) {
        U w = huge ? pool[k] : g.chance(1, 30) ? U() : g.pick(pool);
        if(!wellFormed(w)) continue;
        switch(huge ? 0 : g.weighted({70, 15, 15})) {
        case 0: {
            WordID id = s.getID(mk(w));
            auto it = ids.find(w);
            if(it != ids.end()) {
                repeats++;
                REQUIRE(id == it->second, "word %s has id %u, first got %u", show(w).c_str(), id, it->second);
            } else {
                REQUIRE(id == byId.size(), "new word %s got id %u, expected %zu", show(w).c_str(), id, byId.size());
                ids[w] = id;
                byId.push_back(w);
                nodes += w.size();
                if(w.empty()) ctx.label("empty word");
            }
            break;
        }
        case 1: {
            U q = g.chance(1, 2) ? mutate(g, a, w) : w;
            if(!wellFormed(q)) continue;
            REQUIRE(s.hasWord(mk(q)) == (ids.count(q) > 0), "hasWord(%s) is %d", show(q).c_str(), (int)s.hasWord(mk(q)));
            break;
        }
        case 2: {
            unknownId((WordID)byId.size());
            unknownId((WordID)g.range((int64_t)byId.size(), 0xffffffffll));
            unknownId(INVALID_WORDID);
            if(!byId.empty()) { size_t i = g.upto(byId.size() - 1); REQUIRE(letters(s.getWord((WordID)i)) == byId[i], "id %zu gives the wrong word", i); }
            break;
        }
        }
        if(maxWords <= 200 && g.chance(1, 20)) verify();
    }
    verify();
    unknownId((WordID)byId.size());
    if(nodes > 40 && (repeats || huge)) ctx.nontrivial();
}
} // namespace pbt
