// C02: the substitution cost table against a plain map model.
#include "lib.hh"
namespace pbt {
const char *PROP_ID = "C02";
const char *PROP_RULE = "a history of 1-40 setError/setGroupError/preset/clear calls over a pool of letters on both sides of every table boundary, "
                        "all pairs of the pool compared with the model after every call; non-trivial when an individual cost and a group overlap, or a preset or refused group occurs";
void process_setup() {}
using namespace lib;
using namespace Columbus;

static const vector<vector<uint32_t>> &keyRows() {
    static const vector<vector<uint32_t>> rows = {
        {'1', '2', '3', '4', '5', '6', '7', '8', '9', '0', '+'},
        {'q', 'w', 'e', 'r', 't', 'y', 'u', 'i', 'o', 'p', 0xe5},
        {'a', 's', 'd', 'f', 'g', 'h', 'j', 'k', 'l', 0xf6, 0xe4, '\''},
        {'z', 'x', 'c', 'v', 'b', 'n', 'm', ',', '.', '-'}};
    return rows;
}
static void modelKeyboard(Costs &c) {
    auto &r = keyRows();
    for(size_t i = 0; i < r.size(); i++)
        for(size_t j = 0; j < r[i].size(); j++)
            for(size_t i2 = i; i2 < r.size() && i2 <= i + 1; i2++)
                for(size_t j2 = 0; j2 < r[i2].size(); j2++) {
                    // Rows are staggered: key j touches keys j-1 and j of the row below.
                    bool adj = i2 == i ? j2 == j + 1 : (j2 == j || j2 + 1 == j);
                    if(adj) c.setError(r[i][j], r[i2][j2], 30);
                }
}
static void modelPad(Costs &c) {
    const char *pad[9] = {"", "abc", "def", "ghi", "jkl", "mno", "pqrs", "tuv", "wxyz"};
    for(int a = 0; a < 9; a++)
        for(int b = 0; b < 9; b++) {
            int dist = std::abs(a / 3 - b / 3) + std::abs(a % 3 - b % 3);
            if(dist > 1) continue;
            for(const char *p = pad[b]; *p; p++) c.setError('1' + a, *p, dist == 0 ? 0 : 50);
        }
}

static void verify(const Costs &c, ErrorValues &e, const vector<uint32_t> &pool, const char *after) {
    for(uint32_t x : pool)
        for(uint32_t y : pool) {
            int want = c.sub(x, y), got = e.getSubstituteError(Letter((Letter_)x), Letter((Letter_)y));
            REQUIRE(want == got, "after %s: cost of substituting U+%04X and U+%04X is %d, expected %d", after, x, y, got, want);
        }
    for(uint32_t x : pool)
        REQUIRE(e.isInGroup(Letter((Letter_)x)) == (c.group.count(x) > 0), "after %s: U+%04X is%s reported to be in a group", after, x, c.group.count(x) ? " not" : "");
}

void run_case(Gen &g, Ctx &ctx) {
    vector<uint32_t> pool;
    bool keys = g.chance(1, 4);
    if(keys) {
        for(auto &r : keyRows()) for(uint32_t c : r) pool.push_back(c);
        for(uint32_t c : {(uint32_t)0xe9, (uint32_t)0x3b1}) pool.push_back(c);
    } else {
        size_t n = 3 + g.upto(9);
        for(size_t i = 0; i < n; i++) {
            switch(g.weighted({30, 30, 25, 15})) {
            case 0: pool.push_back((uint32_t)g.range('a', 'f')); break;
            case 1: pool.push_back((uint32_t)g.oneOf<int>({0x7f, 0x80, 0xe5, 0xff, 0x100, 0x101, 0x17f, 0x1fe, 0x1ff, 0x200, 0x201, 0x202, 0x203, 0x3ff, 0x400})); break;
            case 2: pool.push_back(anyStableBmp(g)); break;
            case 3: pool.push_back((uint32_t)g.range(1, 0xffff)); break;
            }
        }
        if(g.chance(1, 6)) { // pairs that collide when letters are cut to 8, 9 or 12 bits
            uint32_t b = pool[0];
            pool.push_back(b ^ 0x100); pool.push_back(b ^ 0x200); pool.push_back(b ^ 0x1000); pool.push_back(b ^ 0x8000);
        }
    }
    vector<uint32_t> groupable;
    for(uint32_t c : pool) if(c > 0x20 && lower(c) == c && !isHigh(c) && !isLow(c)) groupable.push_back(c);
    ErrorValues e;
    Costs c;
    verify(c, e, pool, "construction");
    if(g.chance(1, 60)) { // many groups and single costs away from the pool, some of them looked at
        size_t n = edgeLen(g, 600);
        uint32_t base = g.oneOf<uint32_t>({0x3400, 0x4e00, 0xac00, 0x9000});
        for(size_t i = 0; i < n; i++) {
            U grp = U(1, (char32_t)(base + 2 * i)) + U(1, (char32_t)(base + 2 * i + 1));
            bool taken = false;
            for(uint32_t x : pool) if(x == grp[0] || x == grp[1]) taken = true;
            if(taken) continue;
            int err = (int)(i * 7 % 301);
            if(i % 3) { c.setGroup(grp, err); e.setGroupError(mk(grp), err); }
            else { c.setError(grp[0], grp[1], err); e.setError(Letter((Letter_)grp[0]), Letter((Letter_)grp[1]), err); }
            if(i < 2 || i + 2 >= n || (i > 253 && i < 258)) { pool.push_back(grp[0]); pool.push_back(grp[1]); }
        }
        ctx.logf("%zu further groups and single costs from U+%04X", n, base);
        verify(c, e, pool, "many entries");
        ctx.label("many entries");
    }
    size_t ops = 1 + g.small(keys ? 12 : 40);
    bool overlap = false;
    for(size_t i = 0; i < ops; i++) {
        string what;
        switch(g.weighted({45, 25, 5, keys ? 10u : 1u, keys ? 10u : 1u, 5})) {
        case 0: {
            uint32_t x = g.pick(pool), y = g.pick(pool);
            int err = g.chance(1, 25) ? g.oneOf<int>({1000, 32768, 65535, 65536, 1 << 24, 0x7fffffff}) : genCost(g);
            what = fmt("setError(%x, %x, %d)", x, y, err);
            c.setError(x, y, err);
            e.setError(Letter((Letter_)x), Letter((Letter_)y), err);
            if(c.group.count(x) && c.group.count(y) && c.group[x] == c.group[y]) overlap = true;
            break;
        }
        case 1: {
            if(groupable.empty()) continue;
            U grp;
            size_t n = g.upto(4) + (g.chance(1, 12) ? 0 : 1);
            for(size_t k = 0; k < n; k++) grp += (char32_t)g.pick(groupable);
            int err = g.chance(1, 25) ? g.oneOf<int>({1000, 32768, 65535, 65536, 1 << 24, 0x7fffffff}) : genCost(g);
            what = fmt("setGroupError(%s, %d)", show(grp).c_str(), err);
            bool ok = c.setGroup(grp, err), threw = false;
            string ex;
            try { e.setGroupError(mk(grp), err); } catch(const std::exception &x) { threw = true; }
            REQUIRE(threw == !ok, "%s was %s", what.c_str(), threw ? "refused although none of its letters is in a group" : "accepted although a letter is in another group");
            if(!ok) { ctx.label("refused group"); overlap = true; what += " refused"; }
            for(size_t p = 0; p < grp.size(); p++) for(size_t q = 0; q < p; q++) if(c.single.count(Costs::key(grp[p], grp[q]))) overlap = true;
            break;
        }
        case 2: c.clear(); e.clearErrors(); what = "clearErrors"; ctx.label("clear"); break;
        case 3: modelKeyboard(c); e.addKeyboardErrors(); what = "addKeyboardErrors"; overlap = true; ctx.label("keyboard"); break;
        case 4: modelPad(c); e.addNumberpadErrors(); what = "addNumberpadErrors"; overlap = true; ctx.label("number pad"); break;
        case 5: // other settings leave substitution alone
            switch(g.upto(6)) {
            case 0: e.setInsertionError(genCost(g)); break;
            case 1: e.setDeletionError(genCost(g)); break;
            case 2: e.setEndDeletionError(genCost(g)); break;
            case 3: e.setStartInsertionError(genCost(g)); break;
            case 4: e.setTransposeError(genCost(g)); break;
            case 5: e.setSubstringMode(); break;
            case 6: e.setSubstringStartLimit(g.upto(5)); break;
            }
            what = "another setting";
            break;
        }
        ctx.log(what);
        verify(c, e, pool, what.c_str());
    }
    if(overlap) ctx.nontrivial();
}
} // namespace pbt
