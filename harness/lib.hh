// Bridges between the model's plain values and the library's objects, plus the
// generators shared by the properties.
#pragma once
#include <cstring>
#include "pbt.hh"
#include "model.hh"
#include "Word.hh"
#include "WordList.hh"
#include "Document.hh"
#include "Corpus.hh"
#include "ErrorValues.hh"

namespace lib {
using namespace model;
using pbt::Gen;
using pbt::Ctx;

inline Columbus::Word mk(const U &u) { return Columbus::Word(lettersToUtf8(u)); }
inline U letters(const Columbus::Word &w) {
    U r;
    for(unsigned int i = 0; i < w.length(); i++) r += (char32_t)(Letter_)w[i];
    return r;
}
inline string show(const string &s) {
    string o = "\"";
    for(unsigned char c : s) {
        if(c < 0x20 || c == 0x7f || c == '"' || c == '\\') o += pbt::fmt("\\x%02x", c);
        else o += (char)c;
    }
    return o + "\"";
}
inline string hex(const string &s) {
    string o;
    for(unsigned char c : s) o += pbt::fmt("%02x ", c);
    return o;
}
inline string show(const U &u) {
    bool plain = true;
    for(uint32_t c : u) if(c < 0x21 || c == '"' || isHigh(c) || isLow(c)) plain = false;
    if(u.size() > 60) {
        string h = pbt::fmt("[%zu letters #%llx] ", u.size(), (unsigned long long)std::hash<U>()(u));
        return h + show(u.substr(0, 12)) + "..." + show(u.substr(u.size() - 8));
    }
    if(plain) return show(lettersToUtf8(u));
    string o = "<";
    for(uint32_t c : u) o += pbt::fmt("%x ", c);
    return o + ">";
}

// ------------------------------------------------------------- alphabets
typedef vector<uint32_t> Alpha;

// Lower-case (folding-stable) letters around every boundary the code could have:
// one/two/three-byte UTF-8, Latin-1, the 512-letter table, 0x8000, and the ends
// of the surrogate block and of the BMP.
inline const Alpha &edgeLetters() {
    static const Alpha a = {'a', 0x7e, 0x7f, 0x80, 0xb5, 0xdf, 0xe0, 0xff, 0xe5, 0xe4, 0xf6, 0x1fd, 0x1ff, 0x201, 0x203, 0x233, 0x250,
                            0x3b1, 0x3b2, 0x3c9, 0x430, 0x44f, 0x7ff, 0x800, 0xfff, 0x1000, 0x3042, 0x4e00, 0x7fff, 0x8000, 0x9fa5,
                            0xac00, 0xd7a3, 0xd7ff, 0xe000, 0xfb01, 0xfffd, 0xfffe, 0xffff, 0x85, 0xa0, 0xad, 0x200b, 0x2028, 0xfeff};
    return a;
}
inline const Alpha &astralLetters() {
    static const Alpha a = {0x10000, 0x1f600, 0x1f601, 0x1f4a9, 0x20000, 0x2f800, 0x10fffd, 0x103ff, 0x10ffff, 0x1d800, 0x1dc00, 0x1dfff, 0x2d800, 0x10dc00, 0x10fc00, 0x100000};
    return a;
}

// Any code point a word can hold; cased letters included.
inline uint32_t anyCp(Gen &g) {
    for(;;) {
        uint32_t c;
        switch(g.weighted({30, 20, 20, 15, 5, 3, 12})) {
        case 0: c = (uint32_t)g.range(0x21, 0x7e); break;
        case 1: c = (uint32_t)g.range(0x80, 0x24f); break;
        case 2: c = (uint32_t)g.range(0x250, 0x7ff); break;
        case 3: c = (uint32_t)g.range(0x800, 0xffff); break;
        case 4: c = g.pick(edgeLetters()); break;
        case 5: c = g.pick(astralLetters()); break;
        default: c = (uint32_t)g.range(0x10000, 0x10ffff); break;
        }
        if(c >= 0xd800 && c <= 0xdfff) c = 0xd7ff - (c & 0xff);
        return c;
    }
}

// Folding-stable BMP letter.
inline uint32_t anyStableBmp(Gen &g) {
    uint32_t c = 0;
    switch(g.weighted({20, 30, 25, 25})) {
    case 0: c = (uint32_t)g.range(0x21, 0x7e); break;
    case 1: c = (uint32_t)g.range(0x80, 0x24f); break;
    case 2: c = (uint32_t)g.range(0x250, 0x7ff); break;
    default: c = (uint32_t)g.range(0x800, 0xffff); break;
    }
    if(c >= 0xd800 && c <= 0xdfff) c = 0xd7ff - (c & 0xff);
    return lower(c);
}

// An alphabet for a case: small ones make near-misses and shared prefixes frequent.
inline Alpha genAlpha(Gen &g, bool astral = false) {
    Alpha a;
    switch(g.weighted({30, 20, 15, 15, 12, 8})) {
    case 0: a = {'a', 'b'}; break;
    case 1: a = {'a', 'b', 'c', 'd', 'e'}; break;
    case 2: for(uint32_t c = 'a'; c <= 'z'; c++) a.push_back(c); for(uint32_t c = '0'; c <= '9'; c++) a.push_back(c); break;
    case 3: { size_t n = 2 + g.upto(5); for(size_t i = 0; i < n; i++) a.push_back(g.pick(edgeLetters())); break; }
    case 4: { size_t n = 2 + g.upto(6); for(size_t i = 0; i < n; i++) a.push_back(anyStableBmp(g)); break; }
    case 5: {
        a = {'a', 'b'};
        size_t n = 1 + g.upto(3);
        for(size_t i = 0; i < n; i++) a.push_back(astral ? g.pick(astralLetters()) : g.pick(edgeLetters()));
        break;
    }
    }
    return a;
}

inline U genWord(Gen &g, const Alpha &a, size_t minLen, size_t maxLen) {
    size_t n = minLen + g.upto(maxLen - minLen);
    U cps;
    for(size_t i = 0; i < n; i++) cps += (char32_t)g.pick(a);
    return toLetters(cps);
}

// A neighbour of a word: edits, swaps, prefixes, extensions.
inline U mutate(Gen &g, const Alpha &a, U w) {
    size_t n = 1 + g.upto(2);
    for(size_t k = 0; k < n; k++) {
        bool surr = false;
        for(uint32_t c : w) if(isHigh(c) || isLow(c)) surr = true;
        uint32_t c = g.pick(a);
        if(surr || c > 0xffff) { // keep pairs intact
            U ins = toLetters(U(1, (char32_t)c));
            if(g.flip()) w += ins; else w = ins + w;
            continue;
        }
        switch(g.weighted({20, 20, 20, 25, 10, 10})) {
        case 0: if(!w.empty()) w[g.upto(w.size() - 1)] = (char32_t)c; break;
        case 1: w.insert(w.begin() + g.upto(w.size()), (char32_t)c); break;
        case 2: if(!w.empty()) w.erase(w.begin() + g.upto(w.size() - 1)); break;
        case 3: if(w.size() > 1) { size_t i = g.upto(w.size() - 2); std::swap(w[i], w[i + 1]); } break;
        case 4: if(!w.empty()) w.resize(1 + g.upto(w.size() - 1)); break;
        case 5: { size_t m = 1 + g.upto(4); for(size_t i = 0; i < m; i++) w += (char32_t)(c > 0xffff ? 'a' : c); break; }
        }
    }
    return w;
}

// A size next to a power of two (or a few other round numbers), at most cap.
inline size_t edgeLen(Gen &g, size_t cap) {
    static const size_t v[] = {1, 2, 4, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 100000, 131072, 262144};
    size_t k = 0;
    while(k + 1 < sizeof(v) / sizeof(v[0]) && v[k + 1] <= cap) k++;
    size_t n = v[g.upto(k)] + g.upto(4);
    return n < 3 ? 1 : std::min(cap, n - 2);
}
// A long word from few choices: a scrambled walk over the alphabet with some letters changed.
inline U genLong(Gen &g, const Alpha &a, size_t cap) {
    size_t n = edgeLen(g, cap);
    uint64_t salt = g.upto(1000);
    Alpha b;
    for(uint32_t c : a) if(c <= 0xffff) b.push_back(c);
    if(b.empty()) b.push_back('a');
    U w;
    for(size_t i = 0; i < n; i++) w += (char32_t)b[salt ? ((i * 2654435761u + salt * i * i) >> 7) % b.size() : 0];
    size_t m = g.upto(3);
    for(size_t i = 0; i < m; i++) w[g.flip() ? w.size() - 1 - g.upto(std::min<size_t>(w.size() - 1, 3)) : g.upto(w.size() - 1)] = (char32_t)g.oneOf<uint32_t>({'q', b[0], 0xe9, 0x4e01});
    if(g.chance(1, 4)) w += toLetters(U(1, (char32_t)g.pick(astralLetters())));
    return w;
}

// A dictionary of non-empty words with many close relatives.
inline vector<U> genDict(Gen &g, const Alpha &a, size_t maxWords, size_t maxLen) {
    size_t n = 1 + (maxWords <= 40 && g.chance(2, 3) ? g.upto(maxWords - 1) : g.small(maxWords - 1));
    vector<U> d;
    for(size_t i = 0; i < n; i++) {
        U w;
        if(!d.empty() && g.chance(2, 5)) w = mutate(g, a, g.pick(d));
        else w = genWord(g, a, 1, maxLen);
        if(w.size() > maxLen + 4) w = genWord(g, a, 1, maxLen);
        if(w.empty()) w = genWord(g, a, 1, maxLen);
        d.push_back(w);
    }
    return d;
}

// Distinct words for distinct numbers below 26^5, scattered so that only some are near each other.
inline U numWord(size_t i) {
    uint64_t v = (uint64_t)i * 7919 % 11881376;
    U w;
    for(int k = 0; k < 5; k++, v /= 26) w += (char32_t)('a' + v % 26);
    return w;
}

// ------------------------------------------------------------- costs
// Word ids as somebody else's register might hand them out: all different, never the invalid one.
struct IdScheme {
    uint64_t start = 0, step = 1;
    explicit IdScheme(Gen &g) {
        const uint64_t mod = 0xffffffffull;
        switch(g.weighted({6, 2, 1, 1})) {
        case 0: break;
        case 1: start = g.upto(70000); step = mod - 1; break;                    // downwards, through zero
        case 2: start = g.oneOf<uint64_t>({0x7ffffff0u, 0xfffffff0u, 0xfff0, 0xf0}); break; // across an edge
        case 3: step = 2654435761u % mod; start = g.upto(1000); break;           // scattered
        }
    }
    WordID nth(uint64_t n) const {
        // The steps have no common divisor with the modulus 3*5*17*257*65537.
        return (WordID)((start + n * step) % 0xffffffffull);
    }
};
inline int genCost(Gen &g) {
    switch(g.weighted({40, 10, 30, 20})) {
    case 0: return 100;
    case 1: return 0;
    case 2: return g.oneOf<int>({1, 15, 30, 50, 99, 101, 150, 200});
    default: return (int)g.range(0, 300);
    }
}

inline string showCosts(const Costs &c) {
    string s = pbt::fmt("ins=%d del=%d endDel=%d startIns=%d trans=%d limit=%zu", c.ins, c.del, c.endDel, c.startIns, c.trans, c.limit);
    for(auto &x : c.single) s += pbt::fmt(" (%x,%x)=%d", x.first.first, x.first.second, x.second);
    for(auto &x : c.group) s += pbt::fmt(" %x:g%zu=%d", x.first, x.second, c.groupErr[x.second]);
    return s;
}

// Random costs applied to the model and, call by call, to the library's table.
inline Costs genCosts(Gen &g, const Alpha &alpha, Columbus::ErrorValues &e, bool tame = false, bool big = false) {
    Costs c;
    if(g.chance(1, 4)) return c; // defaults
    Alpha a;
    for(uint32_t x : alpha) if(x <= 0xffff) a.push_back(x);
    if(a.empty()) a.push_back('a');
    if(g.chance(1, 3)) { c.substring(); e.setSubstringMode(); }
    if(!tame || g.chance(1, 3)) {
        if(g.chance(1, 3)) { c.ins = genCost(g); e.setInsertionError(c.ins); }
        if(g.chance(1, 3)) { c.del = genCost(g); e.setDeletionError(c.del); }
        if(g.chance(1, 3)) { c.endDel = genCost(g); e.setEndDeletionError(c.endDel); }
        if(g.chance(1, 3)) { c.startIns = genCost(g); e.setStartInsertionError(c.startIns); }
        if(g.chance(1, 3)) { c.trans = genCost(g); e.setTransposeError(c.trans); }
        if(g.chance(1, 4)) { c.limit = g.upto(6); e.setSubstringStartLimit(c.limit); }
    }
    if(big && g.chance(1, 12)) { // costs far beyond every limit
        int v = g.oneOf<int>({1000, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 100000, 1000000});
        switch(g.upto(4)) {
        case 0: c.ins = v; e.setInsertionError(v); break;
        case 1: c.del = v; e.setDeletionError(v); break;
        case 2: c.endDel = v; e.setEndDeletionError(v); break;
        case 3: c.startIns = v; e.setStartInsertionError(v); break;
        case 4: c.trans = v; e.setTransposeError(v); break;
        }
    }
    size_t n = g.small(8);
    for(size_t i = 0; i < n; i++) {
        if(g.chance(1, 3)) {
            // A group must be folding-stable text without whitespace.
            U grp;
            size_t m = 2 + g.upto(4);
            for(size_t k = 0; k < m; k++) grp += (char32_t)g.pick(a);
            int err = genCost(g);
            bool ok = c.setGroup(grp, err);
            bool threw = false;
            try { e.setGroupError(mk(grp), err); } catch(const std::exception &) { threw = true; }
            REQUIRE(threw == !ok, "setGroupError(%s) %s although the model says it should %s", show(grp).c_str(),
                    threw ? "threw" : "was accepted", ok ? "be accepted" : "be refused");
        } else {
            uint32_t x = g.pick(a), y = g.pick(a);
            if(x == y) continue;
            int err = big && g.chance(1, 20) ? g.oneOf<int>({10000, 65535, 65536, 1000000}) : genCost(g);
            c.setError(x, y, err);
            e.setError(Letter((Letter_)x), Letter((Letter_)y), err);
        }
    }
    return c;
}

// One change of the costs of an error table that may have been used already.
inline string changeCosts(Gen &g, const Alpha &alpha, Costs &c, Columbus::ErrorValues &e) {
    Alpha a;
    for(uint32_t x : alpha) if(x <= 0xffff) a.push_back(x);
    if(a.empty()) a.push_back('a');
    switch(g.upto(9)) {
    case 0: c.substring(); e.setSubstringMode(); return "substring mode";
    case 1: c.ins = genCost(g); e.setInsertionError(c.ins); return pbt::fmt("insertion %d", c.ins);
    case 2: c.del = genCost(g); e.setDeletionError(c.del); return pbt::fmt("deletion %d", c.del);
    case 3: c.endDel = genCost(g); e.setEndDeletionError(c.endDel); return pbt::fmt("end deletion %d", c.endDel);
    case 4: c.startIns = genCost(g); e.setStartInsertionError(c.startIns); return pbt::fmt("start insertion %d", c.startIns);
    case 5: c.trans = genCost(g); e.setTransposeError(c.trans); return pbt::fmt("transpose %d", c.trans);
    case 6: c.limit = g.upto(6); e.setSubstringStartLimit(c.limit); return pbt::fmt("substring limit %zu", c.limit);
    case 7: c.clear(); e.clearErrors(); return "clear errors";
    default: {
        uint32_t x = g.pick(a), y = g.pick(a);
        if(x == y) return "no change";
        int err = genCost(g);
        c.setError(x, y, err);
        e.setError(Letter((Letter_)x), Letter((Letter_)y), err);
        return pbt::fmt("cost U+%04X U+%04X = %d", x, y, err);
    }
    }
}

// ------------------------------------------------------------- text
inline uint32_t upper(uint32_t c) {
    uint32_t u = (uint32_t)u_toupper((UChar32)c);
    return u != c && u <= 0xffff && c <= 0xffff && lower(u) == c ? u : c;
}
// The text of a word with some letters in upper case.
inline string recase(Gen &g, const U &w) {
    U r;
    bool all = g.flip();
    for(size_t i = 0; i < w.size(); i++) {
        uint32_t c = w[i];
        if(!isHigh(c) && !isLow(c) && (all || g.flip())) c = upper(c);
        r += (char32_t)c;
    }
    return lettersToUtf8(r);
}
inline string genSpace(Gen &g, bool mayBeEmpty) {
    size_t n = mayBeEmpty ? g.upto(2) : 1 + (g.chance(1, 3) ? g.upto(3) : 0);
    string s;
    for(size_t i = 0; i < n; i++) s += g.oneOf<char>({' ', '\t', '\n', '\r'});
    return s;
}
inline string joinText(Gen &g, const vector<U> &ws, bool vary) {
    string s;
    if(vary && g.chance(1, 4)) s += genSpace(g, true);
    for(size_t i = 0; i < ws.size(); i++) {
        if(i) s += vary ? genSpace(g, false) : " ";
        s += vary && g.chance(1, 3) ? recase(g, ws[i]) : lettersToUtf8(ws[i]);
    }
    if(vary && g.chance(1, 4)) s += genSpace(g, true);
    return s;
}

inline Columbus::WordList mkList(const vector<U> &ws) {
    Columbus::WordList l;
    for(auto &w : ws) l.addWord(mk(w));
    return l;
}
inline vector<U> listLetters(const Columbus::WordList &l) {
    vector<U> r;
    for(size_t i = 0; i < l.size(); i++) r.push_back(letters(l[i]));
    return r;
}
inline string showList(const vector<U> &ws) {
    string s = "[";
    for(size_t i = 0; i < ws.size(); i++) {
        if(i) s += " ";
        if(i > 40) { s += pbt::fmt("... %zu words", ws.size()); break; }
        s += show(ws[i]);
    }
    return s + "]";
}

} // namespace lib
