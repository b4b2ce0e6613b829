// Reference models, written from the documented behaviour with plain standard
// containers.  Nothing here calls into libcolumbus.
#pragma once
#include "pbt.hh"
#include <unicode/uchar.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <cmath>
#include "ColumbusCore.hh"

namespace model {

using std::string;
using std::vector;
using std::map;
using std::set;
using std::pair;

// A word's letters: one element per library Letter (UTF-16 code unit in the
// default configuration, code point in the full-Unicode one).
typedef std::u32string U;
const bool WIDE = sizeof(Letter_) == 4;

inline void putUtf8(string &o, uint32_t c) {
    if(c < 0x80) o += (char)c;
    else if(c < 0x800) { o += (char)(0xc0 | (c >> 6)); o += (char)(0x80 | (c & 0x3f)); }
    else if(c < 0x10000) { o += (char)(0xe0 | (c >> 12)); o += (char)(0x80 | ((c >> 6) & 0x3f)); o += (char)(0x80 | (c & 0x3f)); }
    else { o += (char)(0xf0 | (c >> 18)); o += (char)(0x80 | ((c >> 12) & 0x3f)); o += (char)(0x80 | ((c >> 6) & 0x3f)); o += (char)(0x80 | (c & 0x3f)); }
}

inline bool isHigh(uint32_t c) { return c >= 0xd800 && c <= 0xdbff; }
inline bool isLow(uint32_t c) { return c >= 0xdc00 && c <= 0xdfff; }

// Strict UTF-8 decoding; false when malformed.
inline bool decodeUtf8(const string &s, U &out) {
    size_t i = 0;
    while(i < s.size()) {
        unsigned char c = s[i];
        uint32_t cp;
        int n;
        if(c < 0x80) { cp = c; n = 0; }
        else if(c >= 0xc2 && c <= 0xdf) { cp = c & 0x1f; n = 1; }
        else if(c >= 0xe0 && c <= 0xef) { cp = c & 0x0f; n = 2; }
        else if(c >= 0xf0 && c <= 0xf4) { cp = c & 0x07; n = 3; }
        else return false;
        if(i + (size_t)n >= s.size()) return false;
        for(int k = 1; k <= n; k++) {
            unsigned char d = s[i + k];
            if((d & 0xc0) != 0x80) return false;
            cp = (cp << 6) | (d & 0x3f);
        }
        if(n == 2 && cp < 0x800) return false;
        if(n == 3 && (cp < 0x10000 || cp > 0x10ffff)) return false;
        if(cp >= 0xd800 && cp <= 0xdfff) return false;
        out += (char32_t)cp;
        i += n + 1;
    }
    return true;
}

inline uint32_t lower(uint32_t c) { return (uint32_t)u_tolower((UChar32)c); }

// Code points -> letters, without case folding.
inline U toLetters(const U &cps) {
    U r;
    for(uint32_t c : cps) {
        if(WIDE || c < 0x10000) r += (char32_t)c;
        else {
            c -= 0x10000;
            r += (char32_t)(0xd800 + (c >> 10));
            r += (char32_t)(0xdc00 + (c & 0x3ff));
        }
    }
    return r;
}
// Each letter is lower-cased by itself.
inline U foldLetters(const U &l) {
    U r;
    for(uint32_t c : l) r += (char32_t)lower(c);
    return r;
}
inline string lettersToUtf8(const U &l) {
    string o;
    for(size_t i = 0; i < l.size(); i++) {
        uint32_t c = l[i];
        if(!WIDE && isHigh(c) && i + 1 < l.size() && isLow(l[i + 1])) {
            c = 0x10000 + ((c - 0xd800) << 10) + (l[i + 1] - 0xdc00);
            i++;
        }
        putUtf8(o, c);
    }
    return o;
}
inline bool wellFormed(const U &l) {
    if(WIDE) return true;
    for(size_t i = 0; i < l.size(); i++) {
        if(isHigh(l[i])) {
            if(i + 1 >= l.size() || !isLow(l[i + 1])) return false;
            i++;
        } else if(isLow(l[i])) return false;
    }
    return true;
}
inline bool isSpace(uint32_t c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
inline bool hasSpace(const U &l) {
    for(uint32_t c : l) if(isSpace(c)) return true;
    return false;
}

// What Word(utf8) holds, or why it is refused.
enum WordVerdict { WORD_OK, WORD_SPACE, WORD_INVALID };
inline WordVerdict parseWord(const string &utf8, U &out) {
    U cps;
    if(!decodeUtf8(utf8, cps)) return WORD_INVALID;
    if(hasSpace(cps)) return WORD_SPACE;
    out = foldLetters(toLetters(cps));
    return WORD_OK;
}

// Splitting on ASCII separators.
inline vector<string> splitBytes(const string &s, const string &seps) {
    vector<string> r;
    string cur;
    for(char c : s) {
        if(seps.find(c) != string::npos) { if(!cur.empty()) r.push_back(cur); cur.clear(); }
        else cur += c;
    }
    if(!cur.empty()) r.push_back(cur);
    return r;
}
// The words of a well-formed text.
inline vector<U> splitText(const string &s) {
    vector<U> r;
    for(auto &p : splitBytes(s, " \t\n\r")) { U u; parseWord(p, u); r.push_back(u); }
    return r;
}

// --------------------------------------------------------------------------
// Substitution costs.
const int DEF_ERR = 100;

struct Costs {
    int ins = 100, del = 100, endDel = 100, startIns = 100, trans = 100;
    size_t limit = 0;
    map<pair<uint32_t, uint32_t>, int> single;
    map<uint32_t, size_t> group;
    vector<int> groupErr;

    static pair<uint32_t, uint32_t> key(uint32_t a, uint32_t b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
    void setError(uint32_t a, uint32_t b, int e) { single[key(a, b)] = e; }
    // false: refused, nothing changes
    bool setGroup(const U &letters, int e) {
        for(uint32_t c : letters) if(group.count(c)) return false;
        for(uint32_t c : letters) group[c] = groupErr.size();
        groupErr.push_back(e);
        return true;
    }
    int sub(uint32_t a, uint32_t b) const {
        if(a == b) return 0;
        auto s = single.find(key(a, b));
        if(s != single.end()) return s->second;
        auto g1 = group.find(a), g2 = group.find(b);
        if(g1 != group.end() && g2 != group.end() && g1->second == g2->second) return groupErr[g1->second];
        return DEF_ERR;
    }
    void clear() { single.clear(); group.clear(); groupErr.clear(); }
    void substring() { startIns = 15; endDel = 15; limit = 3; }
    int startCost(size_t qlen) const { return qlen >= limit ? startIns : ins; }
};

// Weighted optimal-string-alignment distance from a query to a stored word.
//   ins:       a query letter that the word does not have
//   del:       a word letter that the query does not have, except
//   startCost: such a word letter before any query letter has been consumed, and
//   endDel:    such a word letter after the last query letter
//   trans:     two adjacent letters swapped
inline int distance(const U &q, const U &w, const Costs &c) {
    const size_t n = q.size(), m = w.size();
    static thread_local vector<int> r0, r1, r2; // rows j-2, j-1, j
    r0.assign(n + 1, 0); r1.assign(n + 1, 0); r2.assign(n + 1, 0);
    for(size_t i = 0; i <= n; i++) r2[i] = (int)i * c.ins;
    for(size_t j = 1; j <= m; j++) {
        r0.swap(r1); r1.swap(r2);
        r2[0] = (int)j * c.startCost(n);
        for(size_t i = 1; i <= n; i++) {
            int best = r2[i - 1] + c.ins;
            best = std::min(best, r1[i] + (i == n ? c.endDel : c.del));
            best = std::min(best, r1[i - 1] + c.sub(q[i - 1], w[j - 1]));
            if(i > 1 && j > 1 && q[i - 1] == w[j - 2] && q[i - 2] == w[j - 1])
                best = std::min(best, r0[i - 2] + c.trans);
            r2[i] = best;
        }
    }
    return r2[n];
}

// --------------------------------------------------------------------------
// The search engine.
typedef uint64_t Id;

struct Doc {
    Id id = 0;
    map<U, vector<U>> fields;
};

struct Filter { // OR of ANDs of (field, word)
    vector<vector<pair<U, U>>> terms{1};
};

struct Params {
    bool dynamic = true;
    set<U> nosearch;
    Filter filter;
};

struct Engine {
    Costs costs;
    map<U, double> weights;
    struct Field {
        map<U, size_t> count;          // occurrences of each word
        map<U, set<Id>> docs;          // which documents have it
        map<Id, size_t> lastLen;
    };
    map<U, Field> fields;
    set<U> known; // every word or field name seen while indexing

    void index(const vector<Doc> &ds) {
        for(auto &d : ds)
            for(auto &f : d.fields) {
                known.insert(f.first);
                Field &fl = fields[f.first];
                fl.lastLen[d.id] = f.second.size();
                for(auto &w : f.second) {
                    known.insert(w);
                    if(!w.empty()) fl.count[w]++;
                    fl.docs[w].insert(d.id);
                }
            }
    }
    double weight(const U &f) const {
        auto i = weights.find(f);
        return i == weights.end() ? 1.0 : i->second;
    }
    bool docHas(Id id, const U &f, const U &w) const {
        auto i = fields.find(f);
        if(i == fields.end()) return false;
        auto j = i->second.docs.find(w);
        return j != i->second.docs.end() && j->second.count(id);
    }
    bool passes(Id id, const Filter &flt) const {
        for(auto &t : flt.terms) {
            bool all = true;
            for(auto &st : t) if(!docHas(id, st.first, st.second)) { all = false; break; }
            if(all) return true;
        }
        return false;
    }
    static int limitFor(const U &q, const Params &p) { return p.dynamic && q.size() < 2 ? 100 : 200; }

    // Document -> relevancy.  `work` counts distance evaluations with a hit at non-zero error.
    map<Id, double> match(const vector<U> &query, const Params &p, size_t *fuzzy = nullptr) const {
        map<Id, double> r, out;
        if(query.empty()) return out;
        for(auto &f : fields) {
            if(p.nosearch.count(f.first)) continue;
            size_t maxCount = 0;
            for(auto &wc : f.second.count) maxCount = std::max(maxCount, wc.second);
            for(auto &wc : f.second.count) {
                int best = -1;
                for(auto &q : query) {
                    int e = distance(q, wc.first, costs);
                    if(e <= limitFor(q, p) && (best < 0 || e < best)) best = e;
                }
                if(best < 0) continue;
                if(best > 0 && fuzzy) (*fuzzy)++;
                double rel = 100.0 / (100.0 + best) * (1.0 - double(wc.second) / (double)(maxCount + 1)) * weight(f.first);
                for(Id id : f.second.docs.find(wc.first)->second) r[id] += rel;
            }
        }
        for(auto &x : r) if(passes(x.first, p.filter)) out[x.first] = x.second;
        return out;
    }
};

inline bool close(double a, double b) {
    return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

} // namespace model
