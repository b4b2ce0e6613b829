// C07: text in, letters and text out.
#include "lib.hh"
#include <memory>
namespace pbt {
const char *PROP_ID = "C07";
const char *PROP_RULE = "byte strings assembled from valid characters of every length class, whitespace and every kind of malformed UTF-8, letter arrays with surrogates in any arrangement, and output "
                        "buffers of every size around the needed one; non-trivial when the input has a character outside ASCII, is malformed, or contains whitespace";
void process_setup() {}
using namespace lib;
using namespace Columbus;

static string genBytes(Gen &g, Ctx &ctx) {
    string s;
    size_t n = g.small(g.chance(1, 40) ? 3000 : 24);
    unsigned bad = g.oneOf<unsigned>({0, 0, 1, 4}), space = g.oneOf<unsigned>({0, 0, 1}), null = g.oneOf<unsigned>({0, 0, 0, 2});
    for(size_t i = 0; i < n; i++) {
        switch(g.weighted({40, 30, bad, space})) {
        case 0: s += (char)g.range(0x21, 0x7e); break;
        case 1: putUtf8(s, g.chance(1, 3) ? g.pick(g.flip() ? edgeLetters() : astralLetters()) : anyCp(g)); break;
        case 2: {
            ctx.label("malformed piece");
            switch(g.upto(7)) {
            case 0: s += (char)g.range(0x80, 0xbf); break;                                   // lone continuation
            case 1: s += (char)g.range(0xc0, 0xff); break;                                   // lone start byte
            case 2: { string t; putUtf8(t, anyCp(g)); if(t.size() > 1) t.pop_back(); s += t; break; } // truncated
            case 3: s += (char)0xed; s += (char)g.range(0xa0, 0xbf); s += (char)g.range(0x80, 0xbf); break; // surrogate
            case 4: s += (char)0xc0; s += (char)g.range(0x80, 0xbf); break;                  // overlong
            case 5: s += (char)0xe0; s += (char)g.range(0x80, 0x9f); s += (char)0x80; break; // overlong
            case 6: s += (char)0xf4; s += (char)g.range(0x90, 0xbf); s += (char)0x80; s += (char)0x80; break; // > 10FFFF
            case 7: s += (char)g.range(0xf5, 0xff); s += (char)0x80; s += (char)0x80; s += (char)0x80; break;
            }
            break;
        }
        case 3: s += g.oneOf<char>({' ', '\t', '\n', '\r'}); break;
        }
    }
    if(g.chance(1, 150)) { // a long run around the pieces
        size_t n = edgeLen(g, g.chance(1, 4) ? 140000 : 5000), keep = g.upto(s.size());
        while(keep < s.size() && ((unsigned char)s[keep] & 0xc0) == 0x80) keep++;
        string unit;
        if(g.flip()) unit = "k"; else putUtf8(unit, anyCp(g));
        string run;
        for(size_t i = 0; i < n; i++) run += unit;
        s.insert(keep, run);
        ctx.label("long run");
    }
    return s;
}

static void checkOut(Gen &g, const Word &w, const U &l, const string &text) {
    REQUIRE(w.length() == l.size(), "length is %u, expected %zu", w.length(), l.size());
    REQUIRE(letters(w) == l, "letters are %s, expected %s", show(letters(w)).c_str(), show(l).c_str());
    for(unsigned i : {0u, 1u, 7u, 0xffffffffu - (unsigned)l.size()}) {
        bool threw = false;
        try { (void)(Letter_)w[(unsigned)l.size() + i]; } catch(const std::out_of_range &) { threw = true; }
        REQUIRE(threw, "reading letter %u of a word of length %zu was not refused", (unsigned)l.size() + i, l.size());
    }
    REQUIRE(w.asUtf8() == text, "asUtf8 gives %s, expected %s", show(w.asUtf8()).c_str(), show(text).c_str());
    size_t need = text.size() + 1;
    vector<size_t> sizes = {need, need + 1, need - 1, 0, 1, need + 10};
    if(need > 2) { sizes.push_back(need - 2); sizes.push_back(g.upto(need)); }
    if(need > 4) { sizes.push_back(need - 3); sizes.push_back(need - 4); }
    for(size_t n : sizes) {
        const size_t pad = 16;
        std::unique_ptr<char[]> b(new char[n + pad]); // canaries for unsanitized builds
        memset(b.get(), 0x5a, n + pad);
        bool threw = false;
        try { w.toUtf8(b.get(), (unsigned)n); } catch(const std::exception &) { threw = true; }
        for(size_t i = n; i < n + pad; i++) REQUIRE((unsigned char)b[i] == 0x5a, "toUtf8 with buffer size %zu wrote at offset %zu (needed %zu)", n, i, need);
        if(n >= need) {
            REQUIRE(!threw, "toUtf8 refused a buffer of %zu bytes although %zu suffice", n, need);
            REQUIRE(memcmp(b.get(), text.c_str(), need) == 0, "toUtf8 into %zu bytes gives wrong text, expected %s", n, show(text).c_str());
        } else {
            REQUIRE(threw, "toUtf8 accepted a buffer of %zu bytes although %zu are needed", n, need);
        }
    }
    if(need < 3000) { // exact heap buffer, so that a sanitizer sees any overrun
        std::unique_ptr<char[]> b(new char[need]);
        w.toUtf8(b.get(), (unsigned)need);
        REQUIRE(text == b.get(), "toUtf8 into an exact buffer gives wrong text");
        if(need > 1) {
            std::unique_ptr<char[]> c(new char[need - 1]);
            try { w.toUtf8(c.get(), (unsigned)need - 1); } catch(const std::exception &) {}
        }
    }
}

static void textCase(Gen &g, Ctx &ctx) {
    string s = genBytes(g, ctx);
    size_t z = s.find('\0');
    if(z != string::npos) s.resize(z);
    ctx.log("bytes " + hex(s.substr(0, 4000)) + (s.size() > 4000 ? fmt("... %zu bytes", s.size()) : ""));
    U want;
    WordVerdict v = parseWord(s, want);
    bool asciiOnly = true;
    for(unsigned char c : s) if(c >= 0x80) asciiOnly = false;
    if(!asciiOnly || v != WORD_OK) ctx.nontrivial();
    ctx.label(v == WORD_OK ? (asciiOnly ? "accepted ascii" : "accepted other") : v == WORD_SPACE ? "whitespace" : "malformed");
    std::unique_ptr<char[]> exact(new char[s.size() + 1]);
    memcpy(exact.get(), s.c_str(), s.size() + 1);
    for(int how = 0; how < 4; how++) {
        const char *name[] = {"Word(const char*)", "Word(string)", "operator=(const char*)", "operator=(string)"};
        bool threw = false;
        std::unique_ptr<Word> w;
        try {
            switch(how) {
            case 0: w.reset(new Word((const char *)exact.get())); break;
            case 1: w.reset(new Word(s)); break;
            case 2: w.reset(new Word()); *w = (const char *)exact.get(); break;
            case 3: w.reset(new Word("previous")); *w = s; break;
            }
        } catch(const std::exception &) { threw = true; }
        REQUIRE(threw == (v != WORD_OK), "%s %s bytes %s", name[how], threw ? "refused well-formed" : v == WORD_SPACE ? "accepted whitespace in" : "accepted malformed", hex(s.substr(0, 600)).c_str());
        if(threw) continue;
        if(how < 2) checkOut(g, *w, want, lettersToUtf8(want));
        else REQUIRE(letters(*w) == want, "%s: letters are %s, expected %s", name[how], show(letters(*w)).c_str(), show(want).c_str());
        // Feeding the output back changes nothing.
        Word again(w->asUtf8());
        REQUIRE(letters(again) == want, "converting to text and back changed the word");
    }
}

static void letterCase(Gen &g, Ctx &ctx) {
    size_t n = g.small(g.chance(1, 40) ? 600 : 10);
    U l;
    unsigned surr = g.oneOf<unsigned>({0, 2, 20}), space = g.oneOf<unsigned>({0, 0, 1}), null = g.oneOf<unsigned>({0, 0, 0, 2});
    for(size_t i = 0; i < n; i++) {
        switch(g.weighted({30, 20, surr, surr, space, null})) {
        case 0: l += (char32_t)g.range(0x21, 0x7e); break;
        case 1: { uint32_t c = anyCp(g); if(c > 0xffff && !WIDE) c &= 0x7fff; if(c < 0x21) c = 'z'; l += (char32_t)c; break; }
        case 2: l += (char32_t)(WIDE ? 0x10000 + g.upto(100) : g.chance(1, 3) ? g.oneOf<uint32_t>({0xd800, 0xdbff}) : (uint32_t)g.range(0xd800, 0xdbff)); break;
        case 3: l += (char32_t)(WIDE ? 0xe000 + g.upto(100) : g.chance(1, 3) ? g.oneOf<uint32_t>({0xdc00, 0xdfff}) : (uint32_t)g.range(0xdc00, 0xdfff)); break;
        case 4: l += (char32_t)g.oneOf<char>({' ', '\t', '\n', '\r'}); break;
        case 5: l += U'\0'; break;
        }
    }
    while(!l.empty() && l.back() == 0) l.back() = U'0'; // one final null is the terminator
    if(l.find(U'\0') != U::npos) ctx.label("null letter");
    bool terminated = g.flip();
    ctx.log("letters " + show(l) + (terminated ? " with terminator" : ""));
    size_t total = l.size() + (terminated ? 1 : 0);
    std::unique_ptr<Letter[]> a(new Letter[total]);
    for(size_t i = 0; i < l.size(); i++) a[i] = Letter((Letter_)l[i]);
    if(terminated) a[l.size()] = Letter((Letter_)0);
    bool ok = !hasSpace(l) && wellFormed(l) && l.find(U'\0') == U::npos, threw = false;
    std::unique_ptr<Word> w;
    try { w.reset(new Word(a.get(), total)); } catch(const std::exception &) { threw = true; }
    REQUIRE(threw == !ok, "letters %s were %s", show(l).c_str(), threw ? "refused" : "accepted");
    if(ok) checkOut(g, *w, l, lettersToUtf8(l));
    bool surrs = false;
    for(uint32_t c : l) if(isHigh(c) || isLow(c)) surrs = true;
    if(surrs || !ok) ctx.nontrivial();
    if(surrs) ctx.label(ok ? "paired surrogates" : "broken surrogates");
    if(n == 0) ctx.label("no letters");
}

void run_case(Gen &g, Ctx &ctx) {
    if(g.chance(1, 3)) letterCase(g, ctx);
    else textCase(g, ctx);
}
} // namespace pbt
