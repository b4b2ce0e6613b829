// C09: splitting text.
#include "lib.hh"
#include "ColumbusHelpers.hh"
#include <memory>
namespace pbt {
const char *PROP_ID = "C09";
const char *PROP_RULE = "texts of 0-40 (rarely thousands of) pieces: words of varying length, separators alone and in runs, near-separators (vertical tab, NBSP, comma), malformed bytes; for whitespace and for "
                        "generated ASCII separator sets; non-trivial when the text has at least two words and a run of separators, or must be refused";
void process_setup() {}
using namespace lib;
using namespace Columbus;

void run_case(Gen &g, Ctx &ctx) {
    bool white = g.chance(3, 5);
    string seps = " \t\n\r";
    if(!white) {
        seps.clear();
        size_t n = g.chance(1, 8) ? g.upto(40) : g.upto(5);
        for(size_t i = 0; i < n; i++) seps += g.chance(1, 2) ? g.oneOf<char>({',', ';', ':', '-', '|', '/'}) : g.chance(1, 3) ? g.oneOf<char>({' ', '\n', '\t'}) : (char)g.range(1, 0x7f);
    }
    string s;
    size_t n = g.chance(1, 60) ? g.small(4000) : g.upto(24);
    unsigned bad = g.chance(1, 6) ? 6 : 0;
    bool run = false;
    size_t longAt = g.chance(1, 100) && n ? g.upto(n - 1) : (size_t)-1;
    for(size_t i = 0; i < n; i++) {
        switch(g.weighted({40, 40, 8, bad})) {
        case 0: {
            size_t len = g.chance(1, 60) ? 200 + g.upto(900) : 1 + g.upto(7);
            if(i == longAt) { // few choices, many bytes
                size_t m = edgeLen(g, 140000);
                string unit(1, (char)g.range('a', 'z'));
                if(g.flip()) { unit.clear(); putUtf8(unit, g.pick(edgeLetters())); }
                while(m-- > 0) s += unit;
                ctx.label("long run");
                len = g.upto(2);
            }
            for(size_t k = 0; k < len; k++) {
                if(g.chance(1, 12)) putUtf8(s, anyCp(g));
                else s += (char)g.range(0x21, 0x7e);
            }
            break;
        }
        case 1: {
            char c = seps.empty() ? ',' : seps[g.upto(seps.size() - 1)];
            if(!s.empty() && seps.find(s.back()) != string::npos) run = true;
            s += c;
            break;
        }
        case 2: s += g.oneOf<const char *>({"\v", "\f", "\xc2\xa0", "\xe2\x80\x83", "\x7f", "\x01", ",", "\xe3\x80\x80", "_", "\xef\xbb\xbf", "\xe2\x80\x8b", "\xc2\xad", "\xc2\x85", "\xe2\x80\xa8", "\xef\xbf\xbe"}); break;
        case 3: s += g.oneOf<const char *>({"\x80", "\xc3", "\xff", "\xed\xb0\x80"}); break;
        }
    }
    size_t z = s.find('\0');
    if(z != string::npos) s.resize(z);
    ctx.log((white ? "whitespace: " : "separators " + hex(seps) + ": ") + show(s).substr(0, 3000));
    vector<U> want;
    bool ok = true;
    for(auto &p : splitBytes(s, seps)) { U u; if(parseWord(p, u) != WORD_OK) { ok = false; break; } want.push_back(u); }
    std::unique_ptr<char[]> exact(new char[s.size() + 1]);
    memcpy(exact.get(), s.c_str(), s.size() + 1);
    vector<Letter> sl;
    for(char c : seps) sl.push_back(Letter((Letter_)(unsigned char)c));
    sl.push_back(Letter((Letter_)'Q')); // not part of the list
    bool threw = false;
    vector<U> got;
    try {
        WordList l = white ? splitToWords(exact.get()) : split(exact.get(), sl.data(), (int)seps.size());
        got = listLetters(l);
    } catch(const std::exception &) { threw = true; }
    REQUIRE(threw == !ok, "text was %s", threw ? "refused although every run is a proper word" : "accepted although a run is not a proper word");
    if(ok) REQUIRE(got == want, "split into %zu words %s, expected %zu words %s", got.size(), showList(got).c_str(), want.size(), showList(want).c_str());
    // A word is whitespace-free exactly when isWhitespace says so for its letters.
    for(int i = 0; i < 40; i++) {
        uint32_t c = i < 20 ? (uint32_t)g.upto(0x100) : (uint32_t)g.range(0, 0xffff);
        REQUIRE(isWhitespace(Letter((Letter_)c)) == isSpace(c), "isWhitespace(U+%04X) is %d", c, (int)isWhitespace(Letter((Letter_)c)));
    }
    if((want.size() >= 2 && run) || !ok) ctx.nontrivial();
    if(!ok) ctx.label("refused");
    if(want.size() > 100) ctx.label("over 100 words");
    if(!white) ctx.label("custom separators");
}
} // namespace pbt
