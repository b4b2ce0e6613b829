// C08: histories over a handful of Word objects against plain letter strings.
#include "lib.hh"
#include <memory>
namespace pbt {
const char *PROP_ID = "C08";
const char *PROP_RULE = "1-60 operations (construct, copy, move, assign, refused assign, self-assign, join, destroy) over 5 word slots, every slot compared with its model after each and all pairs "
                        "compared for the order laws; non-trivial when a refused assignment or a move is followed by further use";
void process_setup() {}
using namespace lib;
using namespace Columbus;

struct Slot { std::unique_ptr<Word> w; U u; bool moved = false; };

static void check(const Slot &s, const char *after) {
    if(s.w && s.moved) { // empty, and as good as any other word
        REQUIRE(s.w->length() == 0 && s.w->asUtf8().empty() && *s.w == Word() && !(*s.w < Word()), "after %s: a moved-from word is not empty", after);
        return;
    }
    if(!s.w) return;
    REQUIRE(s.w->length() == s.u.size() && letters(*s.w) == s.u, "after %s: word holds %s, expected %s", after, show(letters(*s.w)).c_str(), show(s.u).c_str());
}

void run_case(Gen &g, Ctx &ctx) {
    Alpha a = genAlpha(g, true);
    vector<Slot> slots(5);
    vector<U> words = genDict(g, a, 6, 5);
    words.push_back(U());
    bool longs = g.chance(1, 60);
    if(longs) {
        words.push_back(genLong(g, a, g.chance(1, 10) ? 70000 : 3000));
        U near = mutate(g, a, words.back());
        if(wellFormed(near)) words.push_back(near);
        near = words[words.size() - 1];
        if(!near.empty()) near.pop_back();
        if(wellFormed(near)) words.push_back(near);
        ctx.label("long words");
    }
    for(auto &s : slots) { s.u = g.pick(words); s.w.reset(new Word(lettersToUtf8(s.u))); }
    size_t ops = 1 + g.small(longs ? 12 : 60);
    bool risky = false, after = false;
    for(size_t k = 0; k < ops; k++) {
        size_t i = g.upto(4), j = g.upto(4);
        Slot &x = slots[i], &y = slots[j];
        string what;
        if(risky) after = true;
        switch(g.weighted({12, 10, 12, 10, 8, 12, 12, 10, 8, 6})) {
        case 0: { // fresh word, several constructors
            U u = g.chance(1, 3) ? mutate(g, a, g.pick(words)) : g.pick(words);
            if(!wellFormed(u)) u = words[0];
            int how = (int)g.upto(2);
            if(how == 0) x.w.reset(new Word(lettersToUtf8(u).c_str()));
            else if(how == 1) x.w.reset(new Word(lettersToUtf8(u)));
            else {
                std::unique_ptr<Letter[]> l(new Letter[u.size() + 1]);
                for(size_t p = 0; p < u.size(); p++) l[p] = Letter((Letter_)u[p]);
                l[u.size()] = Letter((Letter_)0);
                x.w.reset(new Word(l.get(), u.size() + 1));
            }
            x.u = u; x.moved = false;
            what = fmt("slot %zu = %s", i, show(u).c_str());
            break;
        }
        case 1: // copy construct
            if(y.moved || i == j) continue;
            x.w.reset(new Word(*y.w)); x.u = y.u; x.moved = false;
            what = fmt("slot %zu = copy of slot %zu", i, j);
            break;
        case 2: // copy assign, also to itself and to a moved-from word
            if(y.moved) continue;
            *x.w = *y.w; x.u = y.u; x.moved = false;
            what = fmt("assign slot %zu from slot %zu", i, j);
            break;
        case 3: // move assign
            if(y.moved || i == j) continue;
            *x.w = std::move(*y.w); x.u = y.u; x.moved = false; y.moved = true; risky = true;
            what = fmt("move slot %zu into slot %zu", j, i);
            break;
        case 4: // move construct
            if(y.moved || i == j) continue;
            x.w.reset(new Word(std::move(*y.w))); x.u = y.u; x.moved = false; y.moved = true; risky = true;
            what = fmt("move-construct slot %zu from slot %zu", i, j);
            break;
        case 5: { // assign text
            U u = g.chance(1, 3) ? mutate(g, a, g.pick(words)) : g.pick(words);
            if(!wellFormed(u)) u = words[0];
            string t = recase(g, u);
            if(g.flip()) *x.w = t; else *x.w = t.c_str();
            x.u = u; x.moved = false;
            what = fmt("assign %s to slot %zu", show(t).c_str(), i);
            break;
        }
        case 6: { // refused assignment
            if(x.moved) continue;
            string t = lettersToUtf8(g.pick(words));
            if(g.flip()) t.insert(g.flip() ? 0 : t.size(), g.oneOf<const char *>({" ", "\t", "x y", "\n"}));
            else t += g.oneOf<const char *>({"\x80", "\xc3", "\xed\xa0\x80", "\xff", "\xf4\x90\x80\x80"});
            bool threw = false;
            try { if(g.flip()) *x.w = t; else *x.w = t.c_str(); } catch(const std::exception &) { threw = true; }
            REQUIRE(threw, "assigning %s was not refused", hex(t).c_str());
            U now = letters(*x.w);
            REQUIRE(now.empty() || now == x.u, "after a refused assignment the word holds %s (it held %s)", show(now).c_str(), show(x.u).c_str());
            REQUIRE(x.w->asUtf8() == lettersToUtf8(now), "after a refused assignment the word's text and letters differ");
            Word copy(*x.w);
            REQUIRE(letters(copy) == now && copy == *x.w, "copy of a word after a refused assignment differs");
            x.u = now;
            risky = true;
            what = fmt("refused assignment to slot %zu", i);
            break;
        }
        case 7: { // join
            if(x.moved || y.moved) continue;
            Word r = x.w->join(*y.w);
            U want = x.u + y.u;
            REQUIRE(letters(r) == want && r.length() == want.size(), "join of %s and %s is %s", show(x.u).c_str(), show(y.u).c_str(), show(letters(r)).c_str());
            REQUIRE(r.asUtf8() == lettersToUtf8(want), "text of a joined word is wrong");
            if(want.size() < 100000 && g.flip()) { size_t t = g.upto(4); *slots[t].w = r; slots[t].u = want; slots[t].moved = false; }
            what = fmt("join %zu %zu", i, j);
            break;
        }
        case 8: // compare with strings
            if(x.moved) continue;
            {
                string own = lettersToUtf8(x.u), other = lettersToUtf8(g.pick(words));
                REQUIRE((*x.w == own) && !(*x.w != own) && (*x.w == own.c_str()) && !(*x.w != own.c_str()), "word %s differs from its own text", show(x.u).c_str());
                bool eq = own == other;
                REQUIRE((*x.w == other) == eq && (*x.w != other) == !eq && (*x.w == other.c_str()) == eq && (*x.w != other.c_str()) == !eq,
                        "word %s compared with text %s gives a wrong answer", show(x.u).c_str(), show(other).c_str());
            }
            what = "compare";
            break;
        case 9: // destroy and rebuild empty
            x.w.reset(new Word()); x.u.clear(); x.moved = false;
            what = fmt("slot %zu = empty", i);
            break;
        }
        ctx.log(what);
        for(auto &s : slots) check(s, what.c_str());
        for(auto &p : slots) for(auto &q : slots) {
            if(p.moved || q.moved) continue;
            bool eq = p.u == q.u, lt = p.u < q.u;
            REQUIRE((*p.w == *q.w) == eq && (*p.w != *q.w) == !eq, "%s == %s is %d", show(p.u).c_str(), show(q.u).c_str(), *p.w == *q.w);
            REQUIRE((*p.w < *q.w) == lt, "%s < %s is %d", show(p.u).c_str(), show(q.u).c_str(), *p.w < *q.w);
            if(eq) REQUIRE(p.w->hash() == q.w->hash(), "two words %s have different hashes", show(p.u).c_str());
        }
    }
    if(after) ctx.nontrivial();
}
} // namespace pbt
