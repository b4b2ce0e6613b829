// C19: the build configurations against each other.
#include "world.hh"
#include "props/c19_engine.hh"
#include <stdlib.h>
extern "C" {
void engine_run_u16(const neutral::Op *, size_t, neutral::Out *);
void engine_run_u16n(const neutral::Op *, size_t, neutral::Out *);
void engine_run_u16m(const neutral::Op *, size_t, neutral::Out *);
void engine_run_u32(const neutral::Op *, size_t, neutral::Out *);
void engine_run_u32n(const neutral::Op *, size_t, neutral::Out *);
}
namespace pbt {
const char *PROP_ID = "C19";
const char *PROP_RULE = "a history of 5-80 operations over Basic Multilingual Plane text on words, a word store, a dictionary index, error values, a matcher and result lists, executed by five builds (16 or 32 bit letters, "
                        "sparse or standard hash containers, -O0 with assertions to -O3 without); texts, ids, distances and refusals must be identical and relevancies agree to 1e-9; non-trivial when a search or look-up "
                        "found something";
void process_setup() {}
using namespace lib;
using namespace neutral;
typedef void (*Engine)(const neutral::Op *, size_t, neutral::Out *);
static const struct { const char *name; Engine run; } ENGINES[] = {
    {"16 bit, sparse hash, assertions, -O0", engine_run_u16},
    {"16 bit, sparse hash, no assertions, -O3", engine_run_u16n},
    {"16 bit, standard hash, assertions, -O2", engine_run_u16m},
    {"32 bit, standard hash, assertions, -O1", engine_run_u32},
    {"32 bit, sparse hash, no assertions, -O2 clang", engine_run_u32n},
};
static const char *NAMES[] = {"word", "split", "compare", "join", "to buffer", "store id", "store has", "store word", "insert", "find", "counters", "cost", "substitution cost", "clear", "document", "field", "index",
                              "match", "filtered match", "online match", "weight", "result"};

void run_case(Gen &g, Ctx &ctx) {
    const char *repo = getenv("VERIF_REPO");
    setenv("COLUMBUS_DATADIR", (string(repo ? repo : "/repo") + "/share").c_str(), 1);
    world::Shape sh;
    sh.maxVocab = g.chance(1, 12) ? 300 : 20;
    sh.maxLen = g.chance(1, 10) ? 60 : 7;
    set<Id> docIds;
    bool dense = g.chance(1, 25); // many matches in many fields
    if(dense) sh.maxFields = 8;
    world::World w = world::genWorld(g, sh, true, false);
    if(dense) {
        w.vocab.clear();
        w.alpha = {'a', 'b', 'c', 'd', 'e'};
        for(int i = 0; i < 125; i++) w.vocab.push_back(U{(char32_t)w.alpha[i / 25], (char32_t)w.alpha[i / 5 % 5], (char32_t)w.alpha[i % 5]});
        w.docs.clear();
        size_t nd = 1 + g.upto(39), words = 1 + g.upto(30), salt = g.upto(1000);
        for(size_t i = 0; i < nd; i++) {
            Doc d;
            d.id = world::genId(g, i);
            for(auto &f : w.fieldNames) for(size_t k = 0; k < words; k++) d.fields[f].push_back(w.vocab[(salt += 7919) * 31 % 125]);
            if(docIds.insert(d.id).second) w.docs.push_back(d);
        }
    }
    vector<neutral::Op> ops;
    map<U, int> ids;
    auto word = [&] { return g.chance(1, 3) ? recase(g, world::genQueryWord(g, w)) : lettersToUtf8(g.flip() ? g.pick(w.vocab) : world::genQueryWord(g, w)); };
    auto text = [&] { string t = joinText(g, world::genQuery(g, w, 5), true); if(g.chance(1, 25)) t += g.oneOf<const char *>({"\xff", "\xed\xa0\x80", "\xc3", "\xf0\x9f"}); return t; };
    auto letter = [&]() -> uint32_t { for(int k = 0; k < 9; k++) { uint32_t c = g.flip() ? g.pick(w.alpha) : g.flip() ? g.pick(edgeLetters()) : anyStableBmp(g); if(c < 0xd800 || (c > 0xdfff && c < 0x10000)) return c; } return 'a'; };
    auto cost = [&] {
        neutral::Op o;
        o.kind = COST;
        o.a = (int)g.upto(13);
        o.b = (int)g.upto(7);
        o.e = genCost(g);
        o.l1 = letter();
        do o.l2 = letter(); while(o.l2 == o.l1 && g.chance(9, 10));
        if(o.l1 == o.l2) o.a = 6;
        size_t n = 2 + g.upto(3);
        for(size_t i = 0; i < n; i++) putUtf8(o.s, letter());
        return o;
    };
    int focus = dense ? 0 : (int)g.upto(3); // 0 engine, 1 dictionary, 2 text, 3 everything
    size_t n = 5 + g.upto(75), refusable = 0;
    if(focus == 0) {
        size_t k = g.upto(3);
        for(size_t i = 0; i < k; i++) ops.push_back(cost());
        for(auto &d : w.docs) {
            neutral::Op o;
            o.kind = DOC; o.id = d.id;
            docIds.insert(d.id);
            ops.push_back(o);
            for(auto &f : d.fields) { neutral::Op x; x.kind = FIELD; x.t = lettersToUtf8(f.first); x.a = (int)g.upto(1); x.s = joinText(g, f.second, true); for(auto &y : f.second) x.ws.push_back(lettersToUtf8(y)); ops.push_back(x); }
            o.kind = INDEX;
            ops.push_back(o);
        }
        n = 3 + g.upto(20);
    }
    for(size_t i = 0; i < n; i++) {
        neutral::Op o;
        size_t kind;
        switch(focus) {
        case 0: kind = g.oneOf<size_t>({MATCH, MATCH_FILTERED, ONLINE, MATCH, ONLINE, WEIGHT, COST, DOC}); break;
        case 1: kind = g.oneOf<size_t>({INSERT, INSERT, INSERT, FIND, FIND, COUNT, COST, GETCOST, STORE_ID, STORE_ID, STORE_HAS, STORE_WORD, CLEAR}); break;
        case 2: kind = g.oneOf<size_t>({WORD, WORD, SPLIT, COMPARE, JOIN, BUFFER, RESULT, GETCOST, COST}); break;
        default: kind = g.upto(KINDS - 1);
        }
        o.kind = (int)kind;
        o.a = (int)g.upto(40);
        o.b = (int)g.upto(63);
        o.t = lettersToUtf8(g.pick(w.fieldNames));
        switch(kind) {
        case WORD: o.s = g.chance(1, 12) ? text() : g.chance(1, 3) ? string() : word(); if(o.s.empty()) { U u; size_t m = g.upto(6); for(size_t k = 0; k < m; k++) u += (char32_t)letter(); o.s = g.flip() ? recase(g, u) : lettersToUtf8(u); } break;
        case SPLIT: o.s = text(); break;
        case COMPARE: o.s = word(); break;
        case STORE_ID: case STORE_HAS: o.s = word(); break;
        case INSERT: case FIND: case COUNT: {
            U u = g.chance(2, 3) ? g.pick(w.vocab) : world::genQueryWord(g, w);
            if(kind == INSERT) o.a = ids.insert({u, (int)ids.size()}).first->second;
            o.s = lettersToUtf8(u);
            o.e = g.oneOf<int>({0, 30, 100, 200, 300});
            break;
        }
        case COST: o = cost(); break;
        case GETCOST: o.l1 = letter(); o.l2 = letter(); break;
        case DOC: o.id = world::genId(g, i + 100); if(docIds.count(o.id)) continue; docIds.insert(o.id); break;
        case FIELD: o.a = (int)g.upto(1); o.s = text(); { auto q = world::genQuery(g, w, 5); for(auto &y : q) o.ws.push_back(lettersToUtf8(y)); } break;
        case MATCH: o.s = text(); break;
        case MATCH_FILTERED: case ONLINE: {
            auto q = world::genQuery(g, w, 4);
            for(auto &y : q) if(kind != ONLINE || std::find(o.ws.begin(), o.ws.end(), lettersToUtf8(y)) == o.ws.end()) o.ws.push_back(lettersToUtf8(y));
            if(kind == MATCH_FILTERED) { size_t m = g.upto(3); for(size_t k = 0; k < m; k++) { const Doc &d = g.pick(w.docs); if(d.fields.empty() || d.fields.begin()->second.empty()) continue; o.ws2.push_back(lettersToUtf8(d.fields.begin()->first)); o.ws2.push_back(lettersToUtf8(g.pick(d.fields.begin()->second))); } }
            if(g.chance(1, 10)) o.t = word();
            break;
        }
        case WEIGHT: o.s = lettersToUtf8(g.pick(w.fieldNames)); o.d = g.oneOf<double>({0.5, 2.0, 0.0, 1e6, 3.3}); break;
        case RESULT: o.id = g.upto(50); o.d = (double)g.upto(4); break;
        }
        ops.push_back(o);
    }
    for(auto &o : ops) ctx.logf("%s a=%d b=%d e=%d id=%llu U+%04X U+%04X text %s field %s words %zu", NAMES[o.kind], o.a, o.b, o.e, (unsigned long long)o.id, o.l1, o.l2, show(o.s).c_str(), show(o.t).c_str(), o.ws.size());
    vector<neutral::Out> ref(ops.size()), got;
    ENGINES[0].run(ops.data(), ops.size(), ref.data());
    bool found = false;
    for(size_t i = 0; i < ops.size(); i++) {
        if(!ref[i].rel.empty() || (ops[i].kind == FIND && !ref[i].text.empty())) found = true;
        if(ref[i].text == "refused") refusable++;
    }
    if(found || (focus == 2 && refusable < ops.size() / 2)) ctx.nontrivial();
    ctx.label(focus == 0 ? "search engine" : focus == 1 ? "dictionary" : focus == 2 ? "text" : "everything");
    for(size_t k = 1; k < sizeof ENGINES / sizeof *ENGINES; k++) {
        got.assign(ops.size(), neutral::Out());
        ENGINES[k].run(ops.data(), ops.size(), got.data());
        for(size_t i = 0; i < ops.size(); i++) {
            REQUIRE(got[i].text == ref[i].text, "operation %zu (%s) gives %s in the build [%s] but %s in the build [%s]", i, NAMES[ops[i].kind], show(got[i].text.substr(0, 300)).c_str(), ENGINES[k].name,
                    show(ref[i].text.substr(0, 300)).c_str(), ENGINES[0].name);
            bool same = got[i].rel.size() == ref[i].rel.size();
            for(auto &x : ref[i].rel) {
                auto it = got[i].rel.find(x.first);
                if(it == got[i].rel.end() || !close(it->second, x.second)) same = false;
            }
            REQUIRE(same, "operation %zu (%s): documents or relevancies of the build [%s] differ from those of the build [%s]", i, NAMES[ops[i].kind], ENGINES[k].name, ENGINES[0].name);
        }
    }
}
} // namespace pbt
