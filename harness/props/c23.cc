// C23: the trie as a prefix tree that can be walked.
#include "lib.hh"
#include "Trie.hh"
#include <map>
#include <memory>
namespace pbt {
const char *PROP_ID = "C23";
const char *PROP_RULE = "a history of insertions (new, repeated, prefixes, extensions, empty, wide nodes, long words) into one or two tries, node handles kept from the start; after steps and at the end the whole tree is walked "
                        "from the root and compared with the set of prefixes; non-trivial when some word is a proper prefix of another and the storage has grown";
void process_setup() {}
using namespace lib;
using namespace Columbus;

struct Model {
    Trie t;
    map<U, WordID> ids;          // inserted words
    map<U, TrieOffset> nodes;    // every prefix with the handle first seen for it
    vector<U> order;
};

static TrieOffset walkTo(const Trie &t, const U &w) { // by hand, along the sibling lists
    TrieOffset node = t.getRoot();
    for(char32_t c : w) {
        TrieOffset s = t.getSiblingList(node);
        while(s && (Letter_)t.getLetter(s) != (Letter_)c) s = t.getNextSibling(s);
        if(!s) return 0;
        node = t.getChild(s);
    }
    return node;
}

static void checkAll(Model &m, const string &what) {
    const Trie &t = m.t;
    REQUIRE(t.numWords() == m.ids.size(), "%s: numWords is %zu, expected %zu", what.c_str(), t.numWords(), m.ids.size());
    REQUIRE(t.numNodes() == m.nodes.size() + (m.nodes.count(U()) ? 0 : 1), "%s: numNodes is %zu, expected %zu", what.c_str(), t.numNodes(), m.nodes.size() + (m.nodes.count(U()) ? 0 : 1));
    // Everything reachable from the root, each prefix once.
    vector<pair<TrieOffset, U>> todo(1, make_pair(t.getRoot(), U()));
    size_t seen = 0, words = 0;
    size_t limit = m.nodes.size() + 2;
    set<TrieOffset> distinct;
    while(!todo.empty()) {
        TrieOffset node = todo.back().first;
        U path = todo.back().second;
        todo.pop_back();
        REQUIRE(++seen <= limit, "%s: more nodes can be reached than there are prefixes", what.c_str());
        REQUIRE(distinct.insert(node).second, "%s: node of %s is reached twice", what.c_str(), show(path).c_str());
        if(!path.empty()) {
            auto it = m.nodes.find(path);
            REQUIRE(it != m.nodes.end(), "%s: %s can be reached but is no prefix of a word", what.c_str(), show(path).c_str());
            REQUIRE(it->second == 0 || it->second == node, "%s: the node of %s moved", what.c_str(), show(path).c_str());
            it->second = node;
        }
        auto id = m.ids.find(path);
        WordID want = id == m.ids.end() ? INVALID_WORDID : id->second;
        REQUIRE(t.getWordID(node) == want, "%s: node of %s has word id %u, expected %u", what.c_str(), show(path).c_str(), t.getWordID(node), want);
        if(want != INVALID_WORDID) words++;
        set<uint32_t> ls;
        for(TrieOffset s = t.getSiblingList(node); s; s = t.getNextSibling(s)) {
            uint32_t l = (uint32_t)(Letter_)t.getLetter(s);
            REQUIRE(ls.insert(l).second, "%s: letter U+%04X occurs twice below %s", what.c_str(), l, show(path).c_str());
            REQUIRE(t.hasSibling(s) == (t.getNextSibling(s) != 0), "%s: hasSibling and getNextSibling disagree below %s", what.c_str(), show(path).c_str());
            TrieOffset child = t.getChild(s);
            REQUIRE(t.getParent(child) == node, "%s: the parent of %s followed by U+%04X is not its node", what.c_str(), show(path).c_str(), l);
            TrieOffset back = t.getSiblingTo(node, child);
            REQUIRE((uint32_t)(Letter_)t.getLetter(back) == l && t.getChild(back) == child, "%s: getSiblingTo below %s finds the wrong entry", what.c_str(), show(path).c_str());
            todo.push_back(make_pair(child, path + U(1, (char32_t)l)));
        }
    }
    REQUIRE(seen == m.nodes.size() + (m.nodes.count(U()) ? 0 : 1), "%s: %zu nodes can be reached, expected %zu", what.c_str(), seen, m.nodes.size() + 1);
    REQUIRE(words == m.ids.size(), "%s: %zu words can be reached, expected %zu", what.c_str(), words, m.ids.size());
    REQUIRE(t.getParent(t.getRoot()) == 0, "%s: the root has a parent", what.c_str());
}
static void checkWord(Model &m, const U &w, const string &what) {
    TrieOffset node = m.t.findWord(mk(w));
    bool isPrefix = w.empty() || m.nodes.count(w);
    REQUIRE((node != 0) == isPrefix, "%s: findWord(%s) gives %u", what.c_str(), show(w).c_str(), (unsigned)node);
    REQUIRE(m.t.hasWord(mk(w)) == (m.ids.count(w) > 0), "%s: hasWord(%s) is %d", what.c_str(), show(w).c_str(), (int)m.t.hasWord(mk(w)));
    if(!isPrefix) return;
    REQUIRE(node == walkTo(m.t, w), "%s: findWord(%s) and the path of its letters lead to different nodes", what.c_str(), show(w).c_str());
    if(!wellFormed(w)) return;
    U back = letters(m.t.getWord(node));
    REQUIRE(back == w, "%s: the node of %s gives word %s", what.c_str(), show(w).c_str(), show(back).c_str());
}

// One or two very long words: no set of prefixes, the counts follow from the lengths.
static void deepCase(Gen &g, Ctx &ctx) {
    Trie t;
    Alpha a = genAlpha(g, false);
    U w = genLong(g, a, 300);
    size_t n = g.oneOf<size_t>({30000, 33000, 66000, 70000, 140000}) + g.upto(50);
    U v = w;
    while(v.size() < n) v += w;
    v.resize(n);
    size_t cut = g.upto(n);
    U u = v.substr(0, cut) + (g.flip() ? U(1, U'q') : U()) + v.substr(0, g.upto(40000));
    if(!wellFormed(v) || !wellFormed(u)) return;
    size_t common = 0;
    while(common < u.size() && common < v.size() && u[common] == v[common]) common++;
    ctx.log("words of " + std::to_string(v.size()) + " and " + std::to_string(u.size()) + " letters, " + std::to_string(common) + " in common");
    TrieOffset nv = t.insertWord(mk(v), 7);
    REQUIRE(t.numNodes() == v.size() + 1, "numNodes is %zu, expected %zu", t.numNodes(), v.size() + 1);
    REQUIRE(letters(t.getWord(nv)) == v, "the node of a long word gives another word");
    TrieOffset nu = t.insertWord(mk(u), u == v ? 7 : 9);
    REQUIRE(t.numNodes() == v.size() + u.size() - common + 1, "numNodes is %zu, expected %zu", t.numNodes(), v.size() + u.size() - common + 1);
    REQUIRE(t.numWords() == (u == v ? 1u : 2u), "numWords is %zu", t.numWords());
    for(int i = 0; i < 2; i++) {
        const U &x = i ? u : v;
        TrieOffset node = i ? nu : nv;
        REQUIRE(t.findWord(mk(x)) == node && t.hasWord(mk(x)), "a long word is not found");
        REQUIRE(letters(t.getWord(node)) == x, "the node of a long word gives another word");
        REQUIRE(t.getWordID(node) == (x == v ? 7u : 9u), "a long word has another id");
        size_t depth = 0;
        for(TrieOffset k = node; k != t.getRoot(); k = t.getParent(k)) { REQUIRE(k != 0, "the parents do not lead to the root"); depth++; }
        REQUIRE(depth == x.size(), "a word of %zu letters is at depth %zu", x.size(), depth);
        U longer = x + U(1, U'z'), part = x.substr(0, g.upto(x.size() - 1));
        if(longer != u && longer != v && common < longer.size()) REQUIRE(t.findWord(mk(longer)) == 0 || u.compare(0, longer.size(), longer) == 0 || v.compare(0, longer.size(), longer) == 0, "a word that is no prefix is found");
        if(wellFormed(part)) {
            TrieOffset k = t.findWord(mk(part));
            REQUIRE(k != 0 && letters(t.getWord(k)) == part, "a prefix of a long word is not found or gives another word");
        }
    }
    ctx.label("words of tens of thousands of letters");
    ctx.nontrivial();
}

void run_case(Gen &g, Ctx &ctx) {
    if(g.chance(1, 400)) { deepCase(g, ctx); return; }
    Alpha a = genAlpha(g, true);
    size_t maxWords = 30, maxLen = 7;
    switch(g.weighted({70, 15, 10, 3})) {
    case 0: break;
    case 1: maxWords = 150; break;
    case 2: maxWords = 8; maxLen = 150; break;
    case 3: maxWords = 3000; ctx.label("thousands of words"); break;
    }
    vector<U> pool = genDict(g, a, maxWords, maxLen);
    if(g.chance(1, 3000)) { // more words and nodes than 16 bits count
        size_t n = 65000 + g.upto(8000);
        for(size_t i = 0; i < n; i++) pool.push_back(U(1, (char32_t)(0x4e00 + i % 256)) + U(1, (char32_t)(0x4e00 + i / 256 % 64)) + U(1, (char32_t)(U'a' + i / 16384)));
        ctx.label("more than 65000 words");
    }
    if(g.chance(1, 60)) { U w = genLong(g, a, 3000); pool.push_back(w); w += U'q'; pool.push_back(w); w.resize(w.size() / 2); if(wellFormed(w)) pool.push_back(w); ctx.label("long word"); }
    if(g.chance(1, 25)) { size_t n = edgeLen(g, 1100); for(size_t i = 0; i < n; i++) pool.push_back((g.flip() ? U() : U(1, U'a')) + U(1, (char32_t)(0x4e00 + i * 7))); ctx.label("wide node"); }
    bool vast = g.chance(1, 300);
    if(vast) { // thousands of letters can follow one prefix
        U head = g.flip() ? U() : g.pick(pool);
        if(head.size() > 20 || !wellFormed(head)) head.clear();
        size_t n = 1000 + g.upto(4000), stride = g.oneOf<size_t>({1, 2, 4}); // no letters with case
        for(size_t i = 0; i < n; i++) pool.push_back(head + U(1, (char32_t)(0x4e00 + i * stride)));
        ctx.label("thousands of siblings");
    }
    size_t tries = g.chance(1, 5) ? 2 : 1;
    vector<std::unique_ptr<Model>> ms;
    for(size_t i = 0; i < tries; i++) { ms.emplace_back(new Model()); checkAll(*ms[i], "a new trie"); REQUIRE(!ms[i]->t.hasWord(mk(U())), "a new trie has the empty word"); }
    bool huge = pool.size() > 60000;
    size_t ops = huge ? pool.size() : vast ? pool.size() * 2 : 1 + g.upto(pool.size() * 2);
    IdScheme scheme(g);
    size_t every = pool.size() > 200 ? 100000 : pool.size() > 40 ? 40 : 8;
    size_t total = 0;
    string log;
    for(size_t k = 0; k < ops; k++) {
        Model &m = *ms[huge ? 0 : g.upto(tries - 1)];
        U w = huge ? pool[k] : g.chance(1, 30) ? U() : g.pick(pool);
        if(!wellFormed(w)) continue;
        if(log.size() < 3000) log += " " + show(w);
        if(!huge && g.chance(1, 3)) { // look only
            U q = g.flip() ? mutate(g, a, w) : w;
            if(!wellFormed(q)) continue;
            checkWord(m, q, "before an insertion");
        }
        auto it = m.ids.find(w);
        WordID id = it != m.ids.end() ? it->second : scheme.nth(m.ids.size());
        TrieOffset node = m.t.insertWord(mk(w), id);
        REQUIRE(node != 0, "inserting %s gives no node", show(w).c_str());
        if(it == m.ids.end()) { m.ids[w] = id; m.order.push_back(w); }
        for(size_t i = 1; i <= w.size(); i++) { if(m.nodes.insert({w.substr(0, i), 0}).second) total++; }
        auto n = m.nodes.find(w);
        if(w.empty()) REQUIRE(node == m.t.getRoot(), "inserting the empty word gives another node than the root");
        else {
            REQUIRE(n->second == 0 || n->second == node, "inserting %s gives another node than before", show(w).c_str());
            n->second = node;
        }
        checkWord(m, w, "after inserting it");
        if(huge) continue;
        const U &old = g.pick(m.order);
        checkWord(m, old, "after a later insertion");
        REQUIRE(m.t.getWordID(m.t.findWord(mk(old))) == m.ids[old], "word %s has another id than it was inserted with", show(old).c_str());
        if(g.upto(every) == every) checkAll(m, "after " + show(w));
    }
    ctx.log("insertions" + log);
    bool pre = false;
    for(auto &m : ms) {
        checkAll(*m, "at the end");
        size_t step = 1 + m->order.size() / 300;
        for(size_t i = 0; i < m->order.size(); i += step) checkWord(*m, m->order[i], "at the end");
        for(size_t i = 0; i < 5; i++) { U q = g.pick(pool); if(g.flip()) q = mutate(g, a, q); else q.resize(g.upto(q.size())); if(wellFormed(q)) checkWord(*m, q, "at the end"); }
        for(auto &x : m->ids) { auto nx = m->ids.upper_bound(x.first); if(!x.first.empty() && nx != m->ids.end() && nx->first.compare(0, x.first.size(), x.first) == 0) pre = true; }
    }
    if(total > 30) ctx.label("storage grew");
    if(pre && total > 30) ctx.nontrivial();
}
} // namespace pbt
