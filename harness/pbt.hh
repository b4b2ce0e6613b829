// A small property-based testing driver: choice-tape generation, fork-isolated
// execution (so crashes are observations, not the end of the campaign), and
// integrated shrinking on the tape.  Every random choice of a case goes through
// Gen::draw, so a case is a pure function of its tape, and the tape is a pure
// function of (VERIF_SEED, stream, case index).
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <cstdarg>
#include <cstdio>
#include <stdexcept>

namespace pbt {

struct Fail {
    std::string msg;
    explicit Fail(const std::string &m) : msg(m) {}
};

// Thrown by Gen when a case consumes an absurd number of choices.
struct Overrun {};

struct Shared; // defined in pbt.cc

class Gen {
public:
    enum Mode { RANDOM, TAPE, BYTES };
    Mode mode = RANDOM;
    uint64_t s[2] = {1, 2};
    const uint64_t *in = nullptr; // TAPE
    size_t inLen = 0, inPos = 0;
    const uint8_t *bytes = nullptr; // BYTES
    size_t nbytes = 0, bpos = 0;
    Shared *sh = nullptr; // where consumed choices are recorded
    std::vector<uint64_t> rec; // used when sh == nullptr

    void seed(uint64_t a, uint64_t b, uint64_t c);
    // Uniform choice in [0, max]; 0 is the simplest.
    uint64_t draw(uint64_t max);

    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    size_t upto(size_t hi) { return (size_t)draw(hi); }
    // true with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool flip() { return draw(1) == 1; }
    // Small-biased size in [0, hi].
    size_t small(size_t hi);
    template<typename T> const T &pick(const std::vector<T> &v) { return v[upto(v.size() - 1)]; }
    template<typename T> T oneOf(std::initializer_list<T> l) { return *(l.begin() + upto(l.size() - 1)); }
    // Weighted alternative; index 0 is what shrinking prefers.
    size_t weighted(std::initializer_list<unsigned> w);
};

class Ctx {
public:
    std::string text;           // human readable case
    bool nontrivial_ = false;
    std::set<std::string> labels;
    bool verbose = false;
    std::string tier = "quick";
    uint64_t budget = 0;
    bool excluded = false;

    void logf(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    char *mirror = nullptr;     // shared memory copy of text, survives a crash
    void log(const std::string &s);
    void nontrivial() { nontrivial_ = true; }
    void label(const std::string &l) { labels.insert(l); }
    [[noreturn]] void fail(const std::string &m) { throw Fail(m); }
    [[noreturn]] void failf(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    static const size_t LIMIT = 60000;
};

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Implemented by each property's translation unit.
extern const char *PROP_ID;
extern const char *PROP_RULE;
void run_case(Gen &g, Ctx &ctx);
void process_setup(); // once in every (forked) worker process, before cases

// Scratch directory of this run (created and removed by the driver).
const std::string &scratch();

} // namespace pbt

#define REQUIRE(cond, ...) do { if(!(cond)) throw ::pbt::Fail(::pbt::fmt(__VA_ARGS__)); } while(0)
