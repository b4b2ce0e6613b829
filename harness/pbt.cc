// Driver of the harness; see pbt.hh.
#include "pbt.hh"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <ftw.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

extern "C" const char *__asan_default_options() {
    return "exitcode=99:detect_leaks=0:abort_on_error=0:handle_abort=0:handle_segv=1:"
           "allocator_may_return_null=0:detect_stack_use_after_return=1:symbolize=1:"
           "allocator_release_to_os_interval_ms=-1:quarantine_size_mb=32";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=98"; }
extern "C" const char *__tsan_default_options() { return "exitcode=96:halt_on_error=1"; }

namespace pbt {

static const size_t TAPE_MAX = 1u << 19;
static const size_t MSG_MAX = 8192;
static const size_t TEXT_MAX = 65536;
static const int EXIT_FAIL = 90;
static const int EXIT_HANG = 97;

struct Shared {
    volatile uint64_t caseIndex;
    volatile uint64_t started;    // number of cases started by this process
    volatile uint64_t done;       // number of cases completed
    volatile uint64_t tapeLen;
    volatile int failed;
    char msg[MSG_MAX];
    char text[TEXT_MAX];
    uint64_t tape[TAPE_MAX];
};

static std::string g_scratch;
const std::string &scratch() { return g_scratch; }

std::string fmt(const char *f, ...) {
    char buf[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

void Ctx::log(const std::string &s) {
    if(text.size() >= LIMIT) return;
    if(mirror && text.size() + s.size() + 2 < TEXT_MAX) {
        memcpy(mirror + text.size(), s.data(), s.size());
        mirror[text.size() + s.size()] = '\n';
        mirror[text.size() + s.size() + 1] = 0;
    }
    text += s;
    text += '\n';
}
void Ctx::logf(const char *f, ...) {
    if(text.size() >= LIMIT) return;
    char buf[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    log(buf);
}
void Ctx::failf(const char *f, ...) {
    char buf[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    throw Fail(buf);
}

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

void Gen::seed(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t x = a * 0x9e3779b97f4a7c15ull + 0x1234567;
    uint64_t h = splitmix(x);
    x = h ^ (b * 0xd6e8feb86659fd93ull);
    h = splitmix(x);
    x = h ^ (c * 0xa0761d6478bd642full);
    s[0] = splitmix(x);
    s[1] = splitmix(x);
    if(!s[0] && !s[1]) s[0] = 1;
}

static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t xoro(uint64_t *s) {
    uint64_t s0 = s[0], s1 = s[1];
    uint64_t r = rotl(s0 * 5, 7) * 9;
    s1 ^= s0;
    s[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16);
    s[1] = rotl(s1, 37);
    return r;
}

uint64_t Gen::draw(uint64_t max) {
    uint64_t v = 0;
    if(max == 0) return 0; // no choice, nothing recorded
    switch(mode) {
    case RANDOM: {
        uint64_t r = xoro(s);
        if(max == UINT64_MAX) v = r;
        else v = (uint64_t)(((unsigned __int128)r * (max + 1)) >> 64);
        break;
    }
    case TAPE:
        v = inPos < inLen ? in[inPos++] : 0;
        if(v > max) v = max;
        break;
    case BYTES: {
        uint64_t m = max;
        int n = 0;
        while(m) { n++; m >>= 8; }
        for(int i = 0; i < n; i++) {
            v = (v << 8) | (bpos < nbytes ? bytes[bpos] : 0);
            bpos++;
        }
        if(max != UINT64_MAX) v %= max + 1;
        break;
    }
    }
    if(sh) {
        if(sh->tapeLen >= TAPE_MAX) throw Overrun();
        sh->tape[sh->tapeLen] = v;
        sh->tapeLen = sh->tapeLen + 1;
    } else {
        if(rec.size() >= TAPE_MAX) throw Overrun();
        rec.push_back(v);
    }
    return v;
}

size_t Gen::small(size_t hi) {
    if(hi == 0) return 0;
    // Pick a magnitude first, so that small values dominate but large ones occur.
    int bits = 0;
    for(size_t m = hi; m; m >>= 1) bits++;
    size_t b = (size_t)std::min(draw(bits), draw(bits));
    size_t lim = b >= 63 ? hi : (((size_t)1 << b) - 1);
    if(lim > hi) lim = hi;
    return (size_t)draw(lim);
}

size_t Gen::weighted(std::initializer_list<unsigned> w) {
    unsigned total = 0;
    for(auto x : w) total += x;
    uint64_t r = draw(total - 1);
    size_t i = 0;
    for(auto x : w) {
        if(r < x) return i;
        r -= x;
        i++;
    }
    return 0;
}

// ---------------------------------------------------------------------------

static uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for(unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Options {
    uint64_t seed = 1, stream = 0, cases = 1000, chunk = 100, maxSeconds = 600;
    int jobs = 8, cpuLimit = 30;
    std::string out, hashOut, replay, tier = "quick", bytesFile, variant = "default";
    bool print = false;
    uint64_t only = UINT64_MAX;
};
static Options opt;

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

static Shared *newShared() {
    void *m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(m == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared *)m;
}

static void onProf(int) { _exit(EXIT_HANG); }

static void armTimer() {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = opt.cpuLimit;
    setitimer(ITIMER_PROF, &it, nullptr);
}

struct ChunkStats {
    uint64_t evals = 0, nontriv = 0, overruns = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<uint64_t> hashes; // of non-trivial cases
    std::vector<std::string> samples;
};

// Runs one case; returns true when it passed.
static bool runOne(Gen &g, Shared *sh, ChunkStats *st, bool wantText) {
    Ctx ctx;
    ctx.tier = opt.tier;
    g.sh = sh;
    sh->tapeLen = 0;
    sh->text[0] = 0;
    sh->msg[0] = 0;
    if(wantText) ctx.mirror = sh->text;
    armTimer();
    bool ok = true;
    std::string msg;
    try {
        run_case(g, ctx);
    } catch(const Fail &f) {
        ok = false;
        msg = f.msg;
    } catch(const Overrun &) {
        if(st) st->overruns++;
        return true;
    } catch(const std::exception &e) {
        ok = false;
        msg = std::string("unexpected exception: ") + e.what();
    }
    if(!ok) {
        sh->failed = 1;
        snprintf(sh->msg, MSG_MAX, "%s", msg.c_str());
        snprintf(sh->text, TEXT_MAX, "%s", ctx.text.c_str());
    } else if(wantText) {
        snprintf(sh->text, TEXT_MAX, "%s", ctx.text.c_str());
    }
    if(st) {
        st->evals++;
        for(auto &l : ctx.labels) st->labels[l]++;
        if(ctx.nontrivial_) {
            st->nontriv++;
            st->hashes.push_back(fnv(ctx.text));
            if(st->samples.size() < 1 && ctx.text.size() < 3000) st->samples.push_back(ctx.text);
        }
    }
    return ok;
}

// When a crash kills the process the text is lost unless it is mirrored as it
// grows; replays therefore run with a Ctx that mirrors (see runForked).
static void writeStats(const std::string &file, const ChunkStats &st) {
    std::ofstream f(file, std::ios::binary);
    f << st.evals << ' ' << st.nontriv << ' ' << st.overruns << ' ' << st.labels.size() << ' ' << st.hashes.size() << ' ' << st.samples.size() << '\n';
    for(auto &l : st.labels) f << l.second << ' ' << l.first << '\n';
    for(auto h : st.hashes) f << h << '\n';
    for(auto &s : st.samples) f << s.size() << '\n' << s << '\n';
}

static bool readStats(const std::string &file, ChunkStats &st) {
    std::ifstream f(file, std::ios::binary);
    if(!f) return false;
    uint64_t a, b, o;
    size_t nl, nh, ns;
    if(!(f >> a >> b >> o >> nl >> nh >> ns)) return false;
    st.evals += a; st.nontriv += b; st.overruns += o;
    for(size_t i = 0; i < nl; i++) {
        uint64_t c; std::string l;
        f >> c; f.get();
        std::getline(f, l);
        st.labels[l] += c;
    }
    for(size_t i = 0; i < nh; i++) { uint64_t h; f >> h; st.hashes.push_back(h); }
    for(size_t i = 0; i < ns; i++) {
        size_t n; f >> n; f.get();
        std::string s(n, 0);
        f.read(&s[0], n); f.get();
        if(st.samples.size() < 3) st.samples.push_back(s);
    }
    return true;
}

static void childSetup(const std::string &errFile) {
    int fd = open(errFile.empty() ? "/dev/null" : errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if(fd >= 0) { dup2(fd, 2); close(fd); }
    int nfd = open("/dev/null", O_WRONLY);
    if(nfd >= 0) { dup2(nfd, 1); close(nfd); }
    signal(SIGPROF, onProf);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    process_setup();
}

static void runRange(uint64_t a, uint64_t b, Shared *sh, ChunkStats *st) {
    for(uint64_t i = a; i < b; i++) {
        Gen g;
        g.seed(opt.seed, opt.stream, i);
        sh->caseIndex = i;
        sh->started = sh->started + 1;
        if(!runOne(g, sh, st, false)) _exit(EXIT_FAIL);
        sh->done = sh->done + 1;
    }
}

struct Outcome {
    bool failed = false;
    std::string kind, msg, text, err;
    std::vector<uint64_t> tape;
};

static std::string slurp(const std::string &f, size_t lim) {
    std::ifstream in(f, std::ios::binary);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string s = ss.str();
    if(s.size() > lim) s.resize(lim);
    return s;
}

static std::string statusKind(int status) {
    if(WIFSIGNALED(status)) return fmt("crash: signal %d (%s)", WTERMSIG(status), strsignal(WTERMSIG(status)));
    int c = WEXITSTATUS(status);
    if(c == EXIT_FAIL) return "property violated";
    if(c == EXIT_HANG) return fmt("no termination within %d s of CPU time", opt.cpuLimit);
    if(c == 99) return "AddressSanitizer report";
    if(c == 98) return "UndefinedBehaviorSanitizer report";
    if(c == 96) return "ThreadSanitizer report";
    return fmt("process exited with code %d inside a case", c);
}

// body runs in a forked child; returns its wait status.
static int forked(const std::string &err, const std::function<void()> &body) {
    fflush(nullptr);
    pid_t p = fork();
    if(p < 0) { perror("fork"); exit(2); }
    if(p == 0) {
        childSetup(err);
        body();
        _exit(0);
    }
    int status = 0;
    // CPU-time limits end spinning cases; a wall limit ends blocked ones.
    double t0 = now();
    for(;;) {
        pid_t r = waitpid(p, &status, WNOHANG);
        if(r == p) break;
        if(r < 0 && errno != EINTR) { status = 0; break; }
        if(now() - t0 > opt.cpuLimit * 4.0 + 60) { kill(p, SIGKILL); waitpid(p, &status, 0); break; }
        usleep(now() - t0 < 0.05 ? 200 : 2000);
    }
    return status;
}

static Shared *g_replaySh;

static Outcome finish(int status, Shared *sh, const std::string &errFile, bool wantErr) {
    Outcome o;
    o.failed = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
    if(!o.failed) return o;
    o.kind = statusKind(status);
    if(WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAIL) o.msg = sh->msg;
    o.text = sh->text;
    o.tape.assign(sh->tape, sh->tape + sh->tapeLen);
    if(wantErr) o.err = slurp(errFile, 6000);
    return o;
}

static std::string errPath(int n) { return g_scratch + fmt("/err.%d", n); }

static Outcome runTape(const std::vector<uint64_t> &tape, bool wantErr = false) {
    Shared *sh = g_replaySh;
    sh->failed = 0; sh->tapeLen = 0; sh->text[0] = 0; sh->msg[0] = 0;
    std::string ef = wantErr ? errPath(9999) : "";
    int st = forked(ef, [&] {
        Gen g;
        g.mode = Gen::TAPE;
        g.in = tape.data();
        g.inLen = tape.size();
        if(!runOne(g, sh, nullptr, true)) _exit(EXIT_FAIL);
    });
    return finish(st, sh, ef, wantErr);
}

static Outcome runSpan(uint64_t a, uint64_t b, bool wantErr) {
    Shared *sh = g_replaySh;
    sh->failed = 0; sh->tapeLen = 0; sh->text[0] = 0; sh->msg[0] = 0;
    std::string ef = wantErr ? errPath(9998) : "";
    int st = forked(ef, [&] { runRange(a, b, sh, nullptr); });
    return finish(st, sh, ef, wantErr);
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    if(a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

// What a failure is about: its message up to the first number or quoted value.
static std::string msgClass(const std::string &m) {
    std::string r;
    for(char c : m) {
        if(c == '"' || c == '<' || (c >= '0' && c <= '9')) break;
        r += c;
    }
    return r;
}

struct Shrinker {
    std::vector<uint64_t> best;
    uint64_t attempts = 0, maxAttempts = 4000;
    double t0 = 0, budget = 60;
    // Runs a tape; true (and the consumed tape) when it still fails.
    std::function<bool(const std::vector<uint64_t> &, std::vector<uint64_t> &)> run;
    std::function<void()> improved = [] {};

    bool out() const { return attempts >= maxAttempts || now() - t0 > budget; }
    bool tryTape(const std::vector<uint64_t> &t) {
        if(out()) return false;
        attempts++;
        std::vector<uint64_t> used;
        if(!run(t, used)) return false;
        if(!simpler(used, best)) {
            if(!simpler(t, best)) return false;
            used = t;
        }
        best = used;
        improved();
        return true;
    }
    void go() {
        bool progress = true;
        while(progress && !out()) {
            progress = false;
            for(size_t blk = std::max<size_t>(1, std::min<size_t>(4096, best.size() / 2)); blk >= 1; blk /= 2) {
                for(size_t i = best.size(); i >= blk && i > 0 && !out();) {
                    if(i > best.size()) { i = best.size(); if(i < blk) break; }
                    std::vector<uint64_t> t(best);
                    t.erase(t.begin() + (i - blk), t.begin() + i);
                    if(tryTape(t)) progress = true;
                    if(i < blk) break;
                    i -= blk;
                }
                if(blk == 1) break;
            }
            // A count followed by its elements: lower the count and drop an element.
            for(size_t i = 0; i < best.size() && !out(); i++) {
                bool again = true;
                while(again && i < best.size() && best[i] > 0 && !out()) {
                    again = false;
                    for(size_t k = 1; k <= 24 && i + 1 + k <= best.size() && !again; k++) {
                        std::vector<uint64_t> t(best);
                        t[i]--;
                        t.erase(t.begin() + i + 1, t.begin() + i + 1 + k);
                        if(tryTape(t)) again = progress = true;
                    }
                }
            }
            for(size_t i = 0; i < best.size() && !out(); i++) {
                if(best[i] == 0) continue;
                std::vector<uint64_t> t(best);
                t[i] = 0;
                if(tryTape(t)) { progress = true; continue; }
                uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
                int guard = 0;
                while(hi - lo > 1 && guard++ < 20) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    if(i >= best.size()) break;
                    t = best;
                    t[i] = mid;
                    if(tryTape(t)) { progress = true; if(i >= best.size()) break; hi = best[i]; if(hi <= lo) break; }
                    else lo = mid;
                }
            }
        }
    }
};

static Outcome shrink(Outcome best, uint64_t &attempts) {
    if(best.kind.find("no termination") == 0) return best;
    Shrinker s;
    s.best = best.tape;
    s.t0 = now();
    if(best.kind == "property violated") {
        // The failure is an exception, so candidates can run in one process,
        // which hands its best tape back through shared memory.
        Shared *res = newShared(), *sh = g_replaySh;
        const std::string cls = msgClass(best.msg);
        res->tapeLen = 0;
        s.maxAttempts = 200000;
        s.budget = 40;
        forked("", [&] {
            s.run = [&](const std::vector<uint64_t> &t, std::vector<uint64_t> &used) {
                Gen g;
                g.mode = Gen::TAPE;
                g.in = t.data();
                g.inLen = t.size();
                res->started = res->started + 1;
                bool failed = !runOne(g, sh, nullptr, false) && msgClass(sh->msg) == cls;
                used.assign(sh->tape, sh->tape + sh->tapeLen);
                return failed;
            };
            s.improved = [&] {
                res->tapeLen = 0;
                for(size_t i = 0; i < s.best.size(); i++) res->tape[i] = s.best[i];
                res->tapeLen = s.best.size();
            };
            s.go();
        });
        attempts += res->started;
        if(res->tapeLen) best.tape.assign(res->tape, res->tape + res->tapeLen);
        munmap(res, sizeof(Shared));
        return best;
    }
    s.run = [&](const std::vector<uint64_t> &t, std::vector<uint64_t> &used) {
        Outcome o = runTape(t);
        if(!o.failed || o.kind.find("no termination") == 0) return false;
        used = o.tape;
        return true;
    };
    s.go();
    attempts += s.attempts;
    best.tape = s.best;
    return best;
}

static std::string jsonEscape(const std::string &s) {
    std::string r;
    for(size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if(c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if(c == '\n') r += "\\n";
        else if(c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r;
}

static void rmTree(const std::string &d) {
    nftw(d.c_str(), [](const char *p, const struct stat *, int, struct FTW *) { return remove(p); }, 16, FTW_DEPTH | FTW_PHYS);
}

static int replayMain() {
    std::ifstream f(opt.replay);
    std::string line;
    std::vector<uint64_t> tape;
    uint64_t a = 0, b = 0;
    bool span = false;
    while(std::getline(f, line)) {
        std::istringstream is(line);
        std::string k;
        is >> k;
        if(k == "tape") { uint64_t v; while(is >> v) tape.push_back(v); }
        else if(k == "span") { is >> a >> b; span = true; }
        else if(k == "seed") is >> opt.seed;
        else if(k == "stream") is >> opt.stream;
    }
    Outcome o = span ? runSpan(a, b, true) : runTape(tape, true);
    printf("%s\n%s\n%s\n", o.failed ? o.kind.c_str() : "passed", o.msg.c_str(), o.failed ? o.text.c_str() : g_replaySh->text);
    if(!o.err.empty()) printf("--- stderr\n%s\n", o.err.c_str());
    return o.failed ? 1 : 0;
}

static int campaign() {
    double t0 = now();
    ChunkStats total;
    std::unordered_set<uint64_t> distinct;
    struct Slot { pid_t pid = 0; uint64_t a = 0, b = 0; Shared *sh = nullptr; double t0 = 0; uint64_t lastDone = 0; int n = 0; };
    std::vector<Slot> slots(opt.jobs);
    for(int i = 0; i < opt.jobs; i++) { slots[i].sh = newShared(); slots[i].n = i; }
    g_replaySh = newShared();
    uint64_t next = 0, failIdx = UINT64_MAX, failStart = 0;
    Outcome firstFail;
    bool timeUp = false;
    auto statFile = [&](int n) { return g_scratch + fmt("/stats.%d", n); };
    if(opt.only != UINT64_MAX) { next = opt.only; opt.cases = opt.only + 1; }
    for(;;) {
        bool any = false;
        for(auto &s : slots) {
            if(s.pid) {
                int status;
                pid_t r = waitpid(s.pid, &status, WNOHANG);
                if(r == 0) {
                    any = true;
                    uint64_t d = s.sh->started;
                    if(d != s.lastDone) { s.lastDone = d; s.t0 = now(); }
                    else if(now() - s.t0 > opt.cpuLimit * 4.0 + 60) kill(s.pid, SIGKILL);
                    continue;
                }
                s.pid = 0;
                bool bad = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
                if(bad) {
                    uint64_t idx = s.sh->caseIndex;
                    if(idx < failIdx) {
                        failIdx = idx;
                        failStart = s.a;
                        firstFail = finish(status, s.sh, "", false);
                    }
                } else {
                    ChunkStats st;
                    readStats(statFile(s.n), st);
                    total.evals += st.evals; total.nontriv += st.nontriv; total.overruns += st.overruns;
                    for(auto &l : st.labels) total.labels[l.first] += l.second;
                    for(auto h : st.hashes) distinct.insert(h);
                    for(auto &x : st.samples) if(total.samples.size() < 3) total.samples.push_back(x);
                }
            }
            if(now() - t0 > (double)opt.maxSeconds) timeUp = true;
            if(!s.pid && next < opt.cases && !timeUp && next < failIdx) {
                s.a = next;
                s.b = std::min<uint64_t>(opt.cases, next + opt.chunk);
                next = s.b;
                s.sh->failed = 0; s.sh->started = 0; s.sh->done = 0; s.sh->tapeLen = 0;
                s.sh->msg[0] = 0; s.sh->text[0] = 0;
                s.lastDone = 0; s.t0 = now();
                fflush(nullptr);
                pid_t p = fork();
                if(p < 0) { perror("fork"); exit(2); }
                if(p == 0) {
                    childSetup("");
                    ChunkStats st;
                    runRange(s.a, s.b, s.sh, &st);
                    struct itimerval it;
                    memset(&it, 0, sizeof it);
                    setitimer(ITIMER_PROF, &it, nullptr);
                    writeStats(statFile(s.n), st);
                    _exit(0);
                }
                s.pid = p;
                any = true;
            }
        }
        if(!any) break;
        usleep(500);
    }
    if(!opt.hashOut.empty()) {
        std::ofstream hf(opt.hashOut, std::ios::binary);
        for(uint64_t h : distinct) hf.write((const char *)&h, sizeof h);
    }
    bool violation = false;
    uint64_t attempts = 0;
    std::string replayText, note;
    Outcome res;
    if(failIdx != UINT64_MAX) {
        // Regenerate the tape of the failing case in isolation, three times.
        int hits = 0;
        Outcome iso;
        for(int k = 0; k < 3; k++) {
            Outcome o = runSpan(failIdx, failIdx + 1, k == 0);
            if(o.failed) { hits++; if(k == 0 || iso.tape.empty()) iso = o; }
        }
        if(hits == 3) {
            res = shrink(iso, attempts);
            Outcome chk = runTape(res.tape, true);
            int ok = 0;
            for(int k = 0; k < 3; k++) if(runTape(res.tape).failed) ok++;
            if(ok < 3 || !chk.failed) { chk = runTape(iso.tape, true); res = iso; }
            if(chk.failed) res = chk;
            violation = true;
            std::ostringstream os;
            os << "tape";
            for(auto v : res.tape) os << ' ' << v;
            replayText = os.str();
        } else {
            // Depends on earlier cases of the same process, or is not deterministic.
            int sp = 0;
            Outcome so;
            for(int k = 0; k < 3; k++) {
                Outcome o = runSpan(failStart, failIdx + 1, true);
                if(o.failed) { sp++; so = o; }
            }
            if(sp == 3) {
                violation = true;
                res = so;
                replayText = fmt("span %llu %llu", (unsigned long long)failStart, (unsigned long long)(failIdx + 1));
                note = "fails only after earlier cases of the same process (state carried between cases)";
            } else if(firstFail.kind == "property violated" || firstFail.kind.find("Sanitizer report") != std::string::npos ||
                      (firstFail.kind.find("crash: signal ") == 0 && firstFail.kind.find("signal 9 ") == std::string::npos)) {
                // Not reproducible every time, but an assertion or a sanitizer report is an observation, not a timing effect.
                violation = true;
                res = sp ? so : hits ? iso : firstFail;
                replayText = fmt("span %llu %llu", (unsigned long long)failStart, (unsigned long long)(failIdx + 1));
                note = fmt("nondeterministic: %d/3 alone, %d/3 with its predecessors", hits, sp);
            } else {
                note = fmt("case %llu failed once (%s; %s) but did not reproduce (%d/3 alone, %d/3 with its predecessors): inconclusive",
                           (unsigned long long)failIdx, firstFail.kind.c_str(), firstFail.msg.c_str(), hits, sp);
            }
        }
    }
    std::ofstream f(opt.out);
    f << "{\"property\":\"" << PROP_ID << "\",\"variant\":\"" << jsonEscape(opt.variant) << "\",\"seed\":" << opt.seed
      << ",\"stream\":" << opt.stream << ",\"cases_requested\":" << opt.cases
      << ",\"evaluations\":" << total.evals << ",\"nontrivial\":" << total.nontriv
      << ",\"distinct_nontrivial\":" << distinct.size() << ",\"overruns\":" << total.overruns
      << ",\"time_limit_hit\":" << (timeUp ? "true" : "false")
      << ",\"rule\":\"" << jsonEscape(PROP_RULE) << "\",\"labels\":{";
    bool first = true;
    for(auto &l : total.labels) { f << (first ? "" : ",") << "\"" << jsonEscape(l.first) << "\":" << l.second; first = false; }
    f << "},\"samples\":[";
    for(size_t i = 0; i < total.samples.size(); i++) f << (i ? "," : "") << "\"" << jsonEscape(total.samples[i]) << "\"";
    f << "],\"note\":\"" << jsonEscape(note) << "\",\"wall_s\":" << (now() - t0);
    f << ",\"violation\":" << (violation ? "true" : "false");
    if(violation) {
        f << ",\"fail_index\":" << failIdx << ",\"shrink_attempts\":" << attempts
          << ",\"kind\":\"" << jsonEscape(res.kind) << "\",\"message\":\"" << jsonEscape(res.msg)
          << "\",\"case\":\"" << jsonEscape(res.text) << "\",\"stderr\":\"" << jsonEscape(res.err)
          << "\",\"replay\":\"" << jsonEscape(replayText) << "\"";
    }
    f << "}\n";
    f.close();
    if(violation) printf("violation at case %llu: %s: %s\n", (unsigned long long)failIdx, res.kind.c_str(), res.msg.c_str());
    else printf("%s[%s]: %llu cases, %llu non-trivial, %zu distinct, %.1fs %s\n", PROP_ID, opt.variant.c_str(), (unsigned long long)total.evals,
                (unsigned long long)total.nontriv, distinct.size(), now() - t0, note.c_str());
    return violation ? 1 : 0;
}

} // namespace pbt

using namespace pbt;

#ifndef PBT_FUZZ
int main(int argc, char **argv) {
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if(i + 1 >= argc) { fprintf(stderr, "missing value for %s\n", a.c_str()); exit(2); } return argv[++i]; };
        if(a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--stream") opt.stream = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--cases") opt.cases = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--chunk") opt.chunk = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--jobs") opt.jobs = atoi(val().c_str());
        else if(a == "--max-seconds") opt.maxSeconds = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--cpu-limit") opt.cpuLimit = atoi(val().c_str());
        else if(a == "--out") opt.out = val();
        else if(a == "--hash-out") opt.hashOut = val();
        else if(a == "--tier") opt.tier = val();
        else if(a == "--variant") opt.variant = val();
        else if(a == "--replay") opt.replay = val();
        else if(a == "--bytes") opt.bytesFile = val();
        else if(a == "--only") opt.only = strtoull(val().c_str(), nullptr, 10);
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    const char *base = getenv("PBT_SCRATCH");
    std::string tmpl = std::string(base ? base : "/tmp") + "/pbt.XXXXXX";
    std::vector<char> t(tmpl.begin(), tmpl.end());
    t.push_back(0);
    if(!mkdtemp(t.data())) { perror("mkdtemp"); return 2; }
    g_scratch = t.data();
    if(opt.out.empty()) opt.out = g_scratch + "/out.json";
    int rc;
    g_replaySh = newShared();
    if(!opt.bytesFile.empty()) {
        // Convert a libFuzzer input into a tape and print it as a replay line.
        std::string data = slurp(opt.bytesFile, 1u << 26);
        Shared *sh = g_replaySh;
        int st = forked(errPath(1), [&] {
            Gen g;
            g.mode = Gen::BYTES;
            g.bytes = (const uint8_t *)data.data();
            g.nbytes = data.size();
            if(!runOne(g, sh, nullptr, true)) _exit(EXIT_FAIL);
        });
        Outcome o = finish(st, sh, errPath(1), true);
        rc = 0;
        if(o.failed) {
            int hits = 0;
            for(int k = 0; k < 3; k++) if(runTape(o.tape).failed) hits++;
            if(hits == 3) {
                uint64_t attempts = 0;
                Outcome r = shrink(o, attempts);
                Outcome chk = runTape(r.tape, true);
                if(!chk.failed) { r = o; chk = runTape(o.tape, true); }
                std::ostringstream os;
                os << "tape";
                for(auto v : r.tape) os << ' ' << v;
                std::ofstream f(opt.out);
                f << "{\"violation\":true,\"variant\":\"" << jsonEscape(opt.variant) << "\",\"kind\":\"" << jsonEscape(chk.kind) << "\",\"message\":\"" << jsonEscape(chk.msg)
                  << "\",\"case\":\"" << jsonEscape(chk.text) << "\",\"stderr\":\"" << jsonEscape(chk.err) << "\",\"seed\":0,\"stream\":0,\"replay\":\"" << os.str() << "\"}\n";
                rc = 1;
            }
        }
        rmTree(g_scratch);
        return rc;
    }
    rc = opt.replay.empty() ? campaign() : replayMain();
    rmTree(g_scratch);
    return rc;
}
#else
#include <sanitizer/common_interface_defs.h>
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *base = getenv("PBT_SCRATCH");
    std::string tmpl = std::string(base ? base : "/tmp") + "/pbt.XXXXXX";
    std::vector<char> t(tmpl.begin(), tmpl.end());
    t.push_back(0);
    if(!mkdtemp(t.data())) exit(2);
    g_scratch = t.data();
    atexit([] { rmTree(g_scratch); });
    process_setup();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    Gen g;
    g.mode = Gen::BYTES;
    g.bytes = data;
    g.nbytes = size;
    Ctx ctx;
    ctx.tier = "fuzz";
    try {
        run_case(g, ctx);
    } catch(const Overrun &) {
        return -1;
    } catch(const Fail &f) {
        fprintf(stderr, "PROPERTY VIOLATED: %s\n%s\n", f.msg.c_str(), ctx.text.c_str());
        abort();
    }
    return 0;
}
#endif
