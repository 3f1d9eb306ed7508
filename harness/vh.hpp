// vh.hpp - a small stateless explicit-state explorer.
//
// A harness is one or more "bodies". A body is ordinary code that runs the REAL
// library and asks the explorer for every nondeterministic decision through
// choose(n): which operation, which operand, which environment answer. The
// explorer enumerates every choice vector depth-first (no sampling, no cap),
// re-executing the body for each one, so an execution is identified by its
// choice vector and can be replayed exactly.
//
// The work is split over forked workers on a declared prefix of the choices
// (shard()), statically, so that a run is deterministic.
#ifndef VH_HPP
#define VH_HPP

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#ifdef VH_LEAK
// Live heap blocks: every execution must give back what it took.
#include <new>
namespace vh { inline long &live() { static long n = 0; return n; } }
void *operator new(size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++vh::live(); return p; }
void *operator new[](size_t n) { void *p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++vh::live(); return p; }
void operator delete(void *p) noexcept { if (p) { --vh::live(); std::free(p); } }
void operator delete[](void *p) noexcept { if (p) { --vh::live(); std::free(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { --vh::live(); std::free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { --vh::live(); std::free(p); } }
#endif

namespace vh {

struct Violation { std::string key, msg; };
struct Prune {};

constexpr size_t BITMAP_BITS = size_t(1) << 28;
constexpr int MAXVEC = 256;
constexpr int MAXKNOWN = 64;
constexpr int MAXSAMPLES = 6;

struct Slot {                        // one violation, filled by a worker
    std::atomic<int> used;
    int kind;                        // 1 property, 2 crash, 3 hang, 4 nondeterminism
    int nvec;
    int vec[MAXVEC];
    char body[64];
    char key[256];
    char msg[6000];
    char notes[12000];
};

struct Sample { std::atomic<int> used; char text[3000]; };

struct Shared {
    std::atomic<uint64_t> executions, transitions, checks, pruned;
    std::atomic<uint64_t> maxdepth;
    Slot slot;
    std::atomic<uint64_t> knownhits[MAXKNOWN];
    Sample samples[MAXSAMPLES];
    std::atomic<uint64_t> outcome_bits[64]; // 4096-bit sketch of distinct outcomes
    uint8_t bitmap[BITMAP_BITS / 8];
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
inline uint64_t hashd(uint64_t h, double d) {
    if (d == 0) d = 0;
    float f = float(d);              // rounded: the state count is of model states
    uint32_t u; std::memcpy(&u, &f, 4);
    return mix(h, u);
}

struct Options {
    bool thorough = false;
    int workers = 8;
    std::string replay;              // "body:1,2,3"
    std::vector<std::string> known;
    std::string only;                // run only this body
    int patience = 4;                // ticks of 5 s of CPU time before an execution counts as hung
};

struct Ctx;
typedef std::function<void(Ctx &)> Body;

struct Globals {
    Shared *sh = nullptr;
    Options opt;
    const std::vector<int> *curvec = nullptr;
    const char *curbody = "";
    volatile uint64_t progress = 0;
    uint64_t lastprogress = 0; int stuck = 0;
    bool replaying = false;
    char curnote[512];
};
inline Globals &G() { static Globals g; return g; }

inline void fill(char *dst, size_t n, const std::string &s) {
    size_t k = s.size() < n - 1 ? s.size() : n - 1;
    std::memcpy(dst, s.data(), k); dst[k] = 0;
}

inline void signal_report(int kind, const char *what) {
    Globals &g = G();
    Slot &s = g.sh->slot;
    int expected = 0;
    if (s.used.compare_exchange_strong(expected, 1)) {
        s.kind = kind;
        s.nvec = 0;
        if (g.curvec) for (size_t i = 0; i < g.curvec->size() && i < MAXVEC; ++i) s.vec[s.nvec++] = (*g.curvec)[i];
        std::strncpy(s.body, g.curbody, 63);
        std::strncpy(s.key, what, 255);
        std::strncpy(s.msg, what, 255);
        std::strncat(s.msg, " while: ", 10);
        std::strncat(s.msg, g.curnote, 500);
        s.used.store(2);
    }
    _exit(97);
}
inline void on_crash(int sig) {
    signal_report(2, sig == SIGABRT ? "the process aborted (failed assertion, uncaught exception or sanitizer report)"
                   : sig == SIGSEGV ? "segmentation fault"
                   : sig == SIGFPE ? "arithmetic trap" : "fatal signal");
}
inline void on_tick(int) {
    Globals &g = G();
    if (g.progress == g.lastprogress) {
        if (++g.stuck >= g.opt.patience) signal_report(3, "the operation does not terminate (it used more than 20 s of CPU time)");
    } else { g.stuck = 0; g.lastprogress = g.progress; }
}

struct Ctx {
    std::vector<int> vec, arity;
    size_t pos = 0, changed = 0;
    bool verbose = false;
    std::string notes;
    int worker = 0, nworkers = 1;
    bool replay_mode = false;
    uint64_t nexec = 0, ntrans = 0, nchecks = 0, npruned = 0;
    std::set<std::string> known;

    // A nondeterministic choice in 0..n-1.
    int choose(int n) {
        if (n <= 0) throw Prune();
        if (pos < vec.size()) {
            if (pos < arity.size() && arity[pos] != n)
                throw Violation{"nondeterminism", "the choice structure changed on re-execution: the code under test behaved differently on identical inputs"};
            if (pos >= arity.size()) arity.push_back(n);
            if (vec[pos] >= n) throw Violation{"nondeterminism", "replayed choice out of range"};
        } else {
            vec.push_back(0);
            arity.push_back(n);
        }
        return vec[pos++];
    }
    // true if the current position is new in this execution (so checks made
    // here were not already made for the same prefix by an earlier one)
    bool fresh() const { return pos > changed || verbose; }
    // Keep this execution only if its choices so far belong to this worker.
    void shard() {
        if (replay_mode || nworkers == 1) return;
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < pos; ++i) h = mix(h, uint64_t(vec[i]) + 17 * i);
        if (int((h >> 7) % nworkers) != worker) { npruned--; throw Prune(); }
    }
    template<class F> void note(F f) {
        if (verbose) {
            std::string s = f();
            notes += s; notes += "; ";
            fill(G().curnote, sizeof G().curnote, s);
        }
    }
    void step() { ++ntrans; }
    void state(uint64_t h) {
        size_t b = (mix(h, 0x1234567) >> 11) & (BITMAP_BITS - 1);
        uint8_t *p = &G().sh->bitmap[b >> 3];
        uint8_t m = uint8_t(1u << (b & 7));
        if (!(*p & m)) __atomic_fetch_or(p, m, __ATOMIC_RELAXED);
    }
    void outcome(uint64_t h) {
        h = mix(h, 77);
        G().sh->outcome_bits[(h >> 40) & 63].fetch_or(uint64_t(1) << ((h >> 20) & 63), std::memory_order_relaxed);
    }
    void prune() { throw Prune(); }
    void fail(const std::string &key, const std::string &msg) { throw Violation{key, msg}; }
    void check(bool ok, const char *key, const std::function<std::string()> &msg) {
        ++nchecks;
#ifndef VH_MEMONLY
        if (!ok) fail(key, msg());
#endif
    }
    bool thorough() const { return G().opt.thorough; }
};

inline std::string vecstr(const std::vector<int> &v) {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); }
    return s;
}

struct Harness {
    std::vector<std::pair<std::string, Body>> bodies;
    void add(const std::string &name, Body b) { bodies.push_back({name, b}); }

    // run one execution with the choices in c.vec; returns true if a violation
    static bool once(Ctx &c, const Body &b, Violation &v) {
        c.pos = 0;
        try { b(c); }
        catch (const Prune &) { c.npruned++; }
        catch (const Violation &x) { v = x; return true; }
        catch (const std::exception &e) {
#ifdef VH_MEMONLY
            return false;
#endif
            v = Violation{"unexpected-exception", std::string("the library threw an unexpected exception: ") + e.what()};
            return true;
        }
        return false;
    }

    static void record(const std::string &body, const std::vector<int> &vec, const Violation &v, const std::string &notes, int kind) {
        Slot &s = G().sh->slot;
        int expected = 0;
        if (!s.used.compare_exchange_strong(expected, 1)) return;
        s.kind = kind; s.nvec = 0;
        for (size_t i = 0; i < vec.size() && i < MAXVEC; ++i) s.vec[s.nvec++] = vec[i];
        fill(s.body, sizeof s.body, body);
        fill(s.key, sizeof s.key, v.key);
        fill(s.msg, sizeof s.msg, v.msg);
        fill(s.notes, sizeof s.notes, notes);
        s.used.store(2);
    }

    static std::string notes_of(const Body &b, const std::vector<int> &vec, Violation &v, bool &again) {
        Ctx r; r.vec = vec; r.verbose = true; r.replay_mode = true;
        again = once(r, b, v);
        return r.notes;
    }

#ifdef VH_LEAK
    static long taken(const Body &b, const std::vector<int> &vec) {
        Ctx r; r.vec = vec; r.arity.reserve(1024); r.vec.reserve(1024); r.replay_mode = true;
        Violation v;
        const long n = live();
        once(r, b, v);
        return live() - n;
    }
#endif
    void explore(int worker, int nworkers) {
        Globals &g = G();
        for (auto &nb : bodies) {
            if (!g.opt.only.empty() && g.opt.only != nb.first) continue;
            Ctx c; c.worker = worker; c.nworkers = nworkers;
            c.vec.reserve(1024); c.arity.reserve(1024);
            g.curvec = &c.vec; g.curbody = nb.first.c_str();
            bool more = true;
            while (more) {
                if (g.sh->slot.used.load(std::memory_order_relaxed)) break;
                Violation v;
                g.progress = g.progress + 1;
#ifdef VH_LEAK
                const long before = live();
#endif
                bool bad = once(c, nb.second, v);
#ifdef VH_LEAK
                // not the first use of something static: it happens each time
                if (!bad && live() != before) {
                    std::vector<int> vec(c.vec.begin(), c.vec.begin() + c.pos);
                    bool every = true;
                    for (int i = 0; i < 4 && every; ++i) every = taken(nb.second, vec) > 0;
                    if (every) {
                        Violation l{"leak", "memory is not given back: " + std::to_string(taken(nb.second, vec)) + " heap blocks remain after the variables are destroyed"};
                        Violation v2; bool again; std::string notes = notes_of(nb.second, vec, v2, again);
                        record(nb.first, vec, l, notes, 1);
                        break;
                    }
                }
#endif
                c.vec.resize(c.pos < c.vec.size() ? c.pos : c.vec.size());
                c.arity.resize(c.vec.size());
                ++c.nexec;
                if (bad) {
                    int ki = -1;
                    for (size_t i = 0; i < g.opt.known.size() && i < MAXKNOWN; ++i) if (g.opt.known[i] == v.key) ki = int(i);
                    if (ki >= 0) g.sh->knownhits[ki]++;
                    else {
                        std::vector<int> vec = c.vec;
                        Violation v2; bool again = false;
                        std::string notes = notes_of(nb.second, vec, v2, again);
                        if (!again) notes += "[this violation depends on the history of the whole exploration: replay re-runs the body] ";
                        record(nb.first, vec, v, notes, again ? 1 : 4);
                        break;
                    }
                }
                if (worker == 0 && (c.nexec == 2 || c.nexec == 1000 || c.nexec == 50000)) {
                    Violation v2; bool again;
                    std::string notes = notes_of(nb.second, c.vec, v2, again);
                    for (auto &s : g.sh->samples) {
                        int e = 0;
                        if (s.used.compare_exchange_strong(e, 1)) { fill(s.text, sizeof s.text, nb.first + ":" + vecstr(c.vec) + " = " + notes); break; }
                    }
                    g.curvec = &c.vec;
                }
                uint64_t d = c.vec.size();
                if (d > g.sh->maxdepth.load(std::memory_order_relaxed)) g.sh->maxdepth.store(d);
                // next choice vector
                more = false;
                while (!c.vec.empty()) {
                    if (++c.vec.back() < c.arity.back()) { c.changed = c.vec.size() - 1; more = true; break; }
                    c.vec.pop_back(); c.arity.pop_back();
                }
            }
            g.sh->executions += c.nexec; g.sh->transitions += c.ntrans;
            g.sh->checks += c.nchecks; if (int64_t(c.npruned) > 0) g.sh->pruned += c.npruned;
        }
    }

    static std::string jesc(const std::string &s) {
        std::string o;
        for (unsigned char ch : s) {
            if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
            else if (ch < 32 || ch >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += char(ch);
        }
        return o;
    }

    int main(int argc, char **argv) {
        Globals &g = G();
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--thorough") g.opt.thorough = true;
            else if (a == "--workers") g.opt.workers = std::atoi(val().c_str());
            else if (a == "--replay") g.opt.replay = val();
            else if (a == "--patient") g.opt.patience = 12;
            else if (a == "--known") g.opt.known.push_back(val());
            else if (a == "--only") g.opt.only = val();
        }
        g.sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (g.sh == MAP_FAILED) { std::perror("mmap"); return 3; }
        struct rlimit rc = {0, 0}; setrlimit(RLIMIT_CORE, &rc);
#ifndef __SANITIZE_ADDRESS__
        struct rlimit ra = {rlim_t(3) << 30, rlim_t(3) << 30}; setrlimit(RLIMIT_AS, &ra);
#endif
        int nw = g.opt.replay.empty() ? g.opt.workers : 1;
        std::vector<pid_t> pids;
        std::fflush(stdout);
        for (int w = 0; w < nw; ++w) {
            pid_t p = fork();
            if (p < 0) { std::perror("fork"); return 3; }
            if (p == 0) {
                for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL}) signal(s, on_crash);
                signal(SIGPROF, on_tick);
                struct itimerval it = {{5, 0}, {5, 0}};
                setitimer(ITIMER_PROF, &it, nullptr);
                if (!g.opt.replay.empty()) replay();
                else explore(w, nw);
                std::fflush(stdout);
                _exit(0);
            }
            pids.push_back(p);
        }
        bool odd = false;
        for (pid_t p : pids) {
            int st; waitpid(p, &st, 0);
            if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 97))) odd = true;
        }
        Shared &s = *g.sh;
        uint64_t states = 0;
        for (size_t i = 0; i < BITMAP_BITS / 64; ++i) { uint64_t w; std::memcpy(&w, &s.bitmap[i * 8], 8); if (w) states += __builtin_popcountll(w); }
        uint64_t outs = 0;
        for (auto &o : s.outcome_bits) outs += __builtin_popcountll(o.load());
        std::ostringstream o;
        o << "{\"executions\":" << s.executions << ",\"transitions\":" << s.transitions << ",\"states\":" << states
          << ",\"checks\":" << s.checks << ",\"maxdepth\":" << s.maxdepth << ",\"outcomes\":" << outs << ",\"samples\":[";
        bool first = true;
        for (auto &x : s.samples) if (x.used) { o << (first ? "" : ",") << '"' << jesc(x.text) << '"'; first = false; }
        o << "],\"known\":{";
        first = true;
        for (size_t i = 0; i < g.opt.known.size() && i < MAXKNOWN; ++i) if (s.knownhits[i]) { o << (first ? "" : ",") << '"' << jesc(g.opt.known[i]) << "\":" << s.knownhits[i]; first = false; }
        o << "}";
        int rc2 = 0;
        if (s.slot.used) {
            std::vector<int> v(s.slot.vec, s.slot.vec + s.slot.nvec);
            static const char *kinds[] = {"", "property", "crash", "hang", "history"};
            o << ",\"violation\":{\"kind\":\"" << kinds[s.slot.kind] << "\",\"key\":\"" << jesc(s.slot.key) << "\",\"msg\":\"" << jesc(s.slot.msg)
              << "\",\"notes\":\"" << jesc(s.slot.notes) << "\",\"replay\":\"" << jesc(std::string(s.slot.body) + ":" + vecstr(v)) << "\"}";
            rc2 = 1;
        } else if (odd) { o << ",\"error\":\"a worker ended abnormally\""; rc2 = 3; }
        o << "}";
        std::cout << "RESULT " << o.str() << std::endl;
        return rc2;
    }

    void replay() {
        Globals &g = G();
        size_t c = g.opt.replay.find(':');
        std::string name = g.opt.replay.substr(0, c);
        std::vector<int> vec;
        std::istringstream is(c == std::string::npos ? "" : g.opt.replay.substr(c + 1));
        std::string t;
        while (std::getline(is, t, ',')) if (!t.empty()) vec.push_back(std::atoi(t.c_str()));
        for (auto &nb : bodies) if (nb.first == name) {
            Ctx r; r.vec = vec; r.verbose = true; r.replay_mode = true;
            g.curvec = &r.vec; g.curbody = nb.first.c_str();
            Violation v;
            bool bad = once(r, nb.second, v);
#ifdef VH_LEAK
            if (!bad) {
                bad = true;
                for (int i = 0; i < 4 && bad; ++i) bad = taken(nb.second, vec) > 0;
                if (bad) v = Violation{"leak", "memory is not given back"};
            }
#endif
            g.sh->executions += 1; g.sh->transitions += r.ntrans; g.sh->checks += r.nchecks;
            std::cout << "TRACE " << r.notes << std::endl;
            if (bad) record(name, vec, v, r.notes, 1);
            return;
        }
        std::cout << "no such body: " << name << std::endl;
    }
};

// ---- comparison helpers ----
inline bool near(long double a, long double b, long double tol) {
    if (std::isnan(a) || std::isnan(b)) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= tol;
}
inline std::string num(long double x) { char b[64]; std::snprintf(b, sizeof b, "%.17Lg", x); return b; }

} // namespace vh
#endif
