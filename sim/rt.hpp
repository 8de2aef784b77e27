// Simulator runtime: seeded PRNG, plan/trace representation, simulated heap, fault accounting.
// Nothing in this file knows anything about dd_package.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>


namespace sim {

// ---------------------------------------------------------------- PRNG
inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t s = a * 0x9e3779b97f4a7c15ULL ^ (b + 0x7f4a7c15ULL);
    splitmix(s);
    return splitmix(s);
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed):
        s(mix(seed, 0xD15EA5E)) {}
    uint64_t next() { return splitmix(s); }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    double   unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool     chance(double p) { return unit() < p; }
    int      range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo + 1))); }
};

// ---------------------------------------------------------------- plans
// A plan is the complete, explicit description of one simulated execution: which world, which
// configuration of the package, how the heap is laid out, and the list of steps (operations and
// faults).  Steps carry raw numbers which the world interprets modulo what is available, so that any
// sub-list of a plan is again a plan (needed for minimisation).
struct Act {
    int      kind = 0;
    uint32_t a[6] = {0, 0, 0, 0, 0, 0};
    uint32_t fault = 0; // 0: none; k>0: the k-th allocation inside this step fails
};
struct Layout {
    uint32_t stride  = 0; // 0 dense, 1 random gaps, 2 2MiB multiples, 3 4GiB-ish multiples, 4 page gaps
    uint32_t reuse   = 0; // 0 LIFO, 1 never, 2 FIFO
    uint32_t fill    = 0; // pattern index for fresh/freed memory
    uint32_t salt    = 0;
};
struct Plan {
    std::string      check;
    int              world  = 0;
    int              config = 0;
    uint64_t         seed   = 0; // value seed used for data derived inside steps
    uint32_t         knob[8] = {0};
    Layout           layout;
    std::vector<Act> acts;
};

// ---------------------------------------------------------------- violations
struct Violation {
    std::string oracle; // stable class name
    std::string what;   // human-readable detail
};
struct Skip {}; // a run that turned out to be vacuous

constexpr int MAXC = 160;
// named counters (faults fired, probes, ...) with ids resolved at compile time through a registry
int         counterId(const char* name); // stable within one binary
const char* counterName(int id);
int         counterCount();

struct Ctx {
    uint64_t hash  = 0xcbf29ce484222325ULL;
    uint64_t steps = 0;
    uint64_t* counters; // MAXC
    bool     verbose = false;
    std::vector<double>* trace = nullptr; // observed numbers, for comparing executions
    int      step    = -1;
    void (*between)() = nullptr; // called between two steps
    void     h(uint64_t v) { hash = (hash ^ v) * 0x100000001b3ULL + (hash >> 29); }
    void     hd(double d) {
        if (trace != nullptr) {
            trace->push_back(d);
        }
        // observable numbers enter the hash rounded to 1e-9 so that it names behaviour, not last bits
        double x = d * 1e9;
        if (!(x > -9e18 && x < 9e18)) {
            h(0xbadf00d);
            return;
        }
        h(static_cast<uint64_t>(static_cast<int64_t>(x + (x < 0 ? -0.5 : 0.5))));
    }
    void count(int id, uint64_t n = 1) { counters[id] += n; }
    [[noreturn]] void fail(const std::string& oracle, const std::string& what) { throw Violation{oracle, what}; }
};
#define SIM_COUNT(ctx, name)                                    \
    do {                                                        \
        static const int id_ = ::sim::counterId(name);          \
        (ctx).count(id_);                                       \
    } while (0)
#define SIM_COUNTN(ctx, name, n)                                \
    do {                                                        \
        static const int id_ = ::sim::counterId(name);          \
        (ctx).count(id_, (n));                                  \
    } while (0)

// ---------------------------------------------------------------- simulated heap
// All operator new/delete of the process go through here once activate() was called (in the child that
// executes one run).  Addresses, reuse order, contents of fresh memory and allocation failures are all
// functions of the plan.
namespace heap {
    void     activate(const Layout& l);
    bool     active();
    void     arm(uint64_t failAt);  // the failAt-th allocation from now on throws std::bad_alloc (1 = next)
    uint64_t disarm();              // returns how many allocations happened since arm(); clears
    bool     fired();               // whether the armed failure was delivered
    uint64_t liveBytes(int tid); // bytes of that arena currently allocated
    constexpr int HARNESS = 9;
    uint64_t totalAllocs();
    // Scope for calls into the code under test: allocations come from that (simulated) thread's arena,
    // obey the plan's layout and can be made to fail.  Everything else is harness memory.
    void setThread(int tid); // the arena which Repo uses on this thread
    int  thread();
    bool inRepo();
    struct Repo {
        int old;
        explicit Repo(int tid = -1);
        ~Repo();
    };
    struct Own { // what the simulation itself allocates while the library is calling it
        int old;
        Own();
        ~Own();
    };
} // namespace heap

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
} // namespace sim
