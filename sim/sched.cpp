#include "rt.hpp"
#include "sched.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <sched.h>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <cxxabi.h>
#include <iostream>
#include <thread>

extern "C" char __data_start, _end;

namespace sim::sched {
namespace {
struct T {
    sem_t sem;
    bool  alive = true;
};
std::vector<std::unique_ptr<T>>* g_t = nullptr;
Rng                              g_rng{0};
int                              g_grain = 0;
int64_t                          g_budget = 0;
uint64_t                         g_switches = 0, g_inner = 0, g_max = 0, g_points = 0;
bool                             g_stop = false;
thread_local int                 t_me = -1;     // index of this simulated thread
thread_local int                 t_noYield = 0; // inside the initialisation of a static object
thread_local bool                t_busy = false;

// ---- happens-before over the static objects of the process (everything else a thread uses is its own: its stack and
// its heap arena).  Threads start ordered after everything before; locks, initialisations of static objects and
// atomic operations order them.
constexpr int MAXT = 3;
struct Shadow {
    uint32_t w = 0;                  // clock of the last write << 2 | its thread
    uint32_t r[MAXT] = {0, 0, 0};    // clock of the last read per thread
};
struct Clock {
    uint32_t c[MAXT] = {0, 0, 0};
};
Shadow*                     g_shadow = nullptr;
uintptr_t                   g_lo = 0, g_hi = 0, g_skip[3][2] = {};
Clock                       g_vc[MAXT];
std::map<const void*, Clock>* g_sync = nullptr;
uintptr_t                   g_raceAt = 0;
int                         g_raceA = 0, g_raceB = 0, g_raceW = 0;
uint64_t                    g_watched = 0;

// A write counts once its effect is known: one that leaves the value as it is cannot be noticed by anybody.
struct Pending {
    uintptr_t   a = 0;
    std::size_t n = 0;
    char        old[64];
};
Pending g_pending;

void shadowReset() {
    if (g_shadow == nullptr) {
        g_lo = reinterpret_cast<uintptr_t>(&__data_start);
        g_hi = reinterpret_cast<uintptr_t>(&_end);
        const std::ostream* s[3] = {&std::cout, &std::cerr, &std::clog};
        for (int i = 0; i < 3; ++i) {
            g_skip[i][0] = reinterpret_cast<uintptr_t>(s[i]);
            g_skip[i][1] = g_skip[i][0] + sizeof(std::ostream);
        }
        g_sync = new std::map<const void*, Clock>();
    } else {
        munmap(g_shadow, (g_hi - g_lo) * sizeof(Shadow));
    }
    g_shadow = static_cast<Shadow*>(mmap(nullptr, (g_hi - g_lo) * sizeof(Shadow), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    g_sync->clear();
    for (int i = 0; i < MAXT; ++i) {
        g_vc[i]      = Clock{};
        g_vc[i].c[i] = 1;
    }
    g_raceAt    = 0;
    g_pending.a = 0;
}
void acquire(const void* a) {
    const auto it = g_sync->find(a);
    if (it != g_sync->end()) {
        for (int i = 0; i < MAXT; ++i) {
            g_vc[t_me].c[i] = std::max(g_vc[t_me].c[i], it->second.c[i]);
        }
    }
}
void release(const void* a) {
    auto& s = (*g_sync)[a];
    for (int i = 0; i < MAXT; ++i) {
        s.c[i] = std::max(s.c[i], g_vc[t_me].c[i]);
    }
    ++g_vc[t_me].c[t_me];
}
void touch(uintptr_t a, std::size_t n, bool write) {
    for (auto& s: g_skip) {
        if (a >= s[0] && a < s[1]) {
            return;
        }
    }
    ++g_watched;
    auto& me = g_vc[t_me];
    for (std::size_t k = 0; k < n && a + k < g_hi; ++k) {
        auto& x   = g_shadow[a + k - g_lo];
        int   bad = -1;
        if (x.w != 0 && static_cast<int>(x.w & 3U) != t_me && (x.w >> 2) > me.c[x.w & 3U]) {
            bad = static_cast<int>(x.w & 3U);
        }
        if (write) {
            for (int i = 0; i < MAXT; ++i) {
                if (i != t_me && x.r[i] > me.c[i]) {
                    bad = i;
                }
            }
            x.w = me.c[t_me] << 2 | static_cast<unsigned>(t_me);
        } else {
            x.r[t_me] = me.c[t_me];
        }
        if (bad >= 0 && g_raceAt == 0) {
            g_raceAt = a;
            g_raceA  = t_me;
            g_raceB  = bad;
            g_raceW  = write ? 1 : 0;
        }
    }
}

void    settle() {
    if (g_pending.a != 0) {
        const auto a = g_pending.a;
        g_pending.a  = 0;
        if (std::memcmp(reinterpret_cast<const void*>(a), g_pending.old, g_pending.n) != 0) {
            touch(a, g_pending.n, true);
        }
    }
}

int64_t budget() {
    switch (g_grain) {
        case 0: return INT64_MAX;
        case 1: return 1 + static_cast<int64_t>(g_rng.below(20000));
        case 2: return 1 + static_cast<int64_t>(g_rng.below(2500));
        case 3: return 1 + static_cast<int64_t>(g_rng.below(300));
        default: return 1 + static_cast<int64_t>(g_rng.chance(0.4) ? g_rng.below(25) : g_rng.below(4000));
    }
}
void pass(int next) {
    const int me = t_me;
    if (next == me) {
        return;
    }
    ++g_switches;
    settle();
    sem_post(&(*g_t)[static_cast<std::size_t>(next)]->sem);
    while (sem_wait(&(*g_t)[static_cast<std::size_t>(me)]->sem) != 0 && errno == EINTR) {
    }
}
int pickAlive(int except) {
    int n = 0;
    for (std::size_t i = 0; i < g_t->size(); ++i) {
        n += (*g_t)[i]->alive && static_cast<int>(i) != except ? 1 : 0;
    }
    if (n == 0) {
        return -1;
    }
    auto k = static_cast<int>(g_rng.below(static_cast<uint64_t>(n)));
    for (std::size_t i = 0; i < g_t->size(); ++i) {
        if ((*g_t)[i]->alive && static_cast<int>(i) != except && k-- == 0) {
            return static_cast<int>(i);
        }
    }
    return -1;
}
void yield(bool inner) {
    t_busy = true;
    g_budget = budget();
    if (g_switches < g_max) {
        const int n = pickAlive(-1);
        if (n >= 0 && n != t_me) {
            g_inner += inner ? 1 : 0;
            pass(n);
        }
    } else {
        g_budget = INT64_MAX;
    }
    t_busy = false;
}
} // namespace
void boundary() {
    if (t_me < 0) {
        return;
    }
    if (g_stop) {
        throw Stop{};
    }
    if (g_rng.chance(0.5)) {
        yield(false);
    }
}
void     stop() { g_stop = true; }
uint64_t switches() { return g_switches; }
uint64_t inner() { return g_inner; }
uint64_t points() { return g_points; }
uint64_t watched() { return g_watched; }
std::string race() {
    if (g_raceAt == 0) {
        return "";
    }
    Dl_info     d{};
    std::string name = strf("object at %#lx", static_cast<unsigned long>(g_raceAt));
    if (dladdr(reinterpret_cast<void*>(g_raceAt), &d) != 0 && d.dli_sname != nullptr) {
        int   st = 0;
        char* n  = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
        name     = n != nullptr ? n : d.dli_sname;
        free(n);
    }
    return strf("thread %d %s a static object that thread %d uses at the same time, without any synchronisation: %s", g_raceA, g_raceW != 0 ? "writes" : "reads", g_raceB, name.c_str());
}
void     run(const std::vector<int>& arenas, uint64_t seed, int grain, uint64_t maxSwitches, const std::function<void(int)>& f) {
    std::vector<std::unique_ptr<T>> ts;
    g_t        = &ts;
    g_rng      = Rng(mix(seed, 0x5C4ED));
    g_grain    = grain;
    g_max      = maxSwitches;
    g_budget   = budget();
    shadowReset();
    { // only one thread runs at a time anyway: handing over is cheaper on one processor
        cpu_set_t one;
        CPU_ZERO(&one);
        const int cpu = sched_getcpu();
        if (cpu >= 0 && cpu < CPU_SETSIZE) {
            CPU_SET(cpu, &one);
            sched_setaffinity(0, sizeof one, &one);
        }
    }
    std::vector<std::thread> th;
    for (std::size_t i = 0; i < arenas.size(); ++i) {
        ts.push_back(std::make_unique<T>());
        sem_init(&ts.back()->sem, 0, 0);
    }
    for (std::size_t i = 0; i < arenas.size(); ++i) {
        th.emplace_back([&, i] {
            while (sem_wait(&ts[i]->sem) != 0 && errno == EINTR) {
            }
            heap::setThread(arenas[i]);
            t_me = static_cast<int>(i);
            f(static_cast<int>(i));
            settle();
            t_me = -1;
            ts[i]->alive = false;
            const int n  = pickAlive(-1);
            g_budget     = budget();
            if (n >= 0) {
                sem_post(&ts[static_cast<std::size_t>(n)]->sem);
            }
        });
    }
    const int first = pickAlive(-1);
    sem_post(&ts[static_cast<std::size_t>(first)]->sem);
    for (auto& x: th) {
        x.join();
    }
    g_t = nullptr;
}
} // namespace sim::sched

using namespace sim::sched;
extern "C" {
// every basic block of instrumented code
void __sanitizer_cov_trace_pc() {
    if (t_me < 0 || t_busy || t_noYield != 0 || !sim::heap::inRepo()) {
        return;
    }
    ++g_points;
    if (--g_budget > 0) {
        return;
    }
    yield(true);
}
// ---- memory accesses of instrumented code (compiled with -fsanitize=thread, but not linked with its runtime)
static inline void access(const void* p, std::size_t n, bool write) {
    const auto a = reinterpret_cast<uintptr_t>(p);
    if (t_me < 0 || a < g_lo || a >= g_hi || t_busy || !sim::heap::inRepo()) {
        return;
    }
    if (t_noYield == 0 && g_grain >= 3) {
        // an interesting point to switch: between reading and writing something others can see
        ++g_points;
        g_budget -= 20;
        if (g_budget <= 0) {
            yield(true);
        }
    }
    t_busy = true;
    settle();
    if (write && n <= sizeof g_pending.old) {
        g_pending.a = a;
        g_pending.n = n;
        std::memcpy(g_pending.old, p, n);
    } else {
        touch(a, n, write);
    }
    t_busy = false;
}
static inline void atomicAccess(const volatile void* p, bool rel) {
    if (t_me < 0 || t_busy) {
        return;
    }
    t_busy = true;
    settle();
    acquire(const_cast<const void*>(p));
    if (rel) {
        release(const_cast<const void*>(p));
    }
    t_busy = false;
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { access(p, sizeof(void*), true); }
void __tsan_vptr_read(void** p) { access(p, sizeof(void*), false); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) {
    access(const_cast<void*>(s), n, false);
    access(d, n, true);
    return std::memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, std::size_t n) {
    access(const_cast<void*>(s), n, false);
    access(d, n, true);
    return std::memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, std::size_t n) {
    access(d, n, true);
    return std::memset(d, v, n);
}
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true); }
#define SIM_ACC(N)                                                          \
    void __tsan_read##N(void* p) { access(p, N, false); }                    \
    void __tsan_write##N(void* p) { access(p, N, true); }                    \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false); }          \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true); }
SIM_ACC(1)
SIM_ACC(2)
SIM_ACC(4)
SIM_ACC(8)
SIM_ACC(16)
#define SIM_ATOMIC(B, T)                                                                                       \
    T __tsan_atomic##B##_load(const volatile T* p, int) {                                                      \
        atomicAccess(p, false);                                                                                \
        return __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                           \
    }                                                                                                          \
    void __tsan_atomic##B##_store(volatile T* p, T v, int) {                                                   \
        atomicAccess(p, true);                                                                                 \
        __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                          \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int) {                                                   \
        atomicAccess(p, true);                                                                                 \
        return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) {                                                  \
        atomicAccess(p, true);                                                                                 \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) {                                                  \
        atomicAccess(p, true);                                                                                 \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) {                                                  \
        atomicAccess(p, true);                                                                                 \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) {                                                   \
        atomicAccess(p, true);                                                                                 \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                      \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) {                                                  \
        atomicAccess(p, true);                                                                                 \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                     \
    }                                                                                                          \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int) {                                                 \
        atomicAccess(p, true);                                                                                 \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                    \
    }                                                                                                          \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) {                       \
        atomicAccess(p, true);                                                                                 \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0;        \
    }                                                                                                          \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) {                         \
        atomicAccess(p, true);                                                                                 \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0;        \
    }
SIM_ATOMIC(8, uint8_t)
SIM_ATOMIC(16, uint16_t)
SIM_ATOMIC(32, uint32_t)
SIM_ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { atomicAccess(&g_shadow, true); }
void __tsan_atomic_signal_fence(int) {}

// static objects are initialised without being interrupted: exactly one thread runs at a time, so nobody ever waits
int __cxa_guard_acquire(uint64_t* g) {
    atomicAccess(g, false);
    if (*reinterpret_cast<char*>(g) != 0) {
        return 0;
    }
    ++t_noYield;
    return 1;
}
void __cxa_guard_release(uint64_t* g) {
    *reinterpret_cast<char*>(g) = 1;
    atomicAccess(g, true);
    --t_noYield;
}
void __cxa_guard_abort(uint64_t* g) {
    (void)g;
    --t_noYield;
}
// whoever waits for a lock passes the baton on
int pthread_mutex_lock(pthread_mutex_t* m) {
    using F = int (*)(pthread_mutex_t*);
    static F lock = nullptr, tryl = nullptr;
    if (lock == nullptr) {
        lock = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
        tryl = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
    }
    if (t_me < 0 || t_busy) {
        return lock(m);
    }
    int r = 0;
    while ((r = tryl(m)) == EBUSY) {
        t_busy      = true;
        const int n = pickAlive(t_me);
        if (n < 0) {
            t_busy = false;
            return lock(m); // nobody can release it
        }
        pass(n);
        t_busy = false;
    }
    atomicAccess(m, false);
    return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    using F       = int (*)(pthread_mutex_t*);
    static F next = nullptr;
    if (next == nullptr) {
        next = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
    }
    atomicAccess(m, true);
    return next(m);
}
}
