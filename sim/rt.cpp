#include "rt.hpp"

#include <cstdarg>
#include <cstdlib>
#include <mutex>
#include <new>
#include <sys/mman.h>

namespace sim {
static const char* g_names[MAXC];
static int         g_n = 0;
int                counterId(const char* name) {
    for (int i = 0; i < g_n; ++i) {
        if (std::strcmp(g_names[i], name) == 0) {
            return i;
        }
    }
    if (g_n >= MAXC) {
        return MAXC - 1;
    }
    g_names[g_n] = name;
    return g_n++;
}
const char* counterName(int id) { return g_names[id]; }
int         counterCount() { return g_n; }

std::string strf(const char* fmt, ...) {
    char    buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

namespace heap {
    // Address space: 16 arenas of 64 GiB each at a fixed base, reserved lazily.
    constexpr uintptr_t BASE   = 0x200000000000ULL;
    constexpr uint64_t  ASIZE  = 1ULL << 37; // 128 GiB each
    constexpr int       NAREN  = 10;
    constexpr int       NCLASS = 48;

    struct Hdr { // precedes each block
        uint64_t size;
        uint32_t cls;
        uint32_t magic;
    };
    struct FreeNode {
        FreeNode* next;
    };
    struct Arena {
        uintptr_t cur   = 0;
        uintptr_t end   = 0;
        uint64_t  rng   = 0;
        FreeNode* head[NCLASS]{};
        FreeNode* tail[NCLASS]{};
        int       far = 0;
    };
    static Arena    g_arena[NAREN];
    static bool     g_active = false;
    static Layout   g_layout;
    static uint64_t g_live = 0, g_total = 0;
    static thread_local uint64_t g_armAt = 0, g_seen = 0;
    static thread_local bool     g_armed = false, g_fired = false;
    static uint64_t g_liveOf[NAREN];
    static thread_local int t_tid = HARNESS, t_own = 0;

    static unsigned char fillByte(bool freed) {
        switch (g_layout.fill) {
            case 0: return 0;
            case 1: return 0xAA;
            case 2: return 0xFF;
            case 3: return freed ? 0xDD : 0x00;
            case 4: return freed ? 0xDD : 0x7F;
            default: return static_cast<unsigned char>(0x11 * (g_layout.fill % 15));
        }
    }
    // size classes: powers of two and 1.5x powers of two from 16
    static int classOf(uint64_t n, uint64_t& rounded) {
        uint64_t c = 16;
        for (int i = 0; i < NCLASS; ++i) {
            if (n <= c) {
                rounded = c;
                return i;
            }
            c = (i & 1) ? (c / 3) * 4 : (c * 3) / 2;
            c = (c + 15) & ~15ULL;
        }
        rounded = (n + 4095) & ~4095ULL;
        return -1;
    }
    void activate(const Layout& l) {
        g_layout = l;
        for (int i = 0; i < NAREN; ++i) {
            auto base = BASE + static_cast<uint64_t>(i) * ASIZE;
            void* p   = mmap(reinterpret_cast<void*>(base), ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            if (p != reinterpret_cast<void*>(base)) {
                std::fprintf(stderr, "sim: cannot reserve arena\n");
                std::_Exit(99);
            }
            g_arena[i].cur = base + 64;
            g_arena[i].end = base + ASIZE;
            g_arena[i].rng = mix(l.salt, static_cast<uint64_t>(i) + 17);
        }
        g_active = true;
    }
    bool     active() { return g_active; }
    void     arm(uint64_t failAt) {
        g_armAt = failAt;
        g_seen  = 0;
        g_fired = false;
        g_armed = true;
    }
    uint64_t disarm() {
        g_armed = false;
        return g_seen;
    }
    bool     fired() { return g_fired; }
    uint64_t liveBytes(int tid) { return g_liveOf[tid]; }
    uint64_t totalAllocs() { return g_total; }
    void setThread(int tid) { t_own = tid; }
    int  thread() { return t_own; }
    bool inRepo() { return t_tid != HARNESS; }
    Repo::Repo(int tid):
        old(t_tid) { t_tid = tid < 0 ? t_own : tid; }
    Repo::~Repo() { t_tid = old; }
    Own::Own():
        old(t_tid) { t_tid = HARNESS; }
    Own::~Own() { t_tid = old; }

    static void* simAlloc(uint64_t n) {
        if (g_armed && t_tid != HARNESS) {
            ++g_seen;
            if (g_armAt != 0 && g_seen == g_armAt) {
                g_fired = true;
                throw std::bad_alloc();
            }
        }
        ++g_total;
        auto&    ar = g_arena[t_tid];
        uint64_t sz = 0;
        int      c  = classOf(n + sizeof(Hdr), sz);
        Hdr*     h  = nullptr;
        if (c >= 0 && ar.head[c] != nullptr && (g_layout.reuse != 1 || t_tid == HARNESS)) {
            FreeNode* f = ar.head[c];
            ar.head[c]  = f->next;
            if (ar.head[c] == nullptr) {
                ar.tail[c] = nullptr;
            }
            h = reinterpret_cast<Hdr*>(reinterpret_cast<char*>(f) - sizeof(Hdr));
        } else {
            uintptr_t at = ar.cur;
            switch (t_tid == HARNESS ? 0U : g_layout.stride) {
                case 1: at += (splitmix(ar.rng) % 64) * 16; break;
                case 2:
                    // keep every larger block congruent modulo 2 MiB with the previous one
                    if (n >= 256 && ar.far < 6000) {
                        ++ar.far;
                        at = ((at + (1ULL << 21) - 1) & ~((1ULL << 21) - 1)) + 64;
                    }
                    break;
                case 3:
                    if (n >= 512 && ar.far < 12) {
                        ++ar.far;
                        at = ((at + (1ULL << 32) - 1) & ~((1ULL << 32) - 1)) + 64 + (splitmix(ar.rng) % 4) * 16;
                    }
                    break;
                case 4:
                    if (n >= 128) {
                        at = ((at + 4095) & ~4095ULL) + 16 * (splitmix(ar.rng) % 8);
                    }
                    break;
                default: break;
            }
            if (at + sz + 4096 >= ar.end) {
                at = ar.cur; // gave out of far space: fall back to dense
                if (at + sz + 4096 >= ar.end) {
                    throw std::bad_alloc();
                }
            }
            h      = reinterpret_cast<Hdr*>(at);
            ar.cur = at + sz;
            ar.cur = (ar.cur + 15) & ~15ULL;
        }
        h->size  = n;
        h->cls   = static_cast<uint32_t>(c);
        h->magic = 0x5151D0D0U;
        auto* p  = reinterpret_cast<char*>(h) + sizeof(Hdr);
        if (n < (1U << 20) || g_layout.fill != 0) { // pages start out zero
            std::memset(p, fillByte(false), n);
        }
        g_live += n;
        g_liveOf[t_tid] += n;
        return p;
    }
    static void simFree(void* q) {
        auto* h = reinterpret_cast<Hdr*>(reinterpret_cast<char*>(q) - sizeof(Hdr));
        if (h->magic != 0x5151D0D0U) {
            std::fprintf(stderr, "sim: heap corruption or double free\n");
            std::abort();
        }
        h->magic = 0xDEADDEADU;
        g_live -= h->size;
        const auto base = (reinterpret_cast<uintptr_t>(q) - BASE) / ASIZE;
        auto&      ar   = g_arena[base];
        g_liveOf[base] -= h->size;
        if (h->size < (1U << 20) || g_layout.fill != 0) {
            std::memset(q, fillByte(true), h->size);
        }
        const int c = static_cast<int>(h->cls);
        if (c < 0) {
            return; // huge blocks are not reused
        }
        auto* f = reinterpret_cast<FreeNode*>(q);
        if (g_layout.reuse == 2) {
            f->next = nullptr;
            if (ar.tail[c] != nullptr) {
                ar.tail[c]->next = f;
            } else {
                ar.head[c] = f;
            }
            ar.tail[c] = f;
        } else {
            f->next    = ar.head[c];
            ar.head[c] = f;
            if (ar.tail[c] == nullptr) {
                ar.tail[c] = f;
            }
        }
    }
    static bool ours(void* p) {
        auto a = reinterpret_cast<uintptr_t>(p);
        return a >= BASE && a < BASE + static_cast<uint64_t>(NAREN) * ASIZE;
    }
    void* doNew(std::size_t n) {
        if (g_active) {
            return simAlloc(n == 0 ? 1 : n);
        }
        void* p = std::malloc(n == 0 ? 1 : n);
        if (p == nullptr) {
            throw std::bad_alloc();
        }
        return p;
    }
    void doDelete(void* p) {
        if (p == nullptr) {
            return;
        }
        if (ours(p)) {
            simFree(p);
        } else {
            std::free(p);
        }
    }
} // namespace heap
} // namespace sim

void* operator new(std::size_t n) { return sim::heap::doNew(n); }
void* operator new[](std::size_t n) { return sim::heap::doNew(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept {
    try {
        return sim::heap::doNew(n);
    } catch (...) {
        return nullptr;
    }
}
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept {
    try {
        return sim::heap::doNew(n);
    } catch (...) {
        return nullptr;
    }
}
void operator delete(void* p) noexcept { sim::heap::doDelete(p); }
void operator delete[](void* p) noexcept { sim::heap::doDelete(p); }
void operator delete(void* p, std::size_t) noexcept { sim::heap::doDelete(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::heap::doDelete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::heap::doDelete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::heap::doDelete(p); }
