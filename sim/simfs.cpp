#include "simfs.hpp"

#include <cerrno>
#include <cstdio>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim::fs {
struct Open {
    std::string path;
    bool        write = false;
    int64_t     moved = 0;
};
static std::map<std::string, std::string>* g_disk;
static std::map<int, Open>*                g_open;
static Faults                              g_f;
static Stats                               g_s;
static Rng                                 g_rng{0};
std::map<std::string, std::string>& disk() {
    if (g_disk == nullptr) {
        g_disk = new std::map<std::string, std::string>();
        g_open = new std::map<int, Open>();
    }
    return *g_disk;
}
void reset() {
    disk().clear();
    g_f = Faults{};
}
void setFaults(const Faults& f) {
    disk();
    g_f   = f;
    g_rng = Rng(f.seed);
}
Stats& stats() { return g_s; }

static Open* find(int fd) {
    if (g_open == nullptr) {
        return nullptr;
    }
    auto it = g_open->find(fd);
    return it == g_open->end() ? nullptr : &it->second;
}
static FILE* openSim(const char* path, const char* mode) {
    sim::heap::Own own;
    ++g_s.opens;
    if (g_f.openFails) {
        ++g_s.openErr;
        errno = EACCES;
        return nullptr;
    }
    const bool w = mode[0] == 'w' || mode[0] == 'a';
    if (!w && disk().count(path) == 0) {
        errno = ENOENT;
        return nullptr;
    }
    const int fd = static_cast<int>(syscall(SYS_memfd_create, "simfs", 0));
    if (fd < 0) {
        std::fprintf(stderr, "sim: memfd_create failed\n");
        std::_Exit(98);
    }
    if (!w || mode[0] == 'a') {
        const auto& s = disk()[path];
        if (syscall(SYS_pwrite64, fd, s.data(), s.size(), 0) != static_cast<long>(s.size())) {
            std::_Exit(98);
        }
    } else {
        disk()[path].clear();
    }
    Open o;
    o.path        = path;
    o.write       = w;
    (*g_open)[fd] = o;
    return fdopen(fd, mode);
}
static ssize_t doWrite(int fd, Open& o, const char* p, size_t n) {
    sim::heap::Own own;
    if (g_f.eintr && g_rng.chance(0.3)) {
        ++g_s.eintrs;
        errno = EINTR;
        return -1;
    }
    if (n == 0) {
        return 0;
    }
    if (g_f.writeErrAt >= 0 && o.moved >= g_f.writeErrAt) {
        ++g_s.errors;
        if (g_f.once) {
            g_f.writeErrAt = -1;
        }
        errno = EIO;
        return -1;
    }
    size_t m = n;
    if (g_f.writeErrAt >= 0 && o.moved + static_cast<int64_t>(m) > g_f.writeErrAt) {
        m = static_cast<size_t>(g_f.writeErrAt - o.moved); // torn
    }
    if (g_f.spaceLeft >= 0) {
        if (o.moved >= g_f.spaceLeft) {
            ++g_s.full;
            if (g_f.once) {
                g_f.spaceLeft = -1;
            }
            errno = ENOSPC;
            return -1;
        }
        m = std::min<size_t>(m, static_cast<size_t>(g_f.spaceLeft - o.moved));
    }
    if (g_f.shortIo && m > 1 && g_rng.chance(0.5)) {
        m = 1 + g_rng.below(m - 1);
        ++g_s.shorts;
    }
    const auto r = syscall(SYS_write, fd, p, m);
    if (r > 0) {
        o.moved += r;
        disk()[o.path].append(p, static_cast<size_t>(r));
    }
    return r;
}
} // namespace sim::fs

using namespace sim::fs;
namespace sim::fs {
std::vector<Command>& commands() {
    static std::vector<Command> c;
    return c;
}
} // namespace sim::fs
extern "C" {
int system(const char* line) {
    if (line != nullptr) {
        sim::fs::commands().push_back({line, sim::fs::disk()});
    }
    return 0;
}
using fopen_t = FILE* (*)(const char*, const char*);
FILE* fopen64(const char* path, const char* mode) {
    if (std::strncmp(path, "/simfs/", 7) == 0) {
        return openSim(path, mode);
    }
    static auto real = reinterpret_cast<fopen_t>(dlsym(RTLD_NEXT, "fopen64"));
    return real(path, mode);
}
FILE* fopen(const char* path, const char* mode) {
    if (std::strncmp(path, "/simfs/", 7) == 0) {
        return openSim(path, mode);
    }
    static auto real = reinterpret_cast<fopen_t>(dlsym(RTLD_NEXT, "fopen"));
    return real(path, mode);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (auto* o = find(fd)) {
        return doWrite(fd, *o, static_cast<const char*>(b), n);
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* iov, int cnt) {
    if (auto* o = find(fd)) {
        ssize_t done = 0;
        for (int i = 0; i < cnt; ++i) {
            const auto r = doWrite(fd, *o, static_cast<const char*>(iov[i].iov_base), iov[i].iov_len);
            if (r < 0) {
                return done > 0 ? done : r;
            }
            done += r;
            if (static_cast<size_t>(r) < iov[i].iov_len) {
                return done;
            }
        }
        return done;
    }
    return syscall(SYS_writev, fd, iov, cnt);
}
ssize_t read(int fd, void* b, size_t n) {
    if (auto* o = find(fd)) {
        if (g_f.eintr && g_rng.chance(0.3)) {
            ++g_s.eintrs;
            errno = EINTR;
            return -1;
        }
        size_t m = n;
        if (g_f.readErrAt >= 0) {
            if (o->moved >= g_f.readErrAt) {
                ++g_s.errors;
                if (g_f.once) {
                    g_f.readErrAt = -1;
                }
                errno = EIO;
                return -1;
            }
            m = std::min<size_t>(m, static_cast<size_t>(g_f.readErrAt - o->moved));
        }
        if (g_f.shortIo && m > 1 && g_rng.chance(0.7)) {
            m = 1 + g_rng.below(m - 1);
            ++g_s.shorts;
        }
        const auto r = syscall(SYS_read, fd, b, m);
        if (r > 0) {
            o->moved += r;
        }
        return r;
    }
    return syscall(SYS_read, fd, b, n);
}
int fclose(FILE* f) {
    sim::heap::Own own;
    static auto real = reinterpret_cast<int (*)(FILE*)>(dlsym(RTLD_NEXT, "fclose"));
    const int   fd   = fileno(f);
    auto*       o    = find(fd);
    if (o != nullptr) {
        const bool w = o->write;
        g_open->erase(fd);
        real(f);
        if (w && g_f.closeFails) {
            ++g_s.closeErr;
            errno = EIO;
            return EOF;
        }
        return 0;
    }
    return real(f);
}
}
