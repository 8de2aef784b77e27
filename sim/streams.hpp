// Simulated storage: byte streams whose chunking, short transfers and failures are decided by the plan.
#pragma once
#include "rt.hpp"

#include <streambuf>
#include <string>
#include <ios>

namespace sim {
// reader: delivers `data` in seed-chosen pieces; optionally reports an I/O error (throws from underflow, which
// istream turns into badbit) or a premature end at byte `cut`
class SimIn: public std::streambuf {
public:
    enum Mode { Ok, Eof, Error };
    SimIn(const std::string& d, uint64_t seed, int maxChunk, Mode m = Ok, std::size_t c = 0):
        data(d), rng(seed), maxChunk_(maxChunk), mode(m), cut(c) {}
    uint64_t refills = 0;
    bool     faulted = false;

protected:
    int_type underflow() override {
        if (gptr() < egptr()) {
            return traits_type::to_int_type(*gptr());
        }
        std::size_t end = data.size();
        if (mode != Ok && cut < end) {
            end = cut;
        }
        if (pos >= end) {
            if (mode == Error && end < data.size()) {
                faulted = true;
                throw std::ios_base::failure("simulated EIO");
            }
            if (mode == Eof && end < data.size()) {
                faulted = true;
            }
            return traits_type::eof();
        }
        std::size_t n = 1 + rng.below(static_cast<uint64_t>(maxChunk_));
        n             = std::min(n, end - pos);
        n             = std::min(n, sizeof buf);
        std::memcpy(buf, data.data() + pos, n);
        pos += n;
        ++refills;
        setg(buf, buf, buf + n);
        return traits_type::to_int_type(*gptr());
    }

private:
    std::string data;
    Rng         rng;
    int         maxChunk_;
    Mode        mode;
    std::size_t cut;
    std::size_t pos = 0;
    char        buf[4096];
};
// writer: collects what reached the medium; after `limit` bytes the medium is full / broken
class SimOut: public std::streambuf {
public:
    SimOut(uint64_t seed, int bufSize, std::size_t lim = static_cast<std::size_t>(-1), bool heals = false):
        rng(seed), limit(lim), once(heals), cap(static_cast<std::size_t>(bufSize)) {
        if (cap > 0) {
            buf.resize(cap);
            setp(&buf[0], &buf[0] + static_cast<std::ptrdiff_t>(cap));
        }
    }
    std::string medium;
    bool        faulted = false;
    uint64_t    flushes = 0;
    bool        drain() {
        const std::size_t n = static_cast<std::size_t>(pptr() - pbase());
        if (n == 0) {
            return true;
        }
        ++flushes;
        const bool ok = put(pbase(), n);
        setp(&buf[0], &buf[0] + static_cast<std::ptrdiff_t>(cap));
        return ok;
    }

protected:
    bool put(const char* s, std::size_t n) {
        heap::Own own;
        const std::size_t room = limit > medium.size() ? limit - medium.size() : 0;
        if (n > room) {
            medium.append(s, room); // torn write
            faulted = true;
            if (once) {
                limit = static_cast<std::size_t>(-1);
            }
            return false;
        }
        medium.append(s, n);
        return true;
    }
    int_type overflow(int_type c) override {
        if (cap == 0) {
            if (c == traits_type::eof()) {
                return 0;
            }
            const char ch = traits_type::to_char_type(c);
            return put(&ch, 1) ? c : traits_type::eof();
        }
        if (!drain()) {
            return traits_type::eof();
        }
        if (c != traits_type::eof()) {
            *pptr() = traits_type::to_char_type(c);
            pbump(1);
        }
        return c == traits_type::eof() ? 0 : c;
    }
    int sync() override { return drain() ? 0 : -1; }

private:
    Rng         rng;
    std::size_t limit;
    bool        once = false; // the medium fails only once
    std::size_t cap;
    std::string buf;
};
} // namespace sim
