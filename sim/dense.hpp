// Reference semantics: plain dense complex linear algebra, and the reading of a decision diagram as a
// dense object by an independent traversal that only looks at the public node/edge fields.
#pragma once
#include "rt.hpp"

#include <cmath>
#include <complex>
#include <vector>

namespace sim {
struct C {
    double r = 0, i = 0;
};
inline C operator+(C a, C b) { return {a.r + b.r, a.i + b.i}; }
inline C operator-(C a, C b) { return {a.r - b.r, a.i - b.i}; }
inline C operator*(C a, C b) { return {a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; }
inline C operator*(double s, C b) { return {s * b.r, s * b.i}; }
inline C conj(C a) { return {a.r, -a.i}; }
inline double mag2(C a) { return a.r * a.r + a.i * a.i; }
using Arr = std::vector<C>;

inline double maxAbs(const Arr& a) {
    double m = 0;
    for (auto& x: a) {
        m = std::fmax(m, std::fmax(std::fabs(x.r), std::fabs(x.i)));
    }
    return m;
}
inline bool finite(const Arr& a) {
    for (auto& x: a) {
        if (!std::isfinite(x.r) || !std::isfinite(x.i)) {
            return false;
        }
    }
    return true;
}
// max componentwise difference; NaN counts as infinite
inline double maxDiff(const Arr& a, const Arr& b) {
    if (a.size() != b.size()) {
        return 1e300;
    }
    double m = 0;
    for (std::size_t k = 0; k < a.size(); ++k) {
        double d = std::fmax(std::fabs(a[k].r - b[k].r), std::fabs(a[k].i - b[k].i));
        if (!std::isfinite(a[k].r) || !std::isfinite(a[k].i) || !std::isfinite(b[k].r) || !std::isfinite(b[k].i)) {
            return 1e300;
        }
        if (d > m) {
            m = d;
        }
    }
    return m;
}
inline std::string show(const Arr& a, std::size_t lim = 16) {
    std::string s = "[";
    for (std::size_t k = 0; k < a.size() && k < lim; ++k) {
        s += strf("%s%.6g%+.6gi", k ? ", " : "", a[k].r, a[k].i);
    }
    if (a.size() > lim) {
        s += ", ...";
    }
    return s + "]";
}
inline Arr addA(const Arr& a, const Arr& b) {
    Arr r(a.size());
    for (std::size_t k = 0; k < a.size(); ++k) {
        r[k] = a[k] + b[k];
    }
    return r;
}
inline Arr mulMV(const Arr& m, const Arr& v) {
    const auto N = v.size();
    Arr        r(N);
    for (std::size_t i = 0; i < N; ++i) {
        C s{};
        for (std::size_t k = 0; k < N; ++k) {
            s = s + m[i * N + k] * v[k];
        }
        r[i] = s;
    }
    return r;
}
inline Arr mulMM(const Arr& a, const Arr& b, std::size_t N) {
    Arr r(N * N);
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t k = 0; k < N; ++k) {
            const auto x = a[i * N + k];
            if (x.r == 0 && x.i == 0) {
                continue;
            }
            for (std::size_t j = 0; j < N; ++j) {
                r[i * N + j] = r[i * N + j] + x * b[k * N + j];
            }
        }
    }
    return r;
}
inline Arr transposeA(const Arr& a, std::size_t N, bool cj) {
    Arr r(N * N);
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < N; ++j) {
            r[j * N + i] = cj ? conj(a[i * N + j]) : a[i * N + j];
        }
    }
    return r;
}
inline Arr kronV(const Arr& a, const Arr& b) {
    Arr r;
    r.reserve(a.size() * b.size());
    for (auto& x: a) {
        for (auto& y: b) {
            r.push_back(x * y);
        }
    }
    return r;
}
inline Arr kronM(const Arr& a, std::size_t NA, const Arr& b, std::size_t NB) {
    const auto N = NA * NB;
    Arr        r(N * N);
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < N; ++j) {
            r[i * N + j] = a[(i / NB) * NA + (j / NB)] * b[(i % NB) * NB + (j % NB)];
        }
    }
    return r;
}
inline Arr identA(std::size_t N) {
    Arr r(N * N);
    for (std::size_t i = 0; i < N; ++i) {
        r[i * N + i] = {1, 0};
    }
    return r;
}
inline C innerA(const Arr& a, const Arr& b) {
    C s{};
    for (std::size_t k = 0; k < a.size(); ++k) {
        s = s + conj(a[k]) * b[k];
    }
    return s;
}
inline double norm2(const Arr& a) {
    double s = 0;
    for (auto& x: a) {
        s += mag2(x);
    }
    return s;
}
// trace out the qubits with elim[q] from an n-qubit matrix
inline Arr ptraceA(const Arr& a, int n, const std::vector<bool>& elim) {
    std::vector<int> keep, drop;
    for (int q = 0; q < n; ++q) {
        (elim[static_cast<std::size_t>(q)] ? drop : keep).push_back(q);
    }
    const std::size_t K = 1ULL << keep.size(), D = 1ULL << drop.size(), N = 1ULL << n;
    Arr               r(K * K);
    auto spread = [](std::size_t v, const std::vector<int>& qs) {
        std::size_t x = 0;
        for (std::size_t b = 0; b < qs.size(); ++b) {
            if (v >> b & 1U) {
                x |= 1ULL << qs[b];
            }
        }
        return x;
    };
    for (std::size_t i = 0; i < K; ++i) {
        for (std::size_t j = 0; j < K; ++j) {
            C s{};
            for (std::size_t d = 0; d < D; ++d) {
                const auto o = spread(d, drop);
                s            = s + a[(spread(i, keep) | o) * N + (spread(j, keep) | o)];
            }
            r[i * K + j] = s;
        }
    }
    return r;
}
// controlled k-qubit gate: mat is 2^k x 2^k with targets[0] the MOST significant index bit
struct Ctl {
    int  q;
    bool pos;
};
inline Arr gateA(int n, const Arr& mat, const std::vector<int>& targets, const std::vector<Ctl>& ctl) {
    const std::size_t N = 1ULL << n, k = targets.size(), M = 1ULL << k;
    Arr               r(N * N);
    for (std::size_t j = 0; j < N; ++j) {
        bool on = true;
        for (auto& c: ctl) {
            if (((j >> c.q & 1U) != 0) != c.pos) {
                on = false;
            }
        }
        if (!on) {
            r[j * N + j] = {1, 0};
            continue;
        }
        std::size_t col = 0, base = j;
        for (std::size_t b = 0; b < k; ++b) {
            col = col << 1 | (j >> targets[b] & 1U);
            base &= ~(1ULL << targets[b]);
        }
        for (std::size_t row = 0; row < M; ++row) {
            std::size_t i = base;
            for (std::size_t b = 0; b < k; ++b) {
                if (row >> (k - 1 - b) & 1U) {
                    i |= 1ULL << targets[b];
                }
            }
            r[i * N + j] = mat[row * M + col];
        }
    }
    return r;
}
} // namespace sim
