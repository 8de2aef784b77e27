// The checks that run the universe world: which steps, in which proportion, under which faults.
#include "ops.hpp"
#include "world.hpp"

#include <map>
#include <string>
#include <vector>

namespace sim {
void runUni0(const Plan& p, Ctx& c);
void runUni1(const Plan& p, Ctx& c);
void runUni2(const Plan& p, Ctx& c);
void runUni3(const Plan& p, Ctx& c);

namespace {
using W = std::vector<std::pair<int, int>>;
W operator+(W a, const W& b) {
    for (auto& x: b) {
        bool found = false;
        for (auto& y: a) {
            if (y.first == x.first) {
                y.second = x.second;
                found    = true;
            }
        }
        if (!found) {
            a.push_back(x);
        }
    }
    return a;
}
const W CREATE{{OP_ZERO, 3}, {OP_BASISB, 4}, {OP_BASISS, 4}, {OP_FROMVEC, 7}, {OP_FROMMAT, 5}, {OP_GATE, 10}, {OP_GATE2, 3}, {OP_GATEC, 3}, {OP_IDENT, 3}};
const W ALGEBRA{{OP_ADD, 7}, {OP_MULV, 9}, {OP_MULM, 7}, {OP_TRANS, 2}, {OP_CTRANS, 3}, {OP_KRON, 4}, {OP_EXTEND, 1}, {OP_PTRACE, 3}, {OP_APPLY, 6}, {OP_DELEDGE, 2}, {OP_REDO, 3}};
const W LIFE{{OP_HOLD, 3}, {OP_RELEASE, 4}, {OP_DROP, 3}, {OP_GC, 6}, {OP_GCU, 1}, {OP_CLEARCT, 1}};
const W QUERY{{OP_VALS, 3}, {OP_EXPORT, 3}, {OP_INNER, 4}, {OP_FIDM, 2}, {OP_EXPECT, 3}, {OP_TRACE, 2}, {OP_CLOSEID, 2}, {OP_SIZE, 2}, {OP_PROBS, 2}};
const W MEASURE{{OP_MEASALL, 4}, {OP_MEASCOL, 4}, {OP_MEASONE, 7}, {OP_PROBS, 4}};
const W DENSITY{{OP_DZERO, 5}, {OP_DAPPLY, 12}, {OP_DMAT, 3}, {OP_DPROB, 3}, {OP_DNOISE, 3}};
const W CACHES{{OP_TOFFOLI, 10}, {OP_STOCH, 10}, {OP_DNOISE, 6}};
const W STORE{{OP_SER, 6}, {OP_FILEIO, 3}, {OP_TRANSFER, 4}, {OP_DOT, 3}};

constexpr uint32_t RES = 1, SNAP = 2, CANON = 4, SCR = 8, GC = 16, ALLO = 31;

struct Profile {
    CheckInfo info;
    W         w;
    uint32_t  oracles = ALLO;
    // probability (percent) of each configuration: default, tiny, small, density
    int cfg[4]      = {15, 40, 40, 5};
    int npkg2       = 0;  // percent of runs with two packages
    int exact       = 40; // percent of runs in the exactly representable world
    int minN = 1, maxN = 5;
    int steps       = 45;
    int allocFaults = 0; // percent of steps with a failing allocation
    int pressure    = 0; // per mille of steps that are pressure steps
    int big         = 3; // percent of runs with more qubits
    int pinned      = 0; // percent of runs restricted to numbers that are never reclaimed
};
const char* RULE = "One evaluation is one simulated execution: a seeded program over the public API of the real library (create, combine, hold, release, collect, ...) together with a seeded memory layout (block spacing, reuse order, fill pattern), table configuration and fault schedule, every observable checked against dense reference arithmetic and book-keeping after every step. Distinct: the hash over all observed values and outcomes differs. Non-trivial: at least three steps took effect.";
const char* REAL = "real: everything under /repo/include (package, node/number/operation tables, measurement, serialisation, export); simulated: the heap (operator new/delete: addresses, reuse, contents of fresh memory, failures), streams and files, the random number source's seed; stub: none";

std::map<std::string, Profile> make() {
    std::map<std::string, Profile> m;
    auto add = [&](const char* id, int quick, int deep, const W& w) -> Profile& {
        Profile p;
        p.info = {id, quick, deep, RULE, REAL};
        p.w    = w;
        m[id]  = p;
        return m[id];
    };
    { // C01: collection never affects what is held
        auto& p   = add("C01", 30000, 400000, CREATE + ALGEBRA + LIFE + QUERY + DENSITY + W{{OP_GC, 14}, {OP_WEIGHTS, 4}, {OP_DROP, 8}, {OP_RELEASE, 8}, {OP_MEASONE, 3}, {OP_MEASCOL, 2}, {OP_TOFFOLI, 2}, {OP_STOCH, 2}, {OP_REDANC, 1}, {OP_INITMAT, 1}, {OP_SER, 1}, {OP_SATURATE, 1}});
        p.oracles = RES | SNAP;
        p.pinned  = 15;
        p.pressure = 3;
    }
    { // C02: exact reclamation
        auto& p   = add("C02", 30000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_GC, 16}, {OP_WEIGHTS, 1}, {OP_DROP, 10}, {OP_RELEASE, 10}, {OP_UNDERFLOW, 4}, {OP_CYCLE, 2}, {OP_CAPACITY, 4}, {OP_MEASONE, 4}, {OP_MEASCOL, 3}, {OP_DZERO, 3}, {OP_DAPPLY, 8}, {OP_REDANC, 3}, {OP_REDGARB, 2}, {OP_INITMAT, 3}, {OP_EXPECT, 3}, {OP_INNER, 2}, {OP_SER, 2}, {OP_NEWPKG, 1}, {OP_SATURATE, 1}, {OP_MANYTEMPS, 1}});
        p.oracles = SNAP | GC;
        p.pinned  = 6;
        p.pressure = 3;
    }
    { // C03: algebra
        auto& p   = add("C03", 60000, 400000, CREATE + ALGEBRA + LIFE + W{{OP_WEIGHTS, 2}, {OP_MANYTEMPS, 1}});
        p.oracles = RES | SNAP;
        p.pinned  = 8;
    }
    { // C04: constructors
        auto& p   = add("C04", 45000, 400000, CREATE + LIFE + W{{OP_OVERCAP, 6}, {OP_RESIZE, 3}, {OP_MULV, 3}, {OP_ADD, 2}, {OP_APPLY, 2}, {OP_GATE2, 8}, {OP_GATEC, 8}, {OP_IDENT, 8}, {OP_BASISS, 8}, {OP_TOFFOLI, 2}});
        p.oracles = RES | SNAP;
    }
    { // C05: canonicity
        auto& p   = add("C05", 50000, 400000, CREATE + ALGEBRA + LIFE + W{{OP_INITMAT, 2}, {OP_SER, 2}});
        p.oracles = RES | CANON;
        p.pinned  = 8;
        p.exact   = 100;
    }
    { // C07: temporaries
        auto& p   = add("C07", 25000, 400000, CREATE + ALGEBRA + LIFE + QUERY + MEASURE + DENSITY + STORE + W{{OP_SCRTAKE, 10}, {OP_SCRGIVE, 6}, {OP_WEIGHTS, 1}, {OP_REDANC, 2}, {OP_REDGARB, 2}, {OP_INITMAT, 1}, {OP_SERFAULTR, 2}, {OP_CORRUPT, 2}, {OP_OVERCAP, 2}, {OP_TOFFOLI, 1}, {OP_MANYTEMPS, 3}});
        p.oracles = SCR;
        p.pinned  = 5;
        p.npkg2   = 30;
    }
    { // C08: measurement
        auto& p   = add("C08", 35000, 300000, CREATE + LIFE + MEASURE + W{{OP_APPLY, 14}, {OP_MULV, 6}, {OP_ADD, 2}, {OP_FROMVEC, 12}, {OP_BASISS, 6}});
        p.oracles = RES | SNAP | GC;
        p.pinned  = 6;
        p.pressure = 2;
    }
    { // C09: serialisation
        auto& p   = add("C09", 12000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_SER, 25}, {OP_FILEIO, 14}, {OP_RESIZE, 1}, {OP_BIGIO, 2}});
        p.big     = 10;
        p.oracles = RES | SNAP | CANON | SCR;
        p.npkg2   = 60;
    }
    { // C10: I/O failures are reported
        auto& p   = add("C10", 12000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_SERFAULTW, 10}, {OP_SERFAULTR, 14}, {OP_FILEFAULT, 18}, {OP_COPYEXP, 12}, {OP_SER, 3}, {OP_FILEIO, 6}, {OP_BIGIO, 3}});
        p.big     = 12;
        p.oracles = RES | SNAP;
        p.npkg2   = 40;
    }
    { // C11: damaged data
        auto& p   = add("C11", 12000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_CORRUPT, 60}, {OP_SER, 3}});
        p.big     = 6;
        p.oracles = RES | SNAP | SCR | GC;
        p.npkg2   = 40;
    }
    { // C13: failing allocations
        auto& p   = add("C13", 35000, 300000, CREATE + ALGEBRA + LIFE + QUERY + W{{OP_MEASONE, 5}, {OP_MEASCOL, 5}, {OP_MEASALL, 2}, {OP_TRANSFER, 3}, {OP_DOT, 2}, {OP_REDANC, 3}, {OP_INITMAT, 2}, {OP_TOFFOLI, 2}, {OP_STOCH, 2}, {OP_RESIZE, 2}, {OP_NEWPKG, 2}, {OP_DZERO, 2}, {OP_DAPPLY, 6}, {OP_MANYTEMPS, 3}, {OP_FULLNUMS, 3}});
        p.oracles = RES | SNAP | GC;
        p.npkg2   = 20;
        p.allocFaults = 35;
        p.pressure    = 1;
    }
    { // C14: lifecycle
        auto& p   = add("C14", 16000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_RESET, 8}, {OP_RESIZE, 8}, {OP_CAPACITY, 2}, {OP_CLEARCT, 6}, {OP_NEWPKG, 3}, {OP_TOFFOLI, 4}, {OP_STOCH, 4}, {OP_SCRTAKE, 3}, {OP_SCRGIVE, 1}, {OP_DZERO, 2}, {OP_DAPPLY, 3}, {OP_OVERCAP, 2}, {OP_CYCLE, 1}, {OP_MANYTEMPS, 2}});
        p.oracles = RES | SNAP | SCR | GC;
        p.pinned  = 6;
        p.pressure = 1;
        p.npkg2   = 30;
    }
    { // C15: density operators
        auto& p   = add("C15", 55000, 300000, W{{OP_GATE, 6}, {OP_FROMMAT, 3}, {OP_GATE2, 2}, {OP_MULM, 3}, {OP_ADD, 1}} + LIFE + W{{OP_DZERO, 12}, {OP_DAPPLY, 40}, {OP_DMAT, 8}, {OP_DPROB, 8}, {OP_GC, 5}, {OP_CLEARCT, 2}});
        p.oracles = RES | SNAP | SCR | GC;
        p.cfg[0] = 20;
        p.cfg[1] = 15;
        p.cfg[2] = 35;
        p.cfg[3] = 30;
        p.maxN   = 3;
    }
    { // C16: transfer
        auto& p   = add("C16", 25000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_TRANSFER, 30}, {OP_NEWPKG, 2}, {OP_RESET, 1}});
        p.big     = 6;
        p.oracles = RES | SNAP | CANON | SCR | GC;
        p.pinned  = 6;
        p.npkg2   = 100;
    }
    { // C17: memory layout
        auto& p   = add("C17", 22000, 200000, CREATE + ALGEBRA + LIFE + QUERY + MEASURE + DENSITY + W{{OP_SER, 3}, {OP_TRANSFER, 1}, {OP_REDANC, 1}, {OP_TOFFOLI, 3}, {OP_STOCH, 1}});
        p.oracles = 32;
        p.info.second = 1;
        p.npkg2           = 20;
    }
    { // C18: graph export
        auto& p   = add("C18", 45000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_DOT, 30}});
        p.big     = 6;
        p.oracles = RES;
    }
    { // C19: user-filled caches
        auto& p   = add("C19", 30000, 300000, CREATE + ALGEBRA + LIFE + CACHES + W{{OP_DZERO, 5}, {OP_DAPPLY, 6}, {OP_GC, 10}, {OP_CLEARCT, 2}, {OP_GATE, 6}, {OP_RESIZE, 1}, {OP_RESET, 1}});
        p.oracles = RES;
        p.pinned  = 12;
        p.maxN    = 4;
        p.pressure = 3;
    }
    { // C20: ancilla / garbage
        auto& p   = add("C20", 60000, 300000, CREATE + ALGEBRA + LIFE + W{{OP_REDANC, 30}, {OP_REDGARB, 18}, {OP_INITMAT, 8}});
        p.oracles = RES | SNAP | GC;
    }
    { // C21: queries
        auto& p   = add("C21", 35000, 400000, CREATE + ALGEBRA + LIFE + QUERY + W{{OP_WEIGHTS, 1}});
        for (auto& x: p.w) {
            for (auto& q: QUERY) {
                if (x.first == q.first) {
                    x.second *= 3;
                }
            }
        }
        p.oracles = RES | SNAP;
        p.pinned  = 12;
        p.pressure = 1;
    }
    return m;
}
const std::map<std::string, Profile>& profiles() {
    static const auto m = make();
    return m;
}
} // namespace

const CheckInfo* checkInfo(const std::string& id) {
    auto it = profiles().find(id);
    return it == profiles().end() ? nullptr : &it->second.info;
}
const char* actName(const Plan& p, int kind) {
    (void)p;
    return opId(kind);
}
int actKind(const std::string& n) {
    for (int k = 0; k < OP_COUNT; ++k) {
        if (n == opId(k)) {
            return k;
        }
    }
    return OP_COUNT;
}
int  actKinds() { return OP_COUNT; }
Plan makePlan(const std::string& check, uint64_t seed, uint64_t idx, bool deep) {
    const auto& pf = profiles().at(check);
    uint64_t    h  = 1469598103934665603ULL;
    for (char ch: check) {
        h = (h ^ static_cast<unsigned char>(ch)) * 1099511628211ULL;
    }
    Rng  g(mix(mix(seed, h), idx));
    Plan p;
    p.check = check;
    p.seed  = g.next();
    int x   = static_cast<int>(g.below(100));
    for (int k = 0; k < 4; ++k) {
        if (x < pf.cfg[k]) {
            p.config = k;
            break;
        }
        x -= pf.cfg[k];
    }
    p.knob[0] = static_cast<uint32_t>(g.range(pf.minN, pf.maxN));
    if (p.knob[0] < 2 && g.chance(0.6)) {
        p.knob[0] = static_cast<uint32_t>(std::min(3, pf.maxN));
    }
    p.knob[1] = g.below(100) < static_cast<uint64_t>(pf.exact) ? 0 : 1 + static_cast<uint32_t>(g.below(2));
    if (pf.maxN > 4 && g.below(100) < static_cast<uint64_t>(pf.big)) {
        p.knob[0] = static_cast<uint32_t>(g.range(6, 8));
        p.knob[1] = 1;
    }
    if (g.below(100) < static_cast<uint64_t>(pf.pinned)) {
        p.knob[1] = 3;
    }
    p.knob[2] = g.below(100) < static_cast<uint64_t>(pf.npkg2) ? 2 : 1;
    p.knob[3] = pf.oracles;
    p.knob[4] = static_cast<uint32_t>(g.range(3, 10));
    p.layout.stride = g.chance(0.4) ? 0 : static_cast<uint32_t>(g.below(5));
    p.layout.reuse  = static_cast<uint32_t>(g.below(3));
    p.layout.fill   = static_cast<uint32_t>(g.below(5));
    p.layout.salt   = static_cast<uint32_t>(g.next());
    const double again = g.chance(0.5) ? 0 : 0.1 + 0.4 * g.unit(); // how often an earlier step comes back unchanged
    // swarm: this run uses only part of the alphabet
    W w = pf.w;
    if (p.knob[1] == 3) {
        for (auto& y: w) {
            for (int k: {OP_FROMMAT, OP_ADD, OP_DELEDGE, OP_PTRACE, OP_EXPECT, OP_TRACE, OP_PRESSURE, OP_NODEPRESSURE, OP_WEIGHTS}) {
                if (y.first == k && !g.chance(0.1)) {
                    y.second = 0;
                }
            }
        }
    }
    const double off = g.chance(0.25) ? 0 : 0.3 * g.unit();
    for (auto& y: w) {
        if (g.chance(off)) {
            y.second = 0;
        } else if (g.chance(0.1)) {
            y.second *= 4;
        }
    }
    W ww;
    int sum = 0;
    for (auto& y: w) {
        if (y.second > 0) {
            ww.push_back(y);
            sum += y.second;
        }
    }
    if (sum == 0) {
        ww  = pf.w;
        sum = 0;
        for (auto& y: ww) {
            sum += y.second;
        }
    }
    const int n = pf.steps / 3 + static_cast<int>(g.below(static_cast<uint64_t>(pf.steps) * (deep ? 3 : 1)));
    const bool faultRun = g.chance(0.85); // some runs are fault-free
    for (int i = 0; i < n; ++i) {
        Act a;
        int r = static_cast<int>(g.below(static_cast<uint64_t>(sum)));
        for (auto& y: ww) {
            if (r < y.second) {
                a.kind = y.first;
                break;
            }
            r -= y.second;
        }
        if (pf.pressure != 0 && g.below(1000) < static_cast<uint64_t>(pf.pressure)) {
            a.kind = p.config == 0 && g.chance(0.4) ? OP_NODEPRESSURE : OP_PRESSURE;
        }
        for (auto& v: a.a) {
            v = static_cast<uint32_t>(g.below(1U << 20));
        }
        if (i > 0 && g.chance(again)) {
            a = p.acts[g.below(static_cast<uint64_t>(i))];
        }
        if (pf.allocFaults != 0 && faultRun && g.below(100) < static_cast<uint64_t>(pf.allocFaults)) {
            a.fault = 1 + static_cast<uint32_t>(g.chance(0.6) ? g.below(6) : g.below(60));
        }
        p.acts.push_back(a);
    }
    return p;
}
void runPlan(const Plan& p, Ctx& c) {
    switch (p.config) {
        case 0: return runUni0(p, c);
        case 1: return runUni1(p, c);
        case 2: return runUni2(p, c);
        default: return runUni3(p, c);
    }
}
} // namespace sim
