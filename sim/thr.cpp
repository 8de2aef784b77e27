// World THR (C12): several threads, each running its own program on its own package, interleaved by the seed inside
// library code; afterwards each program runs alone and must observe exactly the same.
#include "configs.hpp"
#include "sched.hpp"
#include "uni.hpp"
#include "world.hpp"

namespace sim {
namespace {
const CheckInfo INFO = [] {
    CheckInfo i{"C12", 4500, 200000,
                "One evaluation is one simulated execution of two or three threads, each running a seeded program over the public API on its own package (same or different configurations), interleaved by a seeded scheduler that may switch at every basic block of library code, followed by an execution of each program alone; all observations of each thread must agree. Distinct: the hash over all observations and the schedule differs. Non-trivial: at least three steps took effect.",
                "real: everything under /repo/include; real threads, of which the simulator lets exactly one run; simulated: the choice of who runs, the heap, streams, random streams; stub: none"};
    i.second = 2;
    return i;
}();
const int OPS[][2] = {{OP_ZERO, 3}, {OP_BASISB, 3}, {OP_BASISS, 3}, {OP_FROMVEC, 5}, {OP_FROMMAT, 4}, {OP_GATE, 8}, {OP_GATE2, 3}, {OP_GATEC, 3}, {OP_IDENT, 4},
                      {OP_ADD, 6}, {OP_MULV, 7}, {OP_MULM, 6}, {OP_TRANS, 2}, {OP_CTRANS, 2}, {OP_KRON, 3}, {OP_EXTEND, 1}, {OP_PTRACE, 2}, {OP_APPLY, 5}, {OP_DELEDGE, 2},
                      {OP_VALS, 3}, {OP_EXPORT, 3}, {OP_INNER, 4}, {OP_FIDM, 2}, {OP_EXPECT, 2}, {OP_TRACE, 2}, {OP_CLOSEID, 2}, {OP_SIZE, 4}, {OP_PROBS, 3},
                      {OP_MEASALL, 3}, {OP_MEASCOL, 2}, {OP_MEASONE, 4}, {OP_DZERO, 4}, {OP_DAPPLY, 7}, {OP_DMAT, 2}, {OP_DPROB, 2}, {OP_DNOISE, 2}, {OP_TOFFOLI, 3}, {OP_STOCH, 3},
                      {OP_SER, 5}, {OP_SERFAULTW, 1}, {OP_SERFAULTR, 2}, {OP_CORRUPT, 2}, {OP_DOT, 4}, {OP_REDANC, 2}, {OP_REDGARB, 2}, {OP_INITMAT, 2}, {OP_OVERCAP, 1}, {OP_TRANSFER, 3},
                      {OP_HOLD, 2}, {OP_RELEASE, 3}, {OP_DROP, 2}, {OP_GC, 5}, {OP_GCU, 1}, {OP_CLEARCT, 1}, {OP_RESIZE, 1}, {OP_RESET, 1}, {OP_NEWPKG, 1}, {OP_SCRTAKE, 1}, {OP_SCRGIVE, 1}};

void one(const Plan& p, Ctx& c) {
    switch (p.config) {
        case 0: return runUniverse<CfgSmall>(p, c);
        case 1: return runUniverse<CfgTiny>(p, c);
        default: return runUniverse<CfgDM>(p, c);
    }
}
} // namespace
const CheckInfo* checkInfo(const std::string& id) { return id == "C12" ? &INFO : nullptr; }
const char*      actName(const Plan&, int kind) { return opId(kind); }
int              actKind(const std::string& n) {
    for (int k = 0; k < OP_COUNT; ++k) {
        if (n == opId(k)) {
            return k;
        }
    }
    return OP_COUNT;
}
int  actKinds() { return OP_COUNT; }
Plan makePlan(const std::string& check, uint64_t seed, uint64_t idx, bool deep) {
    Rng  g(mix(mix(seed, 0x7412), idx));
    Plan p;
    p.check   = check;
    p.world   = 2;
    p.seed    = g.next();
    p.knob[0] = static_cast<uint32_t>(g.range(1, 4));
    p.knob[1] = static_cast<uint32_t>(g.below(3));
    p.knob[2] = 1;
    p.knob[3] = O_SNAP | O_GC | O_SCRATCH;
    p.knob[4] = static_cast<uint32_t>(g.range(3, 8));
    p.knob[5] = g.chance(0.7) ? 2 : 3;
    // mostly the same configuration on all threads: these share all static members of the package
    const auto cfg = static_cast<uint32_t>(g.below(3));
    p.knob[6]      = 0;
    for (unsigned i = 0; i < 3; ++i) {
        p.knob[6] |= (g.chance(0.8) ? cfg : static_cast<uint32_t>(g.below(3))) << (2 * i);
    }
    const bool mirror = g.chance(0.5); // all threads run the same steps (on different data)
    p.knob[6] |= mirror ? 1U << 8 : 0U;
    p.config        = static_cast<int>(g.below(5)); // granularity of the schedule
    p.knob[7]       = static_cast<uint32_t>(g.chance(0.8) ? 100000 : g.range(1, 40)); // most switches
    p.layout.stride = g.chance(0.4) ? 0 : static_cast<uint32_t>(g.below(5));
    p.layout.reuse  = static_cast<uint32_t>(g.below(3));
    p.layout.fill   = static_cast<uint32_t>(g.below(5));
    p.layout.salt   = static_cast<uint32_t>(g.next());
    std::vector<std::pair<int, int>> w;
    int                              sum = 0;
    const double                     off = g.chance(0.3) ? 0 : (g.chance(0.6) ? 0.5 : 0.95) * g.unit();
    for (auto& o: OPS) {
        if (!g.chance(off)) {
            const int x = g.chance(0.1) ? 4 * o[1] : o[1];
            w.emplace_back(o[0], x);
            sum += x;
        }
    }
    if (sum == 0) {
        w.emplace_back(OP_ZERO, 1);
        sum = 1;
    }
    const bool faults = g.chance(0.3);
    if (faults) {
        p.knob[3] = O_SNAP; // an aborted operation may keep references and temporaries
    }
    const int  n      = 8 + static_cast<int>(g.below(deep ? 90 : (mirror ? 25 : 45)));
    for (int i = 0; i < n; ++i) {
        Act a;
        int r = static_cast<int>(g.below(static_cast<uint64_t>(sum)));
        for (auto& y: w) {
            if (r < y.second) {
                a.kind = y.first;
                break;
            }
            r -= y.second;
        }
        for (auto& v: a.a) {
            v = static_cast<uint32_t>(g.below(1U << 20));
        }
        if (faults && g.chance(0.1)) {
            a.fault = 1 + static_cast<uint32_t>(g.below(30));
        }
        p.acts.push_back(a);
    }
    return p;
}
void runPlan(const Plan& p, Ctx& c) {
    const auto       k     = p.knob[5] == 3 ? 3U : 2U;
    const auto       alone = static_cast<unsigned>(p.world >> 8); // set by the driver for the second execution
    std::vector<int> ids;
    for (unsigned i = 0; i < k; ++i) {
        if (alone == 0 || alone == i + 1) {
            ids.push_back(static_cast<int>(i));
        }
    }
    std::vector<Plan>                plans(ids.size());
    std::vector<Ctx>                 ctx(ids.size());
    std::vector<std::vector<double>> trace(ids.size());
    bool                             failed = false, skipped = false;
    Violation                        first;
    for (std::size_t t = 0; t < ids.size(); ++t) {
        Plan& q  = plans[t];
        q        = p;
        q.world  = 2;
        q.config = static_cast<int>(p.knob[6] >> (2 * static_cast<unsigned>(ids[t])) & 3U);
        q.seed   = mix(p.seed, static_cast<uint64_t>(ids[t]) + 77);
        q.acts.clear();
        for (auto& a: p.acts) {
            if ((p.knob[6] >> 8 & 1U) != 0 || a.a[3] % k == static_cast<unsigned>(ids[t])) {
                q.acts.push_back(a);
            }
        }
        ctx[t].counters = c.counters;
        ctx[t].verbose  = c.verbose;
        ctx[t].between  = &sched::boundary;
        trace[t].reserve(4096);
        ctx[t].trace = &trace[t];
    }
    sched::run(ids, p.seed, alone != 0 ? 0 : p.config, alone != 0 ? 0 : p.knob[7], [&](int t) {
        auto& x = ctx[static_cast<std::size_t>(t)];
        try {
            one(plans[static_cast<std::size_t>(t)], x);
        } catch (const Violation& v) {
            if (!failed) {
                failed     = true;
                first      = v;
                first.what = strf("thread %d, step %d: ", ids[static_cast<std::size_t>(t)], x.step) + v.what;
            }
            sched::stop();
        } catch (const sched::Stop&) {
        } catch (const Skip&) {
            skipped = true;
        }
    });
    for (std::size_t t = 0; t < ids.size(); ++t) {
        c.steps += ctx[t].steps;
        c.h(ctx[t].hash);
        if (c.trace != nullptr) {
            c.trace->push_back(static_cast<double>(trace[t].size()));
            c.trace->insert(c.trace->end(), trace[t].begin(), trace[t].end());
        }
    }
    c.h(sched::switches());
    if (alone == 0) {
        SIM_COUNTN(c, "fault.context_switches", sched::switches());
        SIM_COUNTN(c, "fault.context_switches_inside_library_code", sched::inner());
        SIM_COUNTN(c, "probe.possible_switch_points", sched::points());
        SIM_COUNTN(c, "probe.accesses_to_static_objects_checked_for_races", sched::watched());
    }
    if (const auto r = sched::race(); !r.empty()) {
        throw Violation{"race", r};
    }
    if (failed) {
        throw first;
    }
    if (skipped) {
        throw Skip{};
    }
}
} // namespace sim
