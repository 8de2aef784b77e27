// The simulated universe: one or two real dd::Package instances, a set of registers holding decision
// diagrams together with their dense meaning, and steps (operations, faults) that act on them.
#pragma once
#include "dd/Export.hpp"
#include "dd/Package.hpp"
#include "dense.hpp"
#include "ops.hpp"
#include "rt.hpp"
#include "simfs.hpp"
#include "streams.hpp"

#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <unordered_set>

namespace sim {

using dd::Qubit;
using dd::QubitCount;
using Entry = dd::CTEntry;

inline double wr(const dd::Complex& w) { return Entry::val(w.r); }
inline double wi(const dd::Complex& w) { return Entry::val(w.i); }
inline C      cv(const dd::Complex& w) { return {wr(w), wi(w)}; }
inline C      cv(const dd::ComplexValue& w) { return {w.r, w.i}; }
inline bool   isZeroW(const dd::Complex& w) { return wr(w) == 0. && wi(w) == 0.; }

// ------------------------------------------------------------------ reading diagrams
template<class Node>
struct Reader {
    Ctx& c;
    bool below = false;
    [[noreturn]] void bad(const char* what, int level, int v) {
        c.fail("malformed", strf("decision diagram malformed: %s (expected level %d, node level %d)", what, level, v));
    }
    void vec(const dd::Edge<Node>& e, int level, int lo, C amp, std::size_t idx, Arr& out) {
        if (e.p == nullptr || e.w.r == nullptr || e.w.i == nullptr) {
            bad("null pointer", level, -99);
        }
        const C w = cv(e.w);
        if (w.r == 0 && w.i == 0) {
            if (below && !e.isTerminal()) {
                bad("zero edge inside a diagram points to a node", level, e.p->v);
            }
            return;
        }
        below = true;
        amp   = amp * w;
        if (level < lo) {
            if (!e.isTerminal()) {
                bad("node below the lowest level", level, e.p->v);
            }
            out[idx] = amp;
            return;
        }
        if (e.isTerminal()) {
            bad("non-zero edge skips levels", level, -1);
        }
        if (e.p->v != level) {
            bad("wrong level", level, e.p->v);
        }
        constexpr std::size_t n = std::tuple_size_v<decltype(e.p->e)>;
        if constexpr (n == 2) {
            vec(e.p->e[0], level - 1, lo, amp, idx, out);
            vec(e.p->e[1], level - 1, lo, amp, idx | (1ULL << (level - lo)), out);
        }
    }
    void mat(const dd::Edge<Node>& e, int level, int lo, C amp, std::size_t i, std::size_t j, std::size_t N, Arr& out) {
        if (e.p == nullptr || e.w.r == nullptr || e.w.i == nullptr) {
            bad("null pointer", level, -99);
        }
        const C w = cv(e.w);
        if (w.r == 0 && w.i == 0) {
            if (below && !e.isTerminal()) {
                bad("zero edge inside a diagram points to a node", level, e.p->v);
            }
            return;
        }
        below = true;
        amp   = amp * w;
        if (level < lo) {
            if (!e.isTerminal()) {
                bad("node below the lowest level", level, e.p->v);
            }
            out[i * N + j] = amp;
            return;
        }
        if (e.isTerminal()) {
            bad("non-zero edge skips levels", level, -1);
        }
        if (e.p->v != level) {
            bad("wrong level", level, e.p->v);
        }
        const std::size_t b = 1ULL << (level - lo);
        for (std::size_t k = 0; k < e.p->e.size(); ++k) {
            mat(e.p->e[k], level - 1, lo, amp, (k & 2U) ? i | b : i, (k & 1U) ? j | b : j, N, out);
        }
    }
};

template<class Node>
void collect(const dd::Edge<Node>& e, std::unordered_set<const Node*>& nodes, std::unordered_set<const Entry*>& nums) {
    auto num = [&](const dd::Complex& w) {
        nums.insert(Entry::getAlignedPointer(w.r));
        nums.insert(Entry::getAlignedPointer(w.i));
    };
    num(e.w);
    if (e.isTerminal() || e.p == nullptr) {
        return;
    }
    if (!nodes.insert(e.p).second) {
        return;
    }
    for (auto& k: e.p->e) {
        collect(k, nodes, nums);
    }
}

// ------------------------------------------------------------------ registers
struct Reg {
    char      kind = 'V'; // V vector, M matrix, D density operator
    int       pkg  = 0;
    int       n    = 0;  // number of qubits
    int       lo   = 0;  // lowest level
    int       held = 0;  // references the user holds; 0 = valid until the next garbage collection
    dd::vEdge v{};
    dd::mEdge m{};
    dd::dEdge d{};
    Arr       a;        // dense meaning
    uint64_t  id = 0;
    bool      exact = false; // entries come from the discrete amplitude set
    bool      unit  = false; // normalised state
    std::size_t N() const { return 1ULL << n; }
};

enum Oracle : uint32_t {
    O_RES     = 1,   // every result equals the dense reference
    O_SNAP    = 2,   // held diagrams never change meaning
    O_CANON   = 4,   // equal functions are the same diagram
    O_SCRATCH = 8,   // temporaries are all returned
    O_GC      = 16,  // exact reclamation
    O_ALL     = 31,
    O_SHAPE   = 32, // the stored weights are part of the observations
};

constexpr double TOL = 1e-9;

template<class Config>
struct Universe {
    using Pkg = dd::Package<Config>;
    Ctx&                 c;
    const Plan&          plan;
    uint32_t             oracles;
    std::unique_ptr<Pkg> pk[2];
    int                  npkg = 1;
    std::size_t          nq[2]{};
    std::size_t          scratchBase[2]{};
    std::vector<dd::Complex> scratchHeld[2];
    std::vector<Reg>     regs;
    uint64_t             nextId = 1;
    std::size_t          maxRegs = 9;
    int                  maxN;
    int                  gateMode;
    bool                 exactWorld;
    Rng                  vr{0}; // value rng of the current step
    int                  curOp = -1;
    uint64_t             gcRuns = 0;
    std::size_t          tableBase[2]{}; // complex table size of an empty package
    bool                 gcFreed = false;

    Universe(Ctx& ctx, const Plan& p):
        c(ctx), plan(p), oracles(p.knob[3]) {
        maxN       = std::max<int>(1, static_cast<int>(p.knob[0]));
        gateMode   = static_cast<int>(p.knob[1]);
        exactWorld = gateMode == 0 || gateMode == 3;
        npkg       = p.knob[2] == 2 ? 2 : 1;
        if (p.knob[4] != 0) {
            maxRegs = p.knob[4];
        }
        for (int i = 0; i < npkg; ++i) {
            makePkg(i, static_cast<std::size_t>(maxN));
        }
    }
    void makePkg(int i, std::size_t n) {
        {
            heap::Repo r;
            pk[i] = std::make_unique<Pkg>(n);
        }
        nq[i]          = n;
        scratchBase[i] = pk[i]->cn.cacheCount();
        tableBase[i]   = pk[i]->cn.complexTable.getCount();
    }
    ~Universe() {
        heap::Repo r;
        regs.clear();
        pk[0].reset();
        pk[1].reset();
    }

    // ------------------------------------------------------------ calling the code under test
    // If the step carries an allocation fault the call is first made with that fault armed; the failure
    // must surface as std::bad_alloc, leave every register intact, and a retry must succeed.
    template<class F>
    auto call(const Act& a, F&& f) -> decltype(f()) {
        if (a.fault != 0) {
            bool hit = false;
            heap::arm(a.fault);
            try {
                if constexpr (std::is_void_v<decltype(f())>) {
                    {
                        heap::Repo r;
                        f();
                    }
                    heap::disarm();
                    return;
                } else {
                    heap::Repo r;
                    auto       res = f();
                    heap::disarm();
                    return res;
                }
            } catch (const Violation&) {
                heap::disarm();
                throw;
            } catch (const std::bad_alloc&) {
                heap::disarm();
                hit = heap::fired();
                if (!hit) {
                    c.fail(std::string("exception:") + opName(curOp), "std::bad_alloc although no allocation failed");
                }
            } catch (const std::exception& ex) {
                heap::disarm();
                if (!(curOp == OP_DOT && heap::fired())) // a file stream turns it into an error state
                c.fail(std::string("exception:") + opName(curOp), std::string(heap::fired() ? "allocation failure surfaced as: " : "unexpected exception: ") + ex.what());
            }
            SIM_COUNT(c, "fault.alloc_failure_delivered");
            c.h(0xFA11);
            afterAllocFault();
        }
        try {
            heap::Repo r;
            return f();
        } catch (const Violation&) {
            throw;
        } catch (const std::exception& ex) {
            c.fail(std::string("exception:") + opName(curOp), std::string("unexpected exception: ") + ex.what());
        }
    }
    void afterAllocFault() {
        for (int i = 0; i < npkg; ++i) {
            scratchBase[i] = pk[i]->cn.cacheCount(); // an aborted operation may keep its temporaries
        }
        checkSnapshots("after a failed allocation");
        if (auditNow || vr.chance(0.4)) {
            for (int i = 0; i < npkg; ++i) {
                auditTables(i, "after a failed allocation");
            }
        }
    }
    bool auditNow = false;
    // what the tables say they hold is what is in them
    void auditTables(int p, const char* when) {
        if ((oracles & O_RES) == 0) {
            return;
        }
        auto& d     = P(p);
        auto  nodes = [&](const char* what, const auto& table) {
            std::size_t n = 0;
            for (const auto& level: table.getTables()) {
                for (const auto* x: level) {
                    for (; x != nullptr && n <= table.getNodeCount(); x = x->next) {
                        ++n;
                    }
                }
            }
            if (n != table.getNodeCount()) {
                c.fail("census", strf("%s: the package reports %zu %s, its table holds %s%zu", when, table.getNodeCount(), what, n > table.getNodeCount() ? "at least " : "", n));
            }
        };
        nodes("vector nodes", d.vUniqueTable);
        nodes("matrix nodes", d.mUniqueTable);
        nodes("density nodes", d.dUniqueTable);
        const auto& ct = d.cn.complexTable;
        std::size_t n  = 0;
        for (const auto* x: ct.getTable()) {
            for (; x != nullptr && n <= ct.getCount(); x = x->next) {
                ++n;
            }
        }
        if (n != ct.getCount()) {
            c.fail("census", strf("%s: the package reports %zu numbers, its table holds %s%zu", when, ct.getCount(), n > ct.getCount() ? "at least " : "", n));
        }
        SIM_COUNT(c, "probe.table_census");
    }

    // ------------------------------------------------------------ reading
    Arr read(const Reg& r) {
        if (r.kind == 'V') {
            return readV(r.v, r.n, r.lo);
        }
        if (r.kind == 'M') {
            return readM(r.m, r.n, r.lo);
        }
        return readD(r.pkg, r.d, r.n);
    }
    Arr readV(const dd::vEdge& e, int n, int lo = 0) {
        Arr                out(1ULL << n);
        Reader<dd::vNode>  rd{c};
        rd.vec(e, lo + n - 1, lo, {1, 0}, 0, out);
        return out;
    }
    Arr readM(const dd::mEdge& e, int n, int lo = 0) {
        Arr               out(1ULL << (2 * n));
        Reader<dd::mNode> rd{c};
        rd.mat(e, lo + n - 1, lo, {1, 0}, 0, 0, 1ULL << n, out);
        return out;
    }
    // ------------------------------------------------------------ oracles
    void expect(const char* what, const Arr& want, const Arr& got, double scale = 1) {
        for (auto& x: got) {
            c.hd(x.r);
            c.hd(x.i);
        }
        if ((oracles & O_RES) == 0) {
            return;
        }
        const double d   = maxDiff(want, got);
        const double tol = TOL * std::fmax(1., std::fmax(scale, maxAbs(want)));
        if (!(d <= tol)) {
            c.fail(std::string("result:") + what, strf("%s: differs from the reference by %.3g; expected %s got %s", what, d, show(want).c_str(), show(got).c_str()));
        }
    }
    void expectC(const char* what, C want, C got, double scale = 1) {
        expect(what, Arr{want}, Arr{got}, scale);
    }
    void checkSnapshots(const char* when) {
        if ((oracles & O_SNAP) == 0) {
            return;
        }
        for (auto& r: regs) {
            const Arr now = read(r);
            const double d = maxDiff(r.a, now);
            if (!(d <= 1e-12)) {
                c.fail("changed", strf("register #%llu (%c, %d qubits, %d references) changed %s by %.3g: was %s now %s", static_cast<unsigned long long>(r.id), r.kind, r.n, r.held, when, d, show(r.a).c_str(), show(now).c_str()));
            }
        }
    }
    void checkCanon(const Reg& x) {
        if ((oracles & O_CANON) == 0 || !x.exact) {
            return;
        }
        for (auto& r: regs) {
            if (r.id == x.id || r.kind != x.kind || r.pkg != x.pkg || r.n != x.n || r.lo != x.lo || !r.exact || r.kind == 'D') {
                continue;
            }
            if (maxDiff(r.a, x.a) > 1e-12) {
                continue;
            }
            SIM_COUNT(c, "probe.canonical_pair_compared");
            const bool same = x.kind == 'V' ? (r.v.p == x.v.p && r.v.w == x.v.w) : (r.m.p == x.m.p && r.m.w == x.m.w);
            if (!same) {
                c.fail("canonicity", strf("two live diagrams of the same %s on %d qubits are different diagrams: %s", x.kind == 'V' ? "vector" : "matrix", x.n, show(x.a).c_str()));
            }
        }
    }
    void checkScratch() {
        if ((oracles & O_SCRATCH) == 0) {
            return;
        }
        for (int i = 0; i < npkg; ++i) {
            const auto now  = pk[i]->cn.cacheCount();
            const auto want = scratchBase[i] + 2 * scratchHeld[i].size();
            if (now != want) {
                c.fail("scratch", strf("after %s %lld temporary numbers are outstanding, expected %lld", opName(curOp), static_cast<long long>(now), static_cast<long long>(want)));
            }
        }
    }
    // after a forced collection exactly the referenced part is left
    void checkReclaimed(int p) {
        if ((oracles & O_GC) == 0) {
            return;
        }
        std::unordered_set<const dd::vNode*> vs;
        std::unordered_set<const dd::mNode*> ms;
        std::unordered_set<const dd::dNode*> ds;
        std::unordered_set<const Entry*>     nums;
        for (auto& r: regs) {
            if (r.pkg != p || r.held == 0) {
                continue;
            }
            if (r.kind == 'V') {
                collect(r.v, vs, nums);
            } else if (r.kind == 'M') {
                collect(r.m, ms, nums);
            } else {
                auto al = r.d;
                dd::dEdge::alignDensityEdge(al);
                collect(al, ds, nums);
            }
        }
        auto& d = *pk[p];
        auto  cmp = [&](const char* what, std::size_t have, std::size_t want) {
            if (have != want) {
                c.fail("reclaim", strf("after a forced collection %zu %s are left, %zu are referenced", have, what, want));
            }
        };
        cmp("vector nodes", d.vUniqueTable.getNodeCount(), vs.size());
        cmp("matrix nodes", d.mUniqueTable.getNodeCount(), ms.size());
        cmp("density nodes", d.dUniqueTable.getNodeCount(), ds.size());
        cmp("active vector nodes", d.vUniqueTable.getActiveNodeCount(), vs.size());
        cmp("active matrix nodes", d.mUniqueTable.getActiveNodeCount(), ms.size());
        cmp("active density nodes", d.dUniqueTable.getActiveNodeCount(), ds.size());
        // slots handed out are either in use or available again: what is allocated never exceeds what the peak
        // population needs (plus one chunk of growth)
        auto slots = [&](const char* what, std::size_t allocated, std::size_t peak, std::size_t factor, std::size_t initial) {
            const auto bound = factor * (peak + 8) + initial;
            if (allocated > bound) {
                c.fail("growth", strf("%zu %s have been allocated although never more than %zu were in use", allocated, what, peak));
            }
        };
        slots("vector node slots", d.vUniqueTable.getAllocations(), d.vUniqueTable.getPeakNodeCount(), static_cast<std::size_t>(d.vUniqueTable.getGrowthFactor()), Config::UT_VEC_INITIAL_ALLOCATION_SIZE);
        slots("matrix node slots", d.mUniqueTable.getAllocations(), d.mUniqueTable.getPeakNodeCount(), static_cast<std::size_t>(d.mUniqueTable.getGrowthFactor()), Config::UT_MAT_INITIAL_ALLOCATION_SIZE);
        slots("density node slots", d.dUniqueTable.getAllocations(), d.dUniqueTable.getPeakNodeCount(), static_cast<std::size_t>(d.dUniqueTable.getGrowthFactor()), Config::UT_DM_INITIAL_ALLOCATION_SIZE);
        slots("number slots", d.cn.complexTable.getAllocations(), d.cn.complexTable.getPeakCount(), d.cn.complexTable.getGrowthFactor(), 2048);
        const auto count = d.cn.complexTable.getCount();
        if (count > nums.size() + tableBase[p] || count + 4 < nums.size()) {
            c.fail("reclaim", strf("after a forced collection the number table holds %zu entries, %zu are referenced (empty package: %zu)", count, nums.size(), tableBase[p]));
        }
    }

    // ------------------------------------------------------------ register handling
    Reg* pick(uint32_t raw, const std::function<bool(const Reg&)>& ok) {
        std::size_t n = 0;
        for (auto& r: regs) {
            n += ok(r) ? 1U : 0U;
        }
        if (n == 0) {
            return nullptr;
        }
        std::size_t k = raw % n;
        for (auto& r: regs) {
            if (ok(r) && k-- == 0) {
                return &r;
            }
        }
        return nullptr;
    }
    Reg* pickKind(uint32_t raw, char kind) {
        return pick(raw, [&](const Reg& r) { return r.kind == kind; });
    }
    int pkgOf(uint32_t raw) { return static_cast<int>(raw % static_cast<uint32_t>(npkg)); }

    void incR(Reg& r) {
        heap::Repo h;
        if (r.kind == 'V') {
            pk[r.pkg]->incRef(r.v);
        } else if (r.kind == 'M') {
            pk[r.pkg]->incRef(r.m);
        } else {
            auto al = r.d;
            dd::dEdge::alignDensityEdge(al);
            pk[r.pkg]->incRef(al);
        }
        ++r.held;
    }
    void decR(Reg& r) {
        try {
            heap::Repo h;
            if (r.kind == 'V') {
                pk[r.pkg]->decRef(r.v);
            } else if (r.kind == 'M') {
                pk[r.pkg]->decRef(r.m);
            } else {
                auto al = r.d;
                dd::dEdge::alignDensityEdge(al);
                pk[r.pkg]->decRef(al);
            }
        } catch (const std::exception& ex) {
            c.fail("refcount", strf("releasing a reference the user holds threw: %s", ex.what()));
        }
        --r.held;
    }
    void drop(std::size_t idx) {
        while (regs[idx].held > 0) {
            decR(regs[idx]);
        }
        regs.erase(regs.begin() + static_cast<std::ptrdiff_t>(idx));
    }
    void dropFloats(int p) { // diagrams nobody references do not survive a collection
        regs.erase(std::remove_if(regs.begin(), regs.end(), [&](const Reg& r) { return r.pkg == p && r.held == 0; }), regs.end());
    }
    // verify a freshly produced diagram against its expected meaning and make it a register
    template<class E>
    void shownWeights(const E& e, int& budget) {
        if (--budget < 0) {
            return;
        }
        c.hd(wr(e.w));
        c.hd(wi(e.w));
        if (!e.isTerminal()) {
            c.hd(static_cast<double>(e.p->v));
            for (auto& x: e.p->e) {
                shownWeights(x, budget);
            }
        }
    }
    void produce(const char* what, Reg r, const Arr& want, uint32_t raw, bool forceHold = false) {
        r.a = read(r);
        if ((oracles & O_SHAPE) != 0) {
            int budget = 40;
            r.kind == 'V' ? shownWeights(r.v, budget) : r.kind == 'M' ? shownWeights(r.m, budget) : (void)0;
        }
        expect(what, want, r.a);
        r.id = nextId++;
        const double m = maxAbs(r.a);
        checkCanon(r);
        if (!(m < 7.77) || (m > 0 && m < 1e-3)) {
            return; // keep magnitudes bounded so that tolerances stay meaningful
        }
        if (forceHold || raw % 4 != 0) {
            incR(r);
        }
        if (regs.size() >= maxRegs) {
            drop(raw / 7 % regs.size());
        }
        regs.push_back(std::move(r));
    }
    Reg mk(char kind, int p, int n, int lo, bool exact) {
        Reg r;
        r.kind  = kind;
        r.pkg   = p;
        r.n     = n;
        r.lo    = lo;
        r.exact = exact;
        return r;
    }

    // ------------------------------------------------------------ data generation
    double angle() {
        switch (vr.below(4)) {
            case 0: return (static_cast<double>(vr.range(-8, 8))) * 0.785398163397448309615660845820 / 2;
            case 1: return (vr.unit() - 0.5) * 1e-11;
            default: return (vr.unit() - 0.5) * 12.6;
        }
    }
    dd::GateMatrix oneQubit(bool& exact, std::string* name = nullptr, bool unitary = true) {
        (void)name;
        exact = true;
        if (gateMode == 3) { // only numbers that are never reclaimed
            switch (vr.below(7)) {
                case 0: return dd::Xmat;
                case 1: return dd::Ymat;
                case 2: return dd::Zmat;
                case 3: return dd::Smat;
                case 4: return dd::Sdagmat;
                case 5: return vr.chance(0.5) ? dd::Hmat : dd::Xmat;
                default: return dd::Imat;
            }
        }
        if (gateMode == 0 || vr.chance(0.4)) {
            switch (vr.below(13)) {
                case 0: return dd::Hmat;
                case 1: return dd::Xmat;
                case 2: return dd::Ymat;
                case 3: return dd::Zmat;
                case 4: return dd::Smat;
                case 5: return dd::Sdagmat;
                case 6: return dd::Tmat;
                case 7: return dd::Tdagmat;
                case 8: return dd::SXmat;
                case 9: return dd::SXdagmat;
                case 10: return dd::Vmat;
                case 11: return dd::Vdagmat;
                default: return dd::Imat;
            }
        }
        exact = false;
        switch (vr.below(unitary ? 6 : 7)) {
            case 0: return dd::RXmat(angle());
            case 1: return dd::RYmat(angle());
            case 2: return dd::RZmat(angle());
            case 3: return dd::Phasemat(angle());
            case 4: return dd::U2mat(angle(), angle());
            case 5: return dd::U3mat(angle(), angle(), angle());
            default: {
                dd::GateMatrix g{};
                for (auto& x: g) {
                    if (!vr.chance(0.2)) {
                        x = {vr.unit() * 2 - 1, vr.unit() * 2 - 1};
                    }
                }
                return g;
            }
        }
    }
    static Arr toArr(const dd::GateMatrix& g) {
        Arr r;
        for (auto& x: g) {
            r.push_back(cv(x));
        }
        return r;
    }
    static Arr toArr(const dd::TwoQubitGateMatrix& g) {
        Arr r;
        for (auto& row: g) {
            for (auto& x: row) {
                r.push_back(cv(x));
            }
        }
        return r;
    }
    dd::Controls controls(int n, int lo, const std::vector<int>& targets, std::vector<Ctl>& ctl, double p = 0.35) {
        dd::Controls cs;
        for (int q = lo; q < lo + n; ++q) {
            if (std::find(targets.begin(), targets.end(), q) != targets.end()) {
                continue;
            }
            if (vr.chance(p)) {
                const bool pos = vr.chance(0.6);
                cs.insert(dd::Control{static_cast<Qubit>(q), pos ? dd::Control::Type::pos : dd::Control::Type::neg});
                ctl.push_back({q - lo, pos});
            }
        }
        return cs;
    }
    // a number at the border between two hash buckets of the number table
    double border() {
        const double x = (static_cast<double>(1 + vr.below(8)) * 7919 + 0.5) / 65536 + (static_cast<double>(vr.below(5)) - 2) * (vr.chance(0.5) ? 4e-14 : 1e-16);
        return vr.chance(0.5) ? x : -x;
    }
    C amp(bool& exact) {
        static const double s2 = dd::SQRT2_2;
        static const C      ex[] = {{0, 0}, {0, 0}, {1, 0}, {-1, 0}, {0, 1}, {0, -1}, {s2, 0}, {0, -s2}, {0.5, 0}, {0.5, 0.5}, {-0.5, 0.5}, {1, 0}};
        if (gateMode == 3) {
            return ex[vr.below(6)];
        }
        if (gateMode == 0 && vr.chance(0.04)) { // exact up to rounding, on either side of a bucket border
            const double x = (static_cast<double>(1 + vr.below(8)) * 7919 + 0.5) / 65536;
            return {vr.chance(0.5) ? x : vr.chance(0.5) ? std::nextafter(x, 0.) : std::nextafter(x, 1.), 0};
        }
        if (gateMode == 0 || vr.chance(0.3)) {
            return ex[vr.below(12)];
        }
        exact = false;
        switch (vr.below(10)) {
            case 0: return {0, 0};
            case 1: return {0, 0};
            case 9: { // fractions of pi and of the square root of two, as magnitude and as phase
                static const double k[] = {1, 0.5, 0.25, 3. / 4, 1. / 3, 2. / 7, dd::PI / 4, dd::PI / 7, 2 * dd::PI / 9, dd::SQRT2_2, dd::SQRT2_2 / 3, 3 * dd::SQRT2_2 / 4, dd::PI / 5, 5. / 1024};
                static const double h[] = {0, 1, 0.5, -0.5, 1. / 3, -2. / 3, 5. / 7, dd::SQRT2_2, -dd::SQRT2_2 / 3, 3 * dd::SQRT2_2 / 4, dd::PI / 5, -dd::PI / 4, 0.3, 1. / 1024};
                const double        m = k[vr.below(14)], f = h[vr.below(14)] * dd::PI;
                return {m * std::cos(f), m * std::sin(f)};
            }
            case 8: return {border(), vr.chance(0.5) ? 0. : border()};
            case 2:
                if (vr.chance(0.25)) { // a component that is small, but not zero
                    const double t = (vr.chance(0.5) ? -1 : 1) * std::pow(10., -8 - 3.5 * vr.unit());
                    return vr.chance(0.7) ? C{0.2 + 0.7 * vr.unit(), t} : C{t, 0.2 + 0.7 * vr.unit()};
                }
                return {0.02 + 0.1 * vr.unit(), -0.03 * vr.unit()};
            case 3: return {std::ldexp(1.0, -static_cast<int>(vr.below(5))), 0};
            default: return {vr.unit() * 2 - 1, vr.unit() * 2 - 1};
        }
    }
    // vectors with internal structure, so that nodes and sub-results are shared
    void fillVec(Arr& a, std::size_t from, std::size_t len, bool& exact) {
        if (len == 1) {
            a[from] = gateMode == 3 ? C{1, 0} : amp(exact);
            return;
        }
        const auto half = len / 2;
        if (gateMode == 3) { // one half is the other up to a phase, or empty
            static const C ph[] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}};
            const auto     k    = vr.below(6);
            fillVec(a, k == 5 ? from + half : from, half, exact);
            for (std::size_t i = 0; k < 4 && i < half; ++i) {
                a[from + half + i] = ph[k] * a[from + i];
            }
            return;
        }
        fillVec(a, from, half, exact);
        switch (vr.below(6)) {
            case 0:
                for (std::size_t k = 0; k < half; ++k) {
                    a[from + half + k] = a[from + k];
                }
                break;
            case 1: {
                const C f = vr.chance(0.5) ? C{-1, 0} : C{0, 1};
                for (std::size_t k = 0; k < half; ++k) {
                    a[from + half + k] = f * a[from + k];
                }
                break;
            }
            case 2: break; // zero block
            default: fillVec(a, from + half, half, exact);
        }
    }
    Arr randVec(int n, bool& exact, bool normalise) {
        Arr a(1ULL << n);
        exact = true;
        fillVec(a, 0, a.size(), exact);
        if (normalise) {
            double s = norm2(a);
            if (s < 1e-3) {
                a.assign(a.size(), C{});
                a[vr.below(a.size())] = {1, 0};
                s                     = 1;
            }
            for (auto& x: a) {
                x = (1 / std::sqrt(s)) * x;
            }
        }
        return a;
    }
    static dd::CVec toC(const Arr& a) {
        dd::CVec r;
        for (auto& x: a) {
            r.emplace_back(x.r, x.i);
        }
        return r;
    }
    static dd::CMat toCM(const Arr& a, std::size_t N) {
        dd::CMat r(N);
        for (std::size_t i = 0; i < N; ++i) {
            for (std::size_t j = 0; j < N; ++j) {
                r[i].emplace_back(a[i * N + j].r, a[i * N + j].i);
            }
        }
        return r;
    }
    int qubitsFor(uint32_t raw, int p, int cap) {
        const int m = std::min<int>(cap, static_cast<int>(nq[p]));
        // mostly the full width so that operands are compatible
        return raw % 3 != 0 ? std::min(maxN, m) : 1 + static_cast<int>(raw / 3 % static_cast<uint32_t>(m));
    }

    // ------------------------------------------------------------ the steps
    void run() {
        int i = 0;
        for (auto& a: plan.acts) {
            c.step = i++;
            vr     = Rng(mix(plan.seed, a.a[5] * 1000003ULL + static_cast<uint64_t>(a.kind)));
            curOp  = a.kind;
            ++c.steps;
            c.h(static_cast<uint64_t>(a.kind));
            step(a);
            checkScratch();
            checkScratchValues();
            checkSnapshots(opName(a.kind));
            if (c.between != nullptr) {
                c.between();
            }
        }
        c.step = i;
        finish();
    }
    // teardown: releasing everything and collecting returns the package to its empty size
    void finish() {
        for (int i = 0; i < npkg; ++i) {
            auditTables(i, "at the end of the run");
        }
        curOp = OP_FINISH;
        for (int p = 0; p < npkg; ++p) {
            for (auto& s: scratchHeld[p]) {
                heap::Repo h;
                pk[p]->cn.returnToCache(s);
            }
            scratchHeld[p].clear();
        }
        while (!regs.empty()) {
            drop(regs.size() - 1);
        }
        for (int p = 0; p < npkg; ++p) {
            forcedGC(p);
        }
        checkScratch();
    }
    void forcedGC(int p) {
        auto& d   = *pk[p];
        dropFloats(p);
        const auto before = d.vUniqueTable.getNodeCount() + d.mUniqueTable.getNodeCount() + d.dUniqueTable.getNodeCount() + d.cn.complexTable.getCount();
        const auto numsBefore = d.cn.complexTable.getCount();
        bool       did;
        {
            heap::Repo h;
            did = d.garbageCollect(true);
        }
        const auto after = d.vUniqueTable.getNodeCount() + d.mUniqueTable.getNodeCount() + d.dUniqueTable.getNodeCount() + d.cn.complexTable.getCount();
        SIM_COUNT(c, "fault.forced_gc");
        everPressured[p] = true; // thresholds shrink, so automatic collections can really run from now on
        if (after < before) {
            SIM_COUNT(c, "probe.gc_reclaimed_something");
            if (d.cn.complexTable.getCount() == numsBefore) {
                SIM_COUNT(c, "probe.gc_reclaimed_nodes_but_no_numbers");
            } else if (before - after == numsBefore - d.cn.complexTable.getCount()) {
                SIM_COUNT(c, "probe.gc_reclaimed_numbers_but_no_nodes");
            }
        }
        if ((oracles & O_GC) != 0 && did != (after < before)) {
            c.fail("gcreport", strf("garbage collection reported %s although %zu objects disappeared", did ? "work done" : "no work", before - after));
        }
        checkReclaimed(p);
    }
    Pkg& P(int p) { return *pk[p]; }

#include "uni_create.inc"
#include "uni_algebra.inc"
#include "uni_query.inc"
#include "uni_life.inc"
#include "uni_measure.inc"
#include "uni_density.inc"
#include "uni_cache.inc"
#include "uni_io.inc"
};
template<class Config>
void runUniverse(const Plan& p, Ctx& c) {
    const auto before = heap::liveBytes(heap::thread());
    {
        Universe<Config> u(c, p);
        u.run();
    }
    if ((p.knob[3] & O_GC) != 0 && p.world != 2 && heap::liveBytes(heap::thread()) != before) {
        c.fail("leak", strf("%llu bytes of the library are still allocated after every package was destroyed", static_cast<unsigned long long>(heap::liveBytes(heap::thread()) - before)));
    }
}
} // namespace sim
