// World TAB: the table of unique numbers, the pool of scratch numbers and the arithmetic on them, driven
// directly, against a model that simply remembers every number that may be alive.
#include "dd/ComplexNumbers.hpp"
#include "world.hpp"

#include <cmath>
#include <limits>
#include <memory>
#include <set>
#include <vector>

namespace sim {
namespace {
enum { T_LOOK, T_PAIR, T_INC, T_DEC, T_GC, T_GCU, T_CLEAR, T_STICKY, T_RECHECK, T_TAKE, T_GIVE, T_TMP, T_ARITH, T_UNDER, T_BURST, T_COUNT };
const char* const NAMES[T_COUNT] = {"LOOK", "PAIR", "INC", "DEC", "GC", "GCU", "CLEAR", "STICKY", "RECHECK", "TAKE", "GIVE", "TMP", "ARITH", "UNDER", "BURST"};

template<class T>
struct TabWorld {
    using E = typename T::Entry;
    struct M {
        E*     p;
        double v;
        uint32_t refs;
        bool   sticky;
    };
    struct Scratch {
        dd::Complex c;
        double      r, i;
    };
    static constexpr bool FULL = std::is_same_v<T, dd::ComplexTable<>>;
    const Plan&                         plan;
    Ctx&                                c;
    double                              tol;
    std::unique_ptr<dd::ComplexNumbers> cn;
    std::unique_ptr<T>                  own;
    std::unique_ptr<dd::ComplexCache<2, 2>> pool;
    std::vector<M>                      live;
    std::vector<Scratch>                held, heldPool;
    std::set<const E*>                  chunkSeen;
    bool                                halfPinned = true;
    Rng                                 vr{0};
    std::size_t                         buckets;

    T& tab() {
        if constexpr (FULL) {
            return cn->complexTable;
        } else {
            return *own;
        }
    }
    TabWorld(const Plan& p, Ctx& ctx, std::size_t nb):
        plan(p), c(ctx), buckets(nb) {
        static const double tols[] = {std::numeric_limits<double>::epsilon() * 1024, std::numeric_limits<double>::epsilon() * 1024, 1e-10, 1e-8, 1e-6}; // below the width of a bucket
        tol = tols[p.knob[1] % 5];
        {
            heap::Repo h;
            T::setTolerance(tol);
            if constexpr (FULL) {
                cn = std::make_unique<dd::ComplexNumbers>();
            } else {
                own = std::make_unique<T>();
            }
            pool = std::make_unique<dd::ComplexCache<2, 2>>();
        }
        // the table starts out with the number 1/2, which is never collected
        E* half = nullptr;
        {
            heap::Repo h;
            half = tab().lookup(0.5);
        }
        live.push_back({half, 0.5, 1, false});
        if (tab().getCount() != 1) {
            c.fail("tab:count", strf("a new table holds %zu numbers, expected only 1/2", tab().getCount()));
        }
    }
    ~TabWorld() {
        heap::Repo h;
        cn.reset();
        own.reset();
        pool.reset();
        T::setTolerance(std::numeric_limits<double>::epsilon() * 1024);
    }
    static bool isStatic(const E* e) { return e == &T::zero || e == &T::one || e == &T::sqrt2_2; }

    double number() {
        const double off[] = {0, 0.3, -0.3, 0.499, 0.6, 0.9, -0.9, 0.999, -0.999, 1.001, -1.001, 1.5, -1.5, 2.1, -2.1, 3};
        const double d     = off[vr.below(16)] * tol;
        double       v     = 0;
        switch (vr.below(12)) {
            case 0:
            case 1:
            case 2:
            case 3: // near a number that is there
                v = live.empty() ? 0.25 : live[vr.below(live.size())].v + d;
                break;
            case 4:
            case 5: { // near the border of a bucket
                const double mask = static_cast<double>(buckets - 1);
                const double k    = static_cast<double>(vr.below(std::min<std::size_t>(buckets, 9))) + 0.5;
                v                 = (mask > 0 ? k / mask : 0.37) + d;
                break;
            }
            case 6: v = vr.unit(); break;
            case 7: v = (1 + vr.unit()) * std::ldexp(1, static_cast<int>(vr.below(80))); break; // large
            case 8: { // near the special numbers
                const double sp[] = {0, 1, dd::SQRT2_2, 0.5};
                v                 = sp[vr.below(4)] + d;
                break;
            }
            case 9: v = static_cast<double>(vr.below(17)) / 16; break;
            case 10: v = 1 + vr.unit(); break;
            default: v = vr.unit() * 10 * tol; // tiny
        }
        return std::fabs(v);
    }
    // every remembered number is where it was, with the value it had
    void invariant(const char* when) {
        for (auto& m: live) {
            if (m.p->value != m.v) {
                c.fail("tab:value", strf("%s the number %.17g turned into %.17g", when, m.v, m.p->value));
            }
        }
        for (auto& s: held) {
            if (s.c.r->value != s.r || s.c.i->value != s.i) {
                c.fail("tab:scratch", strf("%s a scratch number in use changed", when));
            }
        }
        for (auto& s: heldPool) {
            if (s.c.r->value != s.r || s.c.i->value != s.i) {
                c.fail("tab:scratch", strf("%s a scratch number in use changed", when));
            }
        }
        if (T::zero.value != 0. || T::one.value != 1. || T::sqrt2_2.value != dd::SQRT2_2) {
            c.fail("tab:value", strf("%s a built-in constant changed", when));
        }
        if (tab().getCount() != live.size()) {
            c.fail("tab:count", strf("%s the table reports %zu numbers, %zu are alive", when, tab().getCount(), live.size()));
        }
    }
    // what lookup may answer, given what is alive
    void answered(double v, E* e, std::size_t before) {
        if (e == nullptr) {
            c.fail("tab:lookup", strf("lookup(%.17g) returned nothing", v));
        }
        if (E::isNegativePointer(e)) {
            c.fail("tab:lookup", strf("lookup(%.17g) returned a negative number", v));
        }
        const double ulp = 4 * std::numeric_limits<double>::epsilon() * v;
        if (!(std::fabs(e->value - v) <= tol * (1 + 1e-9) + ulp)) {
            c.fail("tab:lookup", strf("lookup(%.17g) returned %.17g, further away than the tolerance %g", v, e->value, tol));
        }
        if (isStatic(e)) {
            SIM_COUNT(c, "probe.constant_found");
            if (tab().getCount() != before) {
                c.fail("tab:count", strf("looking up the constant %g changed the number of entries", e->value));
            }
            return;
        }
        for (double sp: {0., 1., static_cast<double>(dd::SQRT2_2)}) {
            if (std::fabs(v - sp) <= tol * (1 - 1e-3)) {
                c.fail("tab:constant", strf("lookup(%.17g) did not return the constant %.17g", v, sp));
            }
        }
        M*  mine = nullptr;
        const M* near = nullptr;
        for (auto& m: live) {
            if (m.p == e) {
                mine = &m;
            }
            if (std::fabs(m.v - v) <= tol * (1 - 1e-3) && (near == nullptr || std::fabs(m.v - v) < std::fabs(near->v - v))) {
                near = &m;
            }
        }
        if (mine != nullptr) {
            SIM_COUNT(c, "probe.number_found");
            if (e->value != mine->v) {
                c.fail("tab:value", strf("lookup(%.17g) changed the stored number %.17g to %.17g", v, mine->v, e->value));
            }
            if (near != nullptr && near != mine && near->v == v) {
                c.fail("tab:identity", strf("lookup of the stored number %.17g returned another stored number, %.17g", v, mine->v));
            }
            if (tab().getCount() != before) {
                c.fail("tab:count", "finding a stored number changed the number of entries");
            }
            return;
        }
        if (near != nullptr) {
            c.fail("tab:duplicate", strf("lookup(%.17g) created a new entry (%.17g, count %zu, was %zu) although %.17g, which is within the tolerance %g, is stored", v, e->value, tab().getCount(), before, near->v, tol));
        }
        SIM_COUNT(c, "probe.number_created");
        if (std::fabs(e->value - v) != 0) {
            c.fail("tab:lookup", strf("lookup(%.17g) stored %.17g", v, e->value));
        }
        if (e->refCount != 0) {
            c.fail("tab:refs", strf("the new number %.17g starts out with %u references", v, e->refCount));
        }
        live.push_back({e, v, 0, false});
        if (tab().getCount() != before + 1) {
            c.fail("tab:count", "a new number was stored but not counted");
        }
    }
    // one allocation inside may fail
    template<class F>
    auto call(const Act& a, F&& f) -> decltype(f()) {
        if (a.fault != 0) {
            heap::arm(a.fault);
            bool failed = false;
            try {
                heap::Repo h;
                auto       res = f();
                heap::disarm();
                return res;
            } catch (const std::bad_alloc&) {
                heap::disarm();
                failed = true;
            }
            if (failed) {
                SIM_COUNT(c, "fault.alloc_failure_delivered");
                c.h(0xFA11);
                invariant("after a failed allocation");
            }
        }
        heap::Repo h;
        return f();
    }
    void look(const Act& a, double v) {
        const auto before = tab().getCount();
        E*         e      = call(a, [&] { return tab().lookup(v); });
        answered(v, e, before);
        c.hd(e->value);
    }
    M* pick(uint32_t k) { return live.empty() ? nullptr : &live[k % live.size()]; }
    void collect(bool force) {
        const auto  due    = tab().possiblyNeedsCollection();
        std::size_t got    = 0;
        const auto  before = live.size();
        {
            heap::Repo h;
            got = tab().garbageCollect(force);
        }
        std::size_t dead = 0;
        for (auto& m: live) {
            dead += m.refs == 0 ? 1U : 0U;
        }
        c.h(got);
        if (!force && !due) {
            if (got != 0) {
                c.fail("tab:gc", "a collection that was neither due nor forced removed numbers");
            }
            return;
        }
        if (before <= 1) {
            if (got == 0) {
                return; // nothing to gain
            }
        }
        if (got != dead) {
            c.fail("tab:gc", strf("a collection removed %zu numbers, %zu were not referenced", got, dead));
        }
        if (dead > 0) {
            SIM_COUNT(c, "probe.collections_with_garbage");
        }
        std::vector<M> rest;
        for (auto& m: live) {
            if (m.refs != 0) {
                rest.push_back(m);
            }
        }
        live = rest;
    }
    void checkRefs(const M& m) {
        if (m.p->refCount != m.refs) {
            c.fail("tab:refs", strf("the number %.17g has %u references, expected %u", m.v, m.p->refCount, m.refs));
        }
    }
    void recheck() {
        for (std::size_t k = 0; k < live.size(); ++k) {
            const auto m      = live[k];
            const auto before = tab().getCount();
            E*         e      = nullptr;
            {
                heap::Repo h;
                e = tab().lookup(m.v);
            }
            if (e != m.p) {
                c.fail("tab:identity", strf("the stored number %.17g is found as another entry (%.17g)", m.v, e->value));
            }
            if (tab().getCount() != before) {
                c.fail("tab:count", "looking up a stored number changed the number of entries");
            }
            checkRefs(m);
        }
    }
    static double sv(const dd::CTEntry* e) { return dd::CTEntry::val(e); }
    void pairLook(const Act& a) { // a complex number with signs
        if constexpr (FULL) {
            double r = number(), i = number();
            const bool nr = vr.chance(0.5), ni = vr.chance(0.5);
            if (vr.chance(0.15)) {
                r = 0;
            }
            if (vr.chance(0.15)) {
                i = 0;
            }
            const auto before = tab().getCount();
            dd::Complex z;
            if (vr.chance(0.3)) {
                z = call(a, [&] { return cn->lookup(std::complex<double>(nr ? -r : r, ni ? -i : i)); });
            } else if (vr.chance(0.4)) {
                z = call(a, [&] { return cn->lookup(dd::ComplexValue{nr ? -r : r, ni ? -i : i}); });
            } else {
                z = call(a, [&] { return cn->lookup(nr ? -r : r, ni ? -i : i); });
            }
            const auto after = tab().getCount();
            // both parts were looked up, one after the other
            auto part = [&](dd::CTEntry* e, double want, bool neg) {
                auto* al = dd::CTEntry::getAlignedPointer(e);
                if (al == &T::zero) {
                    if (e != al) {
                        c.fail("tab:sign", strf("looking up %.17g gave a negative zero", neg ? -want : want));
                    }
                } else if (dd::CTEntry::isNegativePointer(e) != neg) {
                    c.fail("tab:sign", strf("looking up %.17g gave %.17g", neg ? -want : want, sv(e)));
                }
                std::size_t known = 0;
                for (auto& m: live) {
                    known += m.p == al ? 1U : 0U;
                }
                if (known == 0 && !isStatic(al)) {
                    // created by this call: account for it
                    const auto n = live.size();
                    if (tab().getCount() <= n) {
                        c.fail("tab:count", "a new number was stored but not counted");
                    }
                    for (auto& m: live) {
                        if (std::fabs(m.v - want) <= tol * (1 - 1e-3)) {
                            c.fail("tab:duplicate", strf("lookup(%.17g) created a new entry although %.17g, which is within the tolerance %g, is stored", want, m.v, tol));
                        }
                    }
                    live.push_back({al, want, 0, false});
                }
                if (!(std::fabs(std::fabs(sv(e)) - want) <= tol * (1 + 1e-9) + 4e-16 * want)) {
                    c.fail("tab:lookup", strf("looking up %.17g gave %.17g", neg ? -want : want, sv(e)));
                }
            };
            (void)before;
            (void)after;
            part(z.r, r, nr);
            part(z.i, i, ni);
            if (dd::CTEntry::approximatelyZero(z.r) && dd::CTEntry::approximatelyZero(z.i) && z != dd::Complex::zero) {
                c.fail("tab:constant", "a vanishing number is not represented by the constant zero");
            }
            c.hd(sv(z.r));
            c.hd(sv(z.i));
            // negation and conjugation are their own inverses and address the same stored numbers
            const auto n1 = dd::ComplexNumbers::neg(z), n2 = dd::ComplexNumbers::conj(z);
            if (!(dd::ComplexNumbers::neg(n1) == z) || !(dd::ComplexNumbers::conj(n2) == z) || sv(n1.r) != -sv(z.r) || sv(n1.i) != -sv(z.i) || sv(n2.r) != sv(z.r) || sv(n2.i) != -sv(z.i)) {
                c.fail("tab:sign", "negation or conjugation of a stored number is wrong");
            }
            // references of the pair
            if (vr.chance(0.3)) {
                dd::ComplexNumbers::incRef(z);
                for (auto* e: {z.r, z.i}) {
                    for (auto& m: live) {
                        if (m.p == dd::CTEntry::getAlignedPointer(e)) {
                            if (!m.sticky) {
                                ++m.refs;
                            }
                        }
                    }
                }
                SIM_COUNT(c, "probe.pairs_referenced");
            }
        } else {
            look(a, number());
        }
    }
    void arith() {
        if constexpr (FULL) {
            // operands: stored numbers with signs, or scratch numbers (also aliasing the result)
            auto operand = [&]() -> dd::Complex {
                if (!held.empty() && vr.chance(0.4)) {
                    return held[vr.below(held.size())].c;
                }
                dd::Complex z{};
                auto        one = [&]() -> dd::CTEntry* {
                    switch (vr.below(5)) {
                        case 0: return &T::zero;
                        case 1: return vr.chance(0.5) ? &T::one : &T::sqrt2_2;
                        default: {
                            auto* m = pick(static_cast<uint32_t>(vr.next()));
                            return m == nullptr ? &T::one : (vr.chance(0.5) ? m->p : dd::CTEntry::getNegativePointer(m->p));
                        }
                    }
                };
                z.r = one();
                z.i = one();
                return z;
            };
            const auto   x = operand(), y = operand();
            const double ar = sv(x.r), ai = sv(x.i), br = sv(y.r), bi = sv(y.i);
            double       wr = 0, wi = 0;
            const int    op = static_cast<int>(vr.below(4));
            const double cm = br * br + bi * bi;
            switch (op) {
                case 0: wr = ar + br; wi = ai + bi; break;
                case 1: wr = ar - br; wi = ai - bi; break;
                case 2: wr = ar * br - ai * bi; wi = ar * bi + ai * br; break;
                default:
                    if (!(cm > 1e-200) || !(cm < 1e200)) {
                        return;
                    }
                    wr = (ar * br + ai * bi) / cm;
                    wi = (ai * br - ar * bi) / cm;
            }
            const bool alias = !held.empty() && vr.chance(0.5);
            dd::Complex res;
            {
                heap::Repo h;
                if (!alias) {
                    res = op == 0 ? cn->addCached(x, y) : op == 1 ? cn->subCached(x, y) : op == 2 ? cn->mulCached(x, y) : cn->divCached(x, y);
                } else {
                    res = held[vr.below(held.size())].c;
                    op == 0 ? dd::ComplexNumbers::add(res, x, y) : op == 1 ? dd::ComplexNumbers::sub(res, x, y) : op == 2 ? dd::ComplexNumbers::mul(res, x, y) : dd::ComplexNumbers::div(res, x, y);
                }
            }
            const double mag = std::fmax(std::hypot(ar, ai), 1e-300), mbg = std::hypot(br, bi);
            // numbers within the tolerance of 0, 1 or of each other count as such
            const double err = op < 2 ? 1e-12 * (mag + mbg) : op == 2 ? 3 * tol * (mag + mbg + 1) + 1e-12 * mag * mbg :
                                                                        3 * tol * (mag / mbg + 1 / mbg + 1) + 1e-12 * mag / mbg;
            if (std::fabs(sv(res.r) - wr) > err || std::fabs(sv(res.i) - wi) > err) {
                static const char* on[] = {"sum", "difference", "product", "quotient"};
                c.fail("tab:arith", strf("the %s of %.17g%+.17gi and %.17g%+.17gi is %.17g%+.17gi, got %.17g%+.17gi%s", on[op], ar, ai, br, bi, wr, wi, sv(res.r), sv(res.i), alias ? " (result stored in a scratch number that may be an operand)" : ""));
            }
            bool known = false;
            for (auto& s: held) {
                if (s.c == res) {
                    s.r   = res.r->value;
                    s.i   = res.i->value;
                    known = true;
                }
            }
            if (!known) {
                distinct(held, res);
                held.push_back({res, res.r->value, res.i->value});
            }
            const double m2 = sv(res.r) * sv(res.r) + sv(res.i) * sv(res.i);
            if (std::fabs(dd::ComplexNumbers::mag2(res) - m2) > 1e-12 * m2 || std::fabs(dd::ComplexNumbers::mag(res) - std::sqrt(m2)) > 1e-9 * std::sqrt(m2) + 1e-150 || std::fabs(dd::ComplexNumbers::arg(res) - std::atan2(sv(res.i), sv(res.r))) > 1e-12) {
                c.fail("tab:arith", "magnitude or phase of a number is wrong");
            }
            c.hd(sv(res.r));
            SIM_COUNT(c, "probe.arithmetic");
        }
    }
    void distinct(const std::vector<Scratch>& v, const dd::Complex& z) {
        if (z.r == z.i) {
            c.fail("tab:scratch", "the two parts of a scratch number share their memory");
        }
        for (auto& s: v) {
            if (s.c.r == z.r || s.c.i == z.i || s.c.r == z.i || s.c.i == z.r) {
                c.fail("tab:scratch", "a scratch number was handed out that is still in use");
            }
        }
        for (auto& m: live) {
            if (reinterpret_cast<const void*>(m.p) == z.r || reinterpret_cast<const void*>(m.p) == z.i) {
                c.fail("tab:scratch", "a scratch number shares its memory with a stored number");
            }
        }
    }
    void scratch(const Act& a, int what) {
        const bool big = FULL && a.a[3] % 2 == 0;
        auto&      v   = big ? held : heldPool;
        auto       cnt = [&] {
            if constexpr (FULL) {
                return big ? cn->complexCache.getCount() : pool->getCount();
            } else {
                return pool->getCount();
            }
        };
        if (what == T_GIVE) {
            if (v.empty()) {
                return;
            }
            const auto k = a.a[0] % v.size();
            {
                heap::Repo h;
                if constexpr (FULL) {
                    if (big) {
                        cn->returnToCache(v[k].c);
                    } else {
                        pool->returnToCache(v[k].c);
                    }
                } else {
                    pool->returnToCache(v[k].c);
                }
            }
            v.erase(v.begin() + static_cast<std::ptrdiff_t>(k));
        } else {
            if (v.size() > 40) {
                return;
            }
            const double r = vr.unit(), i = -vr.unit();
            const bool   tmp = what == T_TMP;
            dd::Complex  z   = call(a, [&] {
                if constexpr (FULL) {
                    if (big) {
                        if (tmp) {
                            return vr.chance(0.5) ? cn->getTemporary() : cn->getTemporary(r, i);
                        }
                        return vr.chance(0.5) ? cn->getCached() : cn->getCached(r, i);
                    }
                }
                return tmp ? pool->getTemporaryComplex() : pool->getCachedComplex();
            });
            distinct(v, z);
            z.r->value = r;
            z.i->value = i;
            if (!tmp) {
                v.push_back({z, r, i});
            }
        }
        if (cnt() != 2 * v.size()) {
            c.fail("tab:scratch-count", strf("%zu scratch entries are reported in use, %zu are", cnt(), 2 * v.size()));
        }
    }
    void run() {
        int step = 0;
        for (auto& a: plan.acts) {
            c.step = step++;
            vr     = Rng(mix(plan.seed, a.a[5]));
            ++c.steps;
            c.h(static_cast<uint64_t>(a.kind));
            switch (a.kind) {
                case T_LOOK: look(a, number()); break;
                case T_PAIR: pairLook(a); break;
                case T_BURST:
                    for (uint32_t k = 0; k < 1 + a.a[0] % 30; ++k) {
                        look(a, number());
                    }
                    break;
                case T_INC:
                    if (M* m = pick(a.a[0])) {
                        T::incRef(a.a[1] % 2 == 0 ? m->p : E::getNegativePointer(m->p));
                        if (!m->sticky) {
                            ++m->refs;
                        }
                        checkRefs(*m);
                    }
                    break;
                case T_DEC:
                    if (M* m = pick(a.a[0])) {
                        if (m->refs > 0 && !(m->v == 0.5 && m->refs == 1)) {
                            T::decRef(a.a[1] % 2 == 0 ? m->p : E::getNegativePointer(m->p));
                            if (!m->sticky) {
                                --m->refs;
                            }
                            checkRefs(*m);
                        }
                    }
                    break;
                case T_UNDER:
                    if (M* m = pick(a.a[0])) {
                        if (m->refs == 0) {
                            bool thrown = false;
                            try {
                                T::decRef(m->p);
                            } catch (const std::exception&) {
                                thrown = true;
                            }
                            SIM_COUNT(c, "fault.unbalanced_release");
                            if (!thrown) {
                                c.fail("tab:underflow", "releasing a number that nobody references was not reported");
                            }
                            checkRefs(*m);
                        }
                    }
                    // the constants do not count
                    for (E* e: {&T::zero, &T::one, &T::sqrt2_2}) {
                        const auto before = e->refCount;
                        T::incRef(e);
                        T::decRef(e);
                        T::decRef(e);
                        if (e->refCount != before) {
                            c.fail("tab:refs", "the reference count of a constant changed");
                        }
                    }
                    break;
                case T_STICKY: // a number that has collected the maximal number of references stays for good
                    if (M* m = pick(a.a[0])) {
                        if (!m->sticky && m->v != 0.5) {
                            constexpr auto MAX = std::numeric_limits<dd::RefCount>::max();
                            m->p->refCount     = MAX - 1;
                            T::incRef(m->p);
                            T::incRef(m->p);
                            m->refs   = MAX;
                            m->sticky = true;
                            checkRefs(*m);
                            T::decRef(m->p);
                            checkRefs(*m);
                            SIM_COUNT(c, "fault.reference_count_saturated");
                        }
                    }
                    break;
                case T_GC: collect(true); break;
                case T_GCU: collect(false); break;
                case T_CLEAR:
                    if (a.a[0] % 2 == 0) {
                        heap::Repo h;
                        tab().clear();
                        live.clear();
                        SIM_COUNT(c, "fault.table_cleared");
                    } else {
                        pool->clear();
                        heldPool.clear();
                    }
                    break;
                case T_RECHECK: recheck(); break;
                case T_TAKE:
                case T_GIVE:
                case T_TMP: scratch(a, a.kind); break;
                default: arith();
            }
            invariant("after a step");
        }
        c.step = static_cast<int>(plan.acts.size());
        recheck();
        collect(true);
        invariant("at the end");
        recheck();
    }
};
const CheckInfo INFO{"C06", 160000, 5000000,
                     "One evaluation is one simulated execution: a seeded sequence of lookups (values placed at fractions and multiples of the tolerance around stored numbers, bucket borders and constants; large and tiny values; signs), references, collections, clears, scratch-number borrowing and arithmetic on the real number table, in one of five table shapes, with seeded memory layout and failing allocations, compared with a model of every live number after each step. Distinct: the hash over all observed values differs. Non-trivial: at least three steps took effect.",
                     "real: ComplexTable, ComplexCache, ComplexNumbers, Complex, ComplexValue; simulated: the heap (addresses, reuse, contents of fresh memory, failures); stub: none"};
} // namespace

const CheckInfo* checkInfo(const std::string& id) { return id == "C06" ? &INFO : nullptr; }
const char*      actName(const Plan&, int kind) { return kind >= 0 && kind < T_COUNT ? NAMES[kind] : "?"; }
int              actKind(const std::string& n) {
    for (int k = 0; k < T_COUNT; ++k) {
        if (n == NAMES[k]) {
            return k;
        }
    }
    return T_COUNT;
}
int  actKinds() { return T_COUNT; }
Plan makePlan(const std::string& check, uint64_t seed, uint64_t idx, bool deep) {
    Rng  g(mix(mix(seed, 0x7AB), idx));
    Plan p;
    p.check         = check;
    p.world         = 1;
    p.seed          = g.next();
    p.config        = static_cast<int>(g.below(5));
    p.knob[1]       = static_cast<uint32_t>(g.below(5));
    p.layout.stride = g.chance(0.4) ? 0 : static_cast<uint32_t>(g.below(5));
    p.layout.reuse  = static_cast<uint32_t>(g.below(3));
    p.layout.fill   = static_cast<uint32_t>(g.below(5));
    p.layout.salt   = static_cast<uint32_t>(g.next());
    int w[T_COUNT]  = {30, 14, 14, 10, 5, 2, 1, 1, 3, 6, 5, 2, 8, 2, 1};
    for (auto& x: w) {
        if (g.chance(0.15)) {
            x = 0;
        } else if (g.chance(0.1)) {
            x *= 4;
        }
    }
    w[T_LOOK] += 5;
    int sum = 0;
    for (auto x: w) {
        sum += x;
    }
    const int n = 15 + static_cast<int>(g.below(deep ? 250 : 80));
    const bool faults = g.chance(0.6);
    for (int i = 0; i < n; ++i) {
        Act a;
        int r = static_cast<int>(g.below(static_cast<uint64_t>(sum)));
        while (r >= w[a.kind]) {
            r -= w[a.kind];
            ++a.kind;
        }
        for (auto& v: a.a) {
            v = static_cast<uint32_t>(g.below(1U << 20));
        }
        if (faults && g.chance(0.3)) {
            a.fault = 1;
        }
        p.acts.push_back(a);
    }
    return p;
}
void runPlan(const Plan& p, Ctx& c) {
    switch (p.config) {
        case 0: return TabWorld<dd::ComplexTable<>>(p, c, 65537).run();
        case 1: return TabWorld<dd::ComplexTable<1, 1, 2, 4>>(p, c, 1).run();
        case 2: return TabWorld<dd::ComplexTable<2, 2, 2, 8>>(p, c, 2).run();
        case 3: return TabWorld<dd::ComplexTable<8, 3, 1, 16>>(p, c, 8).run();
        default: return TabWorld<dd::ComplexTable<>>(p, c, 65537).run();
    }
}
} // namespace sim
