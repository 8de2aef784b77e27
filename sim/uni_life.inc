// ---- lifecycle: references, collection, memory pressure, reset, resize, scratch numbers
bool everPressured[2] = {false, false};
bool pressured(int p) {
    if (everPressured[p]) {
        return true;
    }
    auto& d = P(p);
    return d.vUniqueTable.getNodeCount() > 90000 || d.mUniqueTable.getNodeCount() > 90000 || d.dUniqueTable.getNodeCount() > 90000 || d.cn.complexTable.getCount() > 80000;
}
std::size_t population(int p) {
    auto& d = P(p);
    return d.vUniqueTable.getNodeCount() + d.mUniqueTable.getNodeCount() + d.dUniqueTable.getNodeCount() + d.cn.complexTable.getCount();
}
void opHold(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.held < 4; });
    if (x != nullptr) {
        incR(*x);
    }
}
void opRelease(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.held > 0; });
    if (x != nullptr) {
        decR(*x);
    }
}
void opDrop(const Act& a) {
    if (!regs.empty()) {
        drop(a.a[0] % regs.size());
    }
}
void opGcUnforced(const Act& a, int p) {
    if (pressured(p)) {
        dropFloats(p);
    }
    const auto before = population(p);
    bool       did    = false;
    did               = call(a, [&] { return P(p).garbageCollect(); });
    const auto after  = population(p);
    c.h(before - after);
    if (after != before) {
        SIM_COUNT(c, "probe.pressure_gc_reclaimed");
    }
    if ((oracles & O_GC) != 0 && did != (after < before)) {
        c.fail("gcreport", strf("garbageCollect() reported %s although %zu objects disappeared", did ? "work done" : "no work", before - after));
    }
}
// The same group of computations before and after a collection.  Operands are held registers, optionally with
// a fresh top weight (same nodes, new number); results may be kept referenced so that a following collection
// reclaims numbers but no nodes.
struct Kept {
    char      kind;
    dd::vEdge v{};
    dd::mEdge m{};
};
// only: one kind of operation (-1: all), freshNodes: operands may also be replaced by new diagrams
void battery(const Act& a, int p, uint64_t seed, uint64_t scaleSeed, std::vector<Kept>* keep, int only = -1, bool freshNodes = true) {
    auto& d = P(p);
    Rng   g(seed), sg(scaleSeed);
    std::vector<const Reg*> vs, ms;
    for (auto& r: regs) {
        if (r.pkg == p && r.held > 0 && r.lo == 0) {
            if (r.kind == 'V' && !r.v.isTerminal()) {
                vs.push_back(&r);
            } else if (r.kind == 'M' && !r.m.isTerminal()) {
                ms.push_back(&r);
            }
        }
    }
    const int rounds = 2 + static_cast<int>(g.below(5));
    for (int k = 0; k < rounds; ++k) {
        const auto op0    = g.below(9);
        const auto op     = only >= 0 ? static_cast<uint64_t>(only) : op0;
        // (the choices are made in any case: batteries of one seed perform the same operations on the same operands)
        const bool vary0  = g.chance(0.8);
        const bool fresh0 = g.chance(0.4);
        const bool vary   = scaleSeed != 0 && vary0;
        const bool fresh  = vary && (gateMode == 3 || (freshNodes && fresh0)); // new nodes rather than a new weight
        const bool scaled = vary && !fresh;
        const auto i = g.next(), j = g.next();
        const C    f = scaled ? C{0.1 + 0.9 * sg.unit(), sg.chance(0.5) ? 0. : sg.unit()} : C{1, 0};
        auto       pv = [&](uint64_t x) -> const Reg* { return vs.empty() ? nullptr : vs[x % vs.size()]; };
        auto       pm = [&](uint64_t x) -> const Reg* { return ms.empty() ? nullptr : ms[x % ms.size()]; };
        auto       same = [&](const std::vector<const Reg*>& l, int n, uint64_t x) -> const Reg* {
            std::vector<const Reg*> m;
            for (auto* r: l) {
                if (r->n == n) {
                    m.push_back(r);
                }
            }
            return m.empty() ? nullptr : m[x % m.size()];
        };
        // the operand with its top weight replaced, and its meaning
        auto scaleA = [&](const Arr& x, const dd::Complex& w, C nw) {
            Arr     r = x;
            const C q = cv(w);
            const double den = q.r * q.r + q.i * q.i;
            const C inv{q.r / den, -q.i / den};
            for (auto& z: r) {
                z = (nw * inv) * z;
            }
            return r;
        };
        auto sv = [&](const Reg* r, Arr& m) {
            auto e = r->v;
            m      = r->a;
            if (fresh) {
                const Rng old = vr;
                vr            = Rng(sg.next());
                bool ex       = true;
                m             = randVec(r->n, ex, true);
                vr            = old;
                const auto cvv = toC(m);
                e              = call(a, [&] { return d.makeStateFromVector(cvv); });
            }
            if (scaled) {
                e.w = call(a, [&] { return d.cn.lookup(f.r, f.i); });
                m   = scaleA(r->a, r->v.w, cv(e.w));
            }
            return e;
        };
        auto sm = [&](const Reg* r, Arr& m) {
            auto e = r->m;
            m      = r->a;
            if (fresh) {
                const Rng old = vr;
                vr            = Rng(sg.next());
                bool             ex = true;
                const auto       gm = oneQubit(ex);
                std::vector<Ctl> ctl;
                const int        t  = static_cast<int>(vr.below(static_cast<uint64_t>(r->n)));
                const auto       cs = controls(r->n, 0, {t}, ctl);
                m                   = gateA(r->n, toArr(gm), {t}, ctl);
                vr                  = old;
                e = call(a, [&] { return d.makeGateDD(gm, static_cast<QubitCount>(r->n), cs, static_cast<Qubit>(t)); });
            }
            if (scaled) {
                e.w = call(a, [&] { return d.cn.lookup(f.r, f.i); });
                m   = scaleA(r->a, r->m.w, cv(e.w));
            }
            return e;
        };
        auto outV = [&](const char* w, const dd::vEdge& e, int n, const Arr& want, double sc) {
            expect(w, want, readV(e, n), sc);
            if (keep != nullptr) {
                heap::Repo h;
                d.incRef(e);
                keep->push_back({'V', e, {}});
            }
        };
        auto outM = [&](const char* w, const dd::mEdge& e, int n, const Arr& want, double sc) {
            expect(w, want, readM(e, n), sc);
            if (keep != nullptr) {
                heap::Repo h;
                d.incRef(e);
                keep->push_back({'M', {}, e});
            }
        };
        Arr xa, ya;
        switch (op) {
            case 0:
                if (auto* x = pv(i)) {
                    auto*      y = same(vs, x->n, j);
                    const auto e = sv(x, xa);
                    outV("add", call(a, [&] { return d.add(e, y->v); }), x->n, addA(xa, y->a), 4);
                }
                break;
            case 1:
                if (auto* x = pm(i)) {
                    auto*      y = same(ms, x->n, j);
                    const auto e = sm(x, xa);
                    outM("add", call(a, [&] { return d.add(e, y->m); }), x->n, addA(xa, y->a), 4);
                }
                break;
            case 2:
                if (auto* x = pm(i)) {
                    if (auto* y = same(vs, x->n, j)) {
                        const auto e = sm(x, xa);
                        outV("multiply", call(a, [&] { return d.multiply(e, y->v); }), x->n, mulMV(xa, y->a), maxAbs(xa) * maxAbs(y->a) * 8);
                    }
                }
                break;
            case 3:
                if (auto* x = pm(i)) {
                    auto*      y = same(ms, x->n, j);
                    const auto e = sm(x, xa);
                    outM("multiply", call(a, [&] { return d.multiply(e, y->m); }), x->n, mulMM(xa, y->a, x->N()), maxAbs(xa) * maxAbs(y->a) * 8);
                }
                break;
            case 4:
                if (auto* x = pm(i)) {
                    const auto e  = sm(x, xa);
                    const bool cj = (j & 1U) != 0;
                    outM(cj ? "conjugateTranspose" : "transpose", call(a, [&] { return cj ? d.conjugateTranspose(e) : d.transpose(e); }), x->n, transposeA(xa, x->N(), cj), maxAbs(xa));
                }
                break;
            case 5:
                if (auto* x = pv(i)) {
                    auto* y = pv(j);
                    if (x->n + y->n <= VCAP && static_cast<std::size_t>(x->n + y->n) <= nq[p]) {
                        const auto e = sv(x, xa);
                        outV("kronecker", call(a, [&] { return d.kronecker(e, y->v); }), x->n + y->n, kronV(xa, y->a), maxAbs(xa) * maxAbs(y->a));
                    }
                }
                break;
            case 6:
                if (auto* x = pm(i)) {
                    auto* y = pm(j);
                    if (x->n + y->n <= MCAP && static_cast<std::size_t>(x->n + y->n) <= nq[p]) {
                        const auto e = sm(x, xa);
                        outM("kronecker", call(a, [&] { return d.kronecker(e, y->m); }), x->n + y->n, kronM(xa, x->N(), y->a, y->N()), maxAbs(xa) * maxAbs(y->a));
                    }
                }
                break;
            case 7:
                if (auto* x = pv(i)) {
                    auto*      y = same(vs, x->n, j);
                    const auto e = sv(x, xa);
                    expectC("innerProduct", innerA(xa, y->a), cv(call(a, [&] { return d.innerProduct(e, y->v); })), std::sqrt(norm2(xa) * norm2(y->a)));
                }
                break;
            default:
                if (auto* x = pv(i)) {
                    const auto cvv = toC(x->a);
                    const auto e   = call(a, [&] { return d.makeStateFromVector(cvv); });
                    expect("makeStateFromVector", x->a, readV(e, x->n), maxAbs(x->a));
                }
        }
    }
}
void letGo(int p, std::vector<Kept>& kept) {
    heap::Repo h;
    for (auto& k: kept) {
        if (k.kind == 'V') {
            P(p).decRef(k.v);
        } else {
            P(p).decRef(k.m);
        }
    }
    kept.clear();
}
// new numbers take the places of the reclaimed ones
void churn(int p, uint64_t seed, std::size_t n) {
    heap::Repo h;
    Rng        g(seed);
    for (std::size_t k = 0; k < n; ++k) {
        P(p).cn.lookup(g.unit(), g.unit());
    }
}
// a collection that reclaims numbers only: everything is held, only top weights come and go
void opWeights(const Act& a) {
    const int p = pkgOf(a.a[0]);
    if (!exactWorld && vr.chance(0.5)) { // matrices that have another top weight in another arrangement
        for (uint64_t k = 1 + vr.below(2); k > 0; --k) {
            const int            n = 1 + static_cast<int>(vr.below(std::min<uint64_t>(nq[p], 3)));
            const dd::GateMatrix g = vr.chance(0.5) ? dd::U3mat(angle(), angle(), 1.6 + vr.unit() * 3.) : dd::GateMatrix{dd::ComplexValue{}, {vr.unit() - 0.5, vr.unit()}, {vr.unit(), vr.unit() - 0.5}, {0, 0.25 * vr.unit()}};
            const int            t = static_cast<int>(vr.below(static_cast<uint64_t>(n)));
            Reg                  r = mk('M', p, n, 0, false);
            r.m                    = call(a, [&] { return P(p).makeGateDD(g, static_cast<QubitCount>(n), static_cast<Qubit>(t)); });
            produce("makeGateDD", r, gateA(n, toArr(g), {t}, {}), a.a[4]);
        }
    }
    for (auto& r: regs) {
        if (r.pkg == p && r.held == 0 && r.kind != 'D') {
            incR(r);
        }
    }
    everPressured[p]   = true;
    const auto seed    = vr.next();
    std::vector<Kept> kept;
    const bool        keep  = vr.chance(0.7);
    const bool        fresh = vr.chance(0.5);
    const int         only  = vr.chance(0.5) ? static_cast<int>(vr.below(8)) : -1;
    battery(a, p, seed, 0, keep ? &kept : nullptr, only, fresh);
    if (vr.chance(0.5)) { // from now on no node is reclaimed unless a computation leaves one behind
        heap::Repo h;
        P(p).garbageCollect(true);
    }
    const int rounds = 2 + static_cast<int>(vr.below(3));
    for (int k = 0; k < rounds; ++k) {
        const int more = 1 + static_cast<int>(vr.below(4));
        for (int i = 0; i < more; ++i) {
            battery(a, p, seed, vr.next() | 1U, nullptr, only, fresh);
        }
        heap::Repo h;
        P(p).garbageCollect(true);
        if (vr.chance(0.2)) {
            churn(p, vr.next(), 1 + vr.below(20));
        }
    }
    battery(a, p, seed, 0, nullptr, only, fresh);
    letGo(p, kept);
    SIM_COUNT(c, "fault.numbers_reclaimed_under_held_nodes");
    // density operators without a reference did not survive
    regs.erase(std::remove_if(regs.begin(), regs.end(), [&](const Reg& r) { return r.pkg == p && r.held == 0; }), regs.end());
}
// density operators computed from scratch, by held operators and by gates
void batteryD(const Act& a, int p, uint64_t seed) {
    const Rng old = vr;
    vr            = Rng(seed);
    auto&     d   = P(p);
    const int n   = 1 + static_cast<int>(vr.below(static_cast<uint64_t>(std::min<std::size_t>(nq[p], 3))));
    Act       nf  = a;
    nf.fault      = 0;
    auto e = call(nf, [&] {
        auto z = d.makeZeroDensityOperator(static_cast<QubitCount>(n));
        d.incRef(z);
        return z;
    });
    Arr now(1ULL << (2 * n));
    now[0] = {1, 0};
    const auto N = 1ULL << n;
    for (uint64_t k = 1 + vr.below(4); k > 0; --k) {
        Reg*      m = vr.chance(0.7) ? pick(static_cast<uint32_t>(vr.below(1U << 20)), [&](const Reg& r) { return r.kind == 'M' && r.held > 0 && r.pkg == p && r.n == n && r.lo == 0 && maxAbs(r.a) <= 1.5; }) : nullptr;
        Arr       u;
        dd::mEdge op{};
        if (m != nullptr) {
            u  = m->a;
            op = m->m;
        } else {
            bool             exact = true;
            const auto       g     = oneQubit(exact);
            const int        t     = static_cast<int>(vr.below(static_cast<uint64_t>(n)));
            std::vector<Ctl> ctl;
            const auto       cs = controls(n, 0, {t}, ctl);
            u                   = gateA(n, toArr(g), {t}, ctl);
            op                  = call(nf, [&] { return d.makeGateDD(g, static_cast<QubitCount>(n), cs, static_cast<Qubit>(t)); });
        }
        const Arr want = mulMM(mulMM(u, now, N), transposeA(u, N, true), N);
        const auto scale = maxAbs(now) * maxAbs(u) * maxAbs(u) * static_cast<double>(N);
        const bool gen  = vr.chance(0.5);
        call(nf, [&] { d.applyOperationToDensity(e, op, gen); });
        now = readD(p, e, n);
        expect("density operator", want, now, scale);
        if (now.empty() || maxAbs(now) < 1e-4 || maxAbs(now) > 8) {
            break;
        }
    }
    call(nf, [&] {
        dd::dEdge::alignDensityEdge(e);
        d.decRef(e);
    });
    vr = old;
}
// the same few computations very often, mixed with others: what a table of results hands out stays right
void hammer(const Act& a, int p) {
    auto&                          d = P(p);
    std::vector<std::size_t>       vs, ms;
    for (std::size_t i = 0; i < regs.size(); ++i) {
        auto& r = regs[i];
        if (r.pkg == p && r.held > 0 && r.lo == 0) {
            if (r.kind == 'V' && !r.v.isTerminal()) {
                vs.push_back(i);
            } else if (r.kind == 'M' && !r.m.isTerminal()) {
                ms.push_back(i);
            }
        }
    }
    struct Job {
        int         kind;
        std::size_t x, y;
        Arr         want;
        bool        known = false;
        dd::vEdge   v{};
        dd::mEdge   m{};
    };
    std::vector<Job> jobs;
    auto             fits = [&](std::size_t i, std::size_t j, int cap) { return regs[i].n + regs[j].n <= cap && static_cast<std::size_t>(regs[i].n + regs[j].n) <= nq[p]; };
    for (int k = 0; k < 12 && jobs.size() < 6; ++k) {
        const int kind = static_cast<int>(vr.below(9));
        auto      any  = [&](const std::vector<std::size_t>& l) { return l.empty() ? regs.size() : l[vr.below(l.size())]; };
        const bool        lv = kind == 0 || kind == 6 || kind == 8;
        const std::size_t x = any(lv ? vs : ms);
        const std::size_t y = any(lv || kind == 2 ? vs : ms);
        if (x == regs.size() || y == regs.size()) {
            continue;
        }
        auto &A = regs[x], &B = regs[y];
        const double big = maxAbs(A.a) * maxAbs(B.a);
        if ((kind <= 3 || kind == 8) && A.n != B.n) {
            continue;
        }
        Job j{kind, x, y, {}};
        switch (kind) {
            case 0:
            case 1: j.want = addA(A.a, B.a); break;
            case 2: j.want = mulMV(A.a, B.a); break;
            case 3: j.want = mulMM(A.a, B.a, A.N()); break;
            case 4: j.want = transposeA(A.a, A.N(), false); break;
            case 5: j.want = transposeA(A.a, A.N(), true); break;
            case 6:
                if (!fits(x, y, VCAP)) {
                    continue;
                }
                j.want = kronV(A.a, B.a);
                break;
            case 7:
                if (!fits(x, y, MCAP)) {
                    continue;
                }
                j.want = kronM(A.a, A.N(), B.a, B.N());
                break;
            default: j.want = Arr{innerA(A.a, B.a)};
        }
        if (big < 1e3) {
            jobs.push_back(std::move(j));
        }
    }
    if (jobs.empty()) {
        return;
    }
    const int    rounds = 60 + static_cast<int>(vr.below(500));
    const double misses = vr.chance(0.5) ? 0.6 * vr.unit() : 0.;
    Act          nf     = a;
    nf.fault            = 0;
    for (int k = 0; k < rounds; ++k) {
        auto&  j = jobs[vr.below(jobs.size())];
        auto & A = regs[j.x], &B = regs[j.y];
        if (vr.chance(misses)) { // an operand with another top weight
            const auto w = call(nf, [&] { return gateMode == 3 ? dd::Complex::one : d.cn.lookup(0.2 + 0.8 * vr.unit(), 0.); });
            if (A.kind == 'M') {
                auto e = A.m;
                e.w    = w;
                call(nf, [&] { return j.kind == 5 ? d.conjugateTranspose(e) : d.transpose(e); });
            } else {
                auto e = A.v;
                e.w    = w;
                call(nf, [&] { return d.add(e, A.v); });
            }
        }
        dd::vEdge v{};
        dd::mEdge m{};
        C         z{};
        call(nf, [&] {
            switch (j.kind) {
                case 0: v = d.add(A.v, B.v); break;
                case 1: m = d.add(A.m, B.m); break;
                case 2: v = d.multiply(A.m, B.v); break;
                case 3: m = d.multiply(A.m, B.m); break;
                case 4: m = d.transpose(A.m); break;
                case 5: m = d.conjugateTranspose(A.m); break;
                case 6: v = d.kronecker(A.v, B.v); break;
                case 7: m = d.kronecker(A.m, B.m); break;
                default: z = cv(d.innerProduct(A.v, B.v));
            }
        });
        const double sc = std::fmax(1., maxAbs(A.a) * maxAbs(B.a)) * 8;
        if (j.kind == 8) {
            expectC("innerProduct", j.want[0], z, std::sqrt(norm2(A.a) * norm2(B.a)));
            continue;
        }
        const bool isV = j.kind == 0 || j.kind == 2 || j.kind == 6;
        if ((oracles & O_SHAPE) == 0 && j.known && (isV ? v.p == j.v.p && std::hypot(wr(v.w) - wr(j.v.w), wi(v.w) - wi(j.v.w)) < 1e-10 : m.p == j.m.p && std::hypot(wr(m.w) - wr(j.m.w), wi(m.w) - wi(j.m.w)) < 1e-10)) {
            continue; // the diagram that was right before
        }
        const int n = j.kind >= 6 ? A.n + B.n : A.n;
        static const char* nm[] = {"add", "add", "multiply", "multiply", "transpose", "conjugateTranspose", "kronecker", "kronecker"};
        expect(nm[j.kind], j.want, isV ? readV(v, n) : readM(m, n), sc);
        j.known = true;
        j.v     = v;
        j.m     = m;
    }
    SIM_COUNT(c, "probe.long_result_histories");
}
// a collection that takes nodes of some kinds only, or just a few of them, or no numbers: the user holds on to the rest
void selective(const Act& a, int p) {
    auto& d = P(p);
    dropFloats(p);
    everPressured[p] = true;
    const auto seed = vr.next(), seedD = vr.next(), other = vr.next();
    const bool dens = vr.chance(0.6), alg = !dens || vr.chance(0.6), vary = vr.chance(0.5);
    const int  reps = vr.chance(0.3) ? 1 + static_cast<int>(vr.below(6)) : 1;
    auto       work = [&](uint64_t k) {
        if (alg) {
            battery(a, p, seed + k, vary ? vr.next() | 1U : 0, nullptr);
        }
        if (dens) {
            batteryD(a, p, seedD + k);
        }
    };
    for (int k = 0; k < reps; ++k) {
        work(static_cast<uint64_t>(k));
    }
    const auto   kinds = vr.below(8); // what is (mostly) spared: 1 vector, 2 matrix, 4 density nodes
    const bool   nums  = vr.chance(0.6);
    const double some  = vr.chance(0.5) ? 1. : vr.chance(0.5) ? 0.97 : 0.6;
    // (where the order of the nodes in their tables must not matter, all or none are spared)
    const double most  = (oracles & O_SHAPE) != 0 ? 1. : some;
    std::vector<dd::vEdge> vs;
    std::vector<dd::mEdge> ms;
    std::vector<dd::dEdge> ds;
    std::vector<Entry*>    ns;
    auto pin = [&](const auto& table, auto& to, bool yes) {
        using Ed = typename std::decay_t<decltype(to)>::value_type;
        for (const auto& level: table.getTables()) {
            for (auto* x: level) {
                for (; x != nullptr; x = x->next) {
                    if (yes && (most == 1. || vr.chance(most))) {
                        to.push_back(Ed{x, dd::Complex::one});
                    }
                }
            }
        }
        for (auto& e: to) {
            d.incRef(e);
        }
    };
    {
        heap::Repo h;
        pin(d.vUniqueTable, vs, (kinds & 1U) != 0);
        pin(d.mUniqueTable, ms, (kinds & 2U) != 0);
        pin(d.dUniqueTable, ds, (kinds & 4U) != 0);
        if (nums) {
            for (auto* x: d.cn.complexTable.getTable()) {
                for (; x != nullptr; x = x->next) {
                    ns.push_back(x);
                }
            }
            for (auto* x: ns) {
                dd::ComplexTable<>::incRef(x);
            }
        }
        d.garbageCollect(true);
    }
    if (vr.chance(0.7)) {
        work(other); // takes the memory of what was collected
    }
    for (int k = 0; k < reps; ++k) {
        work(static_cast<uint64_t>(k));
    }
    {
        heap::Repo h;
        for (auto& e: vs) {
            d.decRef(e);
        }
        for (auto& e: ms) {
            d.decRef(e);
        }
        for (auto& e: ds) {
            d.decRef(e);
        }
        for (auto* x: ns) {
            dd::ComplexTable<>::decRef(x);
        }
    }
    forcedGC(p);
    SIM_COUNT(c, "probe.selective_collections");
}
void opGcAround(const Act& a) {
    const int p = pkgOf(a.a[0]);
    if (vr.chance(0.08)) {
        return selective(a, p);
    }
    if (vr.chance(0.02)) {
        return hammer(a, p);
    }
    if (vr.chance(0.08)) {
        const auto seed = vr.next(), other = vr.next();
        dropFloats(p);
        const auto rounds = 2 + vr.below(3);
        for (uint64_t k = 0; k < rounds; ++k) {
            batteryD(a, p, vr.chance(0.3) ? seed : other + k);
            forcedGC(p);
        }
        batteryD(a, p, seed);
        SIM_COUNT(c, "probe.density_work_between_collections");
        return;
    }
    if (!vr.chance(0.3)) {
        forcedGC(p);
        return;
    }
    const auto seed = vr.next();
    dropFloats(p);
    const bool vary = vr.chance(0.6);
    battery(a, p, seed, vary ? vr.next() | 1U : 0, nullptr);
    forcedGC(p);
    if (gateMode != 3 && vr.chance(0.5)) {
        churn(p, vr.next(), 1 + vr.below(30));
    }
    battery(a, p, seed, vary ? vr.next() | 1U : 0, nullptr);
    SIM_COUNT(c, "probe.same_work_before_and_after_collection");
}
void opPressure(const Act& a) {
    const int   p = pkgOf(a.a[0]);
    auto&       d = P(p);
    const auto  base = vr.next();
    const auto  n    = 100500 > d.cn.complexTable.getCount() ? 100500 - d.cn.complexTable.getCount() : 10;
    dropFloats(p);
    everPressured[p]  = true;
    const auto   seed = vr.next();
    const double span = vr.chance(0.6) ? 0.2 : 1.; // where on the number line the pressure sits
    battery(a, p, seed, 0, nullptr);
    std::vector<dd::Complex> held; // most of the numbers are in use, so that little can be reclaimed
    const bool               holds = vr.chance(0.35);
    {
        heap::Repo h;
        Rng        g(base);
        for (std::size_t k = 0; k < n; ++k) {
            const auto w = d.cn.lookup(span * g.unit(), span * g.unit());
            if (holds && g.chance(0.75)) {
                dd::ComplexNumbers::incRef(w);
                held.push_back(w);
            }
        }
    }
    SIM_COUNT(c, "fault.number_table_pressure");
    if (holds) {
        SIM_COUNT(c, "fault.number_table_mostly_in_use");
    }
    if (vr.chance(0.8)) {
        opGcUnforced(a, p);
        churn(p, vr.next(), 5 + vr.below(200));
        battery(a, p, seed, 0, nullptr);
    }
    heap::Repo h;
    for (const auto& w: held) {
        dd::ComplexNumbers::decRef(w);
    }
    held.clear();
    held.shrink_to_fit();
}
// many nodes: 370 * 370 on top of 370, all different
template<class E>
std::vector<E> manyNodes(Pkg& d, bool hold) {
    std::vector<E> low, top;
    for (int k = 0; k < 370; ++k) {
        if constexpr (std::is_same_v<E, dd::vEdge>) {
            low.push_back(d.makeDDNode(0, std::array{E::terminal(d.cn.lookup(std::cos(k * 0.004 + 0.01), 0)), E::terminal(d.cn.lookup(std::sin(k * 0.004 + 0.01), 0))}));
        } else {
            low.push_back(d.makeDDNode(0, std::array{E::one, E::zero, E::terminal(d.cn.lookup(0.002 * k + 0.001, 0)), E::zero}));
        }
    }
    for (auto& x: low) {
        for (auto& y: low) {
            E e;
            if constexpr (std::is_same_v<E, dd::vEdge>) {
                e = d.makeDDNode(1, std::array{x, y});
            } else {
                e = d.makeDDNode(1, std::array{x, E::zero, E::zero, y});
            }
            if (hold) {
                d.incRef(e);
                top.push_back(e);
            }
        }
    }
    return top;
}
// a package that once had to hold very many nodes starts over after a reset: what is superfluous is collected as
// early as in a new package
template<class E>
void resetUnderPressureOf(const char* what) {
    heap::Repo h;
    auto       d = std::make_unique<Pkg>(2);
    const bool work = vr.chance(0.8);
    if (work) {
        manyNodes<E>(*d, true);
        d->garbageCollect();
        SIM_COUNT(c, "fault.collection_limit_raised_before_reset");
    }
    d->reset();
    manyNodes<E>(*d, false);
    const bool ran = d->garbageCollect();
    std::size_t left = 0;
    if constexpr (std::is_same_v<E, dd::vEdge>) {
        left = d->vUniqueTable.getNodeCount();
    } else {
        left = d->mUniqueTable.getNodeCount();
    }
    if (!ran || left != 0) {
        c.fail("lifecycle:limit", strf("after a reset of a package that held many %s, 137270 unused ones are not collected (%zu left) although a new package collects them", what, left));
    }
    d.reset();
}
void resetUnderPressure() { vr.chance(0.5) ? resetUnderPressureOf<dd::vEdge>("vector nodes") : resetUnderPressureOf<dd::mEdge>("matrix nodes"); }
void opNodePressure(const Act& a) {
    const int p = pkgOf(a.a[0]);
    if (plan.config != 0 || nq[p] < 2) {
        return;
    }
    if (vr.chance(0.35)) {
        return resetUnderPressure();
    }
    auto& d = P(p);
    dropFloats(p);
    everPressured[p] = true;
    {
        heap::Repo h;
        if (vr.chance(0.5)) {
            std::vector<dd::vEdge> low;
            for (int k = 0; k < 370; ++k) {
                low.push_back(d.makeDDNode(0, std::array{dd::vEdge::terminal(d.cn.lookup(std::cos(k * 0.004 + 0.01), 0)), dd::vEdge::terminal(d.cn.lookup(std::sin(k * 0.004 + 0.01), 0))}));
            }
            for (auto& x: low) {
                for (auto& y: low) {
                    d.makeDDNode(1, std::array{x, y});
                }
            }
        } else {
            std::vector<dd::mEdge> low;
            for (int k = 0; k < 370; ++k) {
                low.push_back(d.makeDDNode(0, std::array{dd::mEdge::one, dd::mEdge::zero, dd::mEdge::terminal(d.cn.lookup(0.002 * k + 0.001, 0)), dd::mEdge::zero}));
            }
            for (auto& x: low) {
                for (auto& y: low) {
                    d.makeDDNode(1, std::array{x, dd::mEdge::zero, dd::mEdge::zero, y});
                }
            }
        }
    }
    SIM_COUNT(c, "fault.node_table_pressure");
    opGcUnforced(a, p);
}
void opClearCT(const Act& a) {
    heap::Repo h;
    P(pkgOf(a.a[0])).clearComputeTables();
    SIM_COUNT(c, "fault.compute_tables_cleared");
}
void dropAllOf(int p) {
    for (std::size_t i = regs.size(); i-- > 0;) {
        if (regs[i].pkg == p) {
            drop(i);
        }
    }
}
void forgetAllOf(int p) {
    regs.erase(std::remove_if(regs.begin(), regs.end(), [&](const Reg& r) { return r.pkg == p; }), regs.end());
    scratchHeld[p].clear();
    stoch[p].clear();
    toff[p].clear();
    noiseStored[p].clear();
}
void opResize(const Act& a) {
    const int p    = pkgOf(a.a[0]);
    const bool down = vr.chance(0.25);
    std::size_t want = nq[p];
    if (down) {
        dropAllOf(p);
        forcedGC(p);
        stoch[p].clear();
        want = static_cast<std::size_t>(std::max(1, maxN));
    } else {
        want = std::min<std::size_t>(nq[p] + 1 + vr.below(4), 40);
        if (vr.chance(0.1)) {
            want = Pkg::MAX_POSSIBLE_QUBITS;
        }
        if (nq[p] > want) {
            return;
        }
    }
    if (a.fault != 0 && vr.chance(0.5)) { // the package stays usable up to the size it reports when growing fails
        bool failed = false;
        heap::arm(a.fault);
        try {
            heap::Repo r;
            P(p).resize(want);
            heap::disarm();
        } catch (const std::bad_alloc&) {
            heap::disarm();
            failed = true;
        } catch (const std::exception& ex) {
            heap::disarm();
            c.fail("exception:resize", std::string("allocation failure surfaced as: ") + ex.what());
        }
        if (failed) {
            SIM_COUNT(c, "fault.alloc_failure_delivered");
            const auto now = P(p).qubits();
            if (now != nq[p] && now != want) {
                c.fail("resize", strf("after a resize from %zu to %zu qubits failed the package reports %zu", nq[p], want, now));
            }
            Act nf   = a;
            nf.fault = 0;
            const auto n  = static_cast<QubitCount>(now);
            const auto z  = call(nf, [&] { return P(p).makeZeroState(n); });
            const auto id = call(nf, [&] { return P(p).makeIdent(n); });
            if (now > 0 && (z.isTerminal() || z.p->v != static_cast<int>(now) - 1 || id.isTerminal() || id.p->v != static_cast<int>(now) - 1)) {
                c.fail("resize", strf("after a resize to %zu qubits failed the package builds diagrams of another height", want));
            }
            call(nf, [&] { return P(p).stochasticNoiseOperationCache.lookup(0, static_cast<Qubit>(now - 1)); });
            afterAllocFault();
        }
    }
    call(a, [&] { P(p).resize(want); });
    nq[p] = want;
    if (P(p).qubits() != want) {
        c.fail("resize", "qubits() does not report the new size");
    }
}
// a short deterministic computation whose complete visible outcome is returned
std::vector<double> transcript(Pkg& d, uint64_t seed, int n) {
    heap::Repo          h;
    std::vector<double> t;
    Rng                 g(seed);
    auto                num = [&](double x) { t.push_back(x); };
    auto                st  = d.makeZeroState(static_cast<QubitCount>(n));
    d.incRef(st);
    for (int k = 0; k < 6; ++k) {
        const auto  q  = static_cast<Qubit>(g.below(static_cast<uint64_t>(n)));
        dd::Controls cs;
        for (int j = 0; j < n; ++j) {
            if (j != q && g.chance(0.3)) {
                cs.insert(dd::Control{static_cast<Qubit>(j), g.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg});
            }
        }
        const auto gate = g.chance(0.5) ? d.makeGateDD(dd::Hmat, static_cast<QubitCount>(n), cs, q) : d.makeGateDD(dd::U3mat(g.unit(), g.unit(), g.unit()), static_cast<QubitCount>(n), cs, q);
        auto       nx = d.multiply(gate, st);
        d.incRef(nx);
        d.decRef(st);
        st = nx;
        num(static_cast<double>(d.vUniqueTable.getNodeCount()));
        num(static_cast<double>(d.mUniqueTable.getNodeCount()));
        if (k == 3) {
            num(d.garbageCollect(true) ? 1 : 0);
        }
        num(static_cast<double>(d.vUniqueTable.getNodeCount()));
        num(static_cast<double>(d.vUniqueTable.getActiveNodeCount()));
        num(static_cast<double>(d.mUniqueTable.getNodeCount()));
        num(static_cast<double>(d.mUniqueTable.getActiveNodeCount()));
        num(static_cast<double>(d.cn.complexTable.getCount()) * 6e-12); // a difference of one (the pinned constant) is tolerated
        num(static_cast<double>(d.cn.cacheCount()));
    }
    for (auto& z: d.getVector(st)) {
        num(z.real());
        num(z.imag());
    }
    auto id = d.makeIdent(static_cast<QubitCount>(n));
    num(d.size(id));
    for (auto& row: d.getMatrix(id)) {
        for (auto& z: row) {
            num(z.real());
        }
    }
    dd::Controls tc;
    if (n > 1) {
        tc.insert(dd::Control{0});
    }
    num(d.toffoliTable.lookup(static_cast<QubitCount>(n), tc, static_cast<Qubit>(n - 1)).p == nullptr ? 0 : 1);
    for (std::size_t q = 0; q < d.qubits(); ++q) {
        num(d.stochasticNoiseOperationCache.lookup(0, static_cast<Qubit>(q)).p == nullptr ? 0 : 1);
    }
    // every operation that has a cache, on operands that depend on the seed
    auto counts = [&] {
        num(static_cast<double>(d.vUniqueTable.getNodeCount()));
        num(static_cast<double>(d.mUniqueTable.getNodeCount()));
        num(static_cast<double>(d.dUniqueTable.getNodeCount()));
        num(static_cast<double>(d.cn.cacheCount()));
    };
    auto cnum = [&](const dd::ComplexValue& z) {
        num(z.r);
        num(z.i);
    };
    auto vec = [&](const dd::vEdge& e) {
        for (auto& z: d.getVector(e)) {
            num(z.real());
            num(z.imag());
        }
        counts();
    };
    auto mat = [&](const dd::mEdge& e) {
        for (auto& row: d.getMatrix(e)) {
            for (auto& z: row) {
                num(z.real());
                num(z.imag());
            }
        }
        counts();
    };
    const auto N  = static_cast<QubitCount>(n);
    const auto mq = [&] { return static_cast<Qubit>(g.below(static_cast<uint64_t>(n))); };
    auto       s2 = d.makeBasisState(N, std::vector<bool>(static_cast<std::size_t>(n), true));
    auto       u1 = d.makeGateDD(dd::U3mat(g.unit(), g.unit(), g.unit()), N, mq());
    auto       u2 = d.makeGateDD(dd::RYmat(3 * g.unit()), N, mq());
    vec(d.add(st, s2));
    cnum(d.innerProduct(st, s2));
    num(d.fidelity(st, d.multiply(u1, st)));
    const auto uu = d.multiply(u1, u2);
    mat(uu);
    mat(d.add(u1, u2));
    mat(d.transpose(uu));
    mat(d.conjugateTranspose(uu));
    cnum(d.trace(uu));
    if (2U * static_cast<unsigned>(n) <= d.qubits() && n <= 2) {
        vec(d.kronecker(st, s2));
        mat(d.kronecker(u1, u2));
    }
    num(d.expectationValue(d.makeGateDD(dd::Zmat, N, mq()), st));
    if (n <= 3) {
        auto r = d.makeZeroDensityOperator(N);
        d.incRef(r);
        for (int k = 0; k < 3; ++k) {
            d.applyOperationToDensity(r, d.makeGateDD(g.chance(0.5) ? dd::Hmat : dd::U3mat(g.unit(), g.unit(), g.unit()), N, mq()), k != 1);
            counts();
        }
        auto cp = r;
        for (auto& row: d.getDensityMatrix(cp)) {
            for (auto& z: row) {
                num(z.real());
                num(z.imag());
            }
        }
        std::vector<Qubit> us{0};
        auto               al = r;
        dd::dEdge::alignDensityEdge(al);
        num(d.densityNoise.lookup(al, us).p == nullptr ? 0 : 1);
        d.densityNoise.insert(al, al, us);
        num(d.densityNoise.lookup(al, us).p == nullptr ? 0 : 1);
        d.decRef(al);
    }
    d.stochasticNoiseOperationCache.insert(0, 0, u1);
    num(d.stochasticNoiseOperationCache.lookup(0, 0).p == u1.p ? 1 : 0);
    d.toffoliTable.insert(N, tc, static_cast<Qubit>(n - 1), uu);
    num(d.toffoliTable.lookup(N, tc, static_cast<Qubit>(n - 1)).p == uu.p ? 1 : 0);
    d.decRef(st);
    d.garbageCollect(true);
    num(static_cast<double>(d.vUniqueTable.getNodeCount()));
    num(static_cast<double>(d.mUniqueTable.getNodeCount()));
    num(static_cast<double>(d.dUniqueTable.getNodeCount()));
    num(static_cast<double>(d.vUniqueTable.getActiveNodeCount()));
    num(static_cast<double>(d.mUniqueTable.getActiveNodeCount()));
    num(static_cast<double>(d.cn.cacheCount()));
    return t;
}
// after reset() the package is indistinguishable from a new one
void opReset(const Act& a) {
    const int p = pkgOf(a.a[0]);
    forgetAllOf(p);
    if (vr.chance(0.4)) { // the same operations before and after, on different operands
        for (uint64_t k = vr.below(3); k > 0; --k) {
            transcript(P(p), vr.next(), std::max(1, std::min(maxN, 4)));
        }
    }
    {
        heap::Repo h;
        P(p).reset();
    }
    scratchBase[p] = 0;
    SIM_COUNT(c, "fault.reset_in_mid_history");
    auto& d = P(p);
    if (d.cn.cacheCount() != 0 || d.vUniqueTable.getNodeCount() != 0 || d.mUniqueTable.getNodeCount() != 0 || d.dUniqueTable.getNodeCount() != 0 || d.cn.complexTable.getCount() > tableBase[p]) {
        c.fail("reset", strf("after reset(): %zu+%zu+%zu nodes, %zu numbers (empty package: %zu), %lld temporaries", d.vUniqueTable.getNodeCount(), d.mUniqueTable.getNodeCount(), d.dUniqueTable.getNodeCount(), d.cn.complexTable.getCount(), tableBase[p], static_cast<long long>(d.cn.cacheCount())));
    }
    if (vr.chance(0.6)) {
        const auto n    = std::max(1, std::min(maxN, 4));
        const auto seed = vr.next();
        const auto t1   = transcript(d, seed, n);
        std::unique_ptr<Pkg> fresh;
        {
            heap::Repo h;
            fresh = std::make_unique<Pkg>(nq[p]);
        }
        const auto t2 = transcript(*fresh, seed, n);
        {
            heap::Repo h;
            fresh.reset();
        }
        bool same = t1.size() == t2.size();
        std::size_t at = 0;
        for (std::size_t i = 0; same && i < t1.size(); ++i) {
            if (!(std::fabs(t1[i] - t2[i]) <= 1e-11)) {
                // the number of table entries may differ by the one pinned constant
                same = false;
                at   = i;
            }
        }
        if (!same) {
            c.fail("reset", strf("after reset() the package behaves differently from a new one (observation %zu: %.12g, new package %.12g)", at, at < t1.size() ? t1[at] : -1., at < t2.size() ? t2[at] : -1.));
        }
        forgetAllOf(p);
    }
}
void opScrTake(const Act& a) {
    const int p = pkgOf(a.a[0]);
    if (scratchHeld[p].size() > 20) {
        return;
    }
    const double x = vr.unit(), y = vr.unit();
    auto         z = call(a, [&] { return P(p).cn.getCached(x, y); });
    scratchHeld[p].push_back(z);
    if (wr(z) != x || wi(z) != y) {
        c.fail("scratch:value", "a fresh temporary does not hold the value it was given");
    }
    // nobody else may be using it
    for (std::size_t i = 0; i + 1 < scratchHeld[p].size(); ++i) {
        auto& o = scratchHeld[p][i];
        if (o.r == z.r || o.i == z.i || o.r == z.i || o.i == z.r) {
            c.fail("scratch:alias", "a temporary number was handed out twice");
        }
    }
    scratchVal[p][z.r] = {x, y};
}
void checkScratchValues() {
    for (int p = 0; p < npkg; ++p) {
        for (auto& z: scratchHeld[p]) {
            auto& v = scratchVal[p][z.r];
            if (wr(z) != v.r || wi(z) != v.i) {
                c.fail("scratch:value", strf("a temporary number held by the caller was overwritten by %s", opName(curOp)));
            }
        }
    }
}
void opScrGive(const Act& a) {
    const int p = pkgOf(a.a[0]);
    if (scratchHeld[p].empty()) {
        return;
    }
    const auto i = a.a[1] % scratchHeld[p].size();
    heap::Repo h;
    P(p).cn.returnToCache(scratchHeld[p][i]);
    scratchHeld[p].erase(scratchHeld[p].begin() + static_cast<std::ptrdiff_t>(i));
}
// the next few numbers make the number table grow
void opFullNums(const Act& a) {
    const int p  = pkgOf(a.a[0]);
    auto&     ct = P(p).cn.complexTable;
    if (ct.getAllocations() < ct.getCount() || ct.getAllocations() - ct.getCount() > 9000) {
        return;
    }
    everPressured[p] = true;
    const auto have  = ct.getAllocations();
    const auto seed  = vr.next();
    {
        heap::Repo h;
        Rng        g(vr.next());
        const auto spare = vr.below(25);
        while (ct.getAllocations() - ct.getCount() > spare && ct.getAllocations() == have) {
            P(p).cn.lookup(g.unit(), g.unit());
        }
    }
    if (a.fault != 0 && vr.chance(0.7)) { // the very allocation by which the table grows fails
        {
            heap::Repo h;
            Rng        g(vr.next());
            while (ct.getAllocations() > ct.getCount() && ct.getAllocations() == have) {
                P(p).cn.lookup(g.unit(), 0.);
            }
        }
        auditNow = true;
        for (int k = 0; k < 2; ++k) {
            Act b   = a;
            b.fault = 1 + static_cast<uint32_t>(vr.below(2));
            const auto x = C{vr.unit(), vr.unit()};
            const auto w = call(b, [&] { return P(p).cn.lookup(x.r, x.i); });
            expectC("number stored while the table grows", x, cv(w));
        }
        auditNow = false;
        auditTables(p, "after the table of numbers could not grow at first");
    }
    for (int k = 0; k < 4; ++k) {
        battery(a, p, seed + static_cast<uint64_t>(k), seed | 1U, nullptr);
    }
    if (ct.getAllocations() > have) {
        SIM_COUNT(c, "probe.number_table_grew");
    }
    if (vr.chance(0.5)) {
        forcedGC(p);
    }
}
// so many temporaries are held that operations have to get theirs from beyond the first block
void opManyTemps(const Act& a) {
    const int   p     = pkgOf(a.a[0]);
    auto&       cache = P(p).cn.complexCache;
    const auto  have  = cache.getAllocations();
    const auto  used  = static_cast<std::size_t>(P(p).cn.cacheCount());
    if (used > have || have - used > 20000) {
        return;
    }
    const auto seed  = vr.next();
    const auto spare = vr.below(14);
    const auto take  = (have - used) / 2 > spare ? (have - used) / 2 - spare : 0;
    std::vector<dd::Complex> held;
    {
        heap::Repo h;
        held.reserve(take);
        for (std::size_t k = 0; k < take; ++k) {
            held.push_back(P(p).cn.getCached(static_cast<double>(k), -static_cast<double>(k)));
        }
    }
    for (int k = 0; k < 3; ++k) {
        battery(a, p, seed, k == 2 ? seed | 1U : 0, nullptr);
        if (k == 0 && vr.chance(0.5)) {
            heap::Repo h;
            const C    z{0.25 + vr.unit(), vr.unit()};
            held.push_back(P(p).cn.getCached(z.r, z.i));
            P(p).cn.returnToCache(held.back());
            held.pop_back();
        }
    }
    for (std::size_t k = 0; k < held.size(); ++k) {
        if (wr(held[k]) != static_cast<double>(k) || wi(held[k]) != -static_cast<double>(k)) {
            c.fail("scratch:value", strf("temporary number %zu of %zu held by the caller was overwritten", k, held.size()));
        }
    }
    if (cache.getAllocations() > have) {
        SIM_COUNT(c, "probe.temporaries_beyond_the_first_block");
    }
    heap::Repo h;
    while (!held.empty()) {
        const auto i = vr.below(held.size());
        std::swap(held[i], held.back());
        P(p).cn.returnToCache(held.back());
        held.pop_back();
    }
    held.shrink_to_fit();
}
// reference counts at the end of their range: what is referenced that often is never collected, and counting
// neither wraps around nor complains
template<class Node>
void saturateEdge(Pkg& d, const dd::Edge<Node>& e, uint64_t seed) {
    std::unordered_set<const Node*>  nodes;
    std::unordered_set<const Entry*> nums;
    collect(e, nodes, nums);
    for (auto* n: nodes) {
        const_cast<Node*>(n)->ref = std::numeric_limits<decltype(n->ref)>::max() - 1;
    }
    for (auto* n: nums) {
        if (n != &dd::ComplexTable<>::one && n != &dd::ComplexTable<>::zero && n != &dd::ComplexTable<>::sqrt2_2) {
            const_cast<Entry*>(n)->refCount = std::numeric_limits<decltype(n->refCount)>::max() - 1;
        }
    }
    Rng g(seed);
    std::vector<dd::Edge<Node>> edges{e};
    for (auto* n: nodes) {
        for (auto& x: n->e) {
            edges.push_back(x);
        }
    }
    for (auto& x: edges) {
        const auto up = 2 + g.below(3), down = 1 + g.below(6);
        for (std::size_t k = 0; k < up; ++k) {
            d.incRef(x);
        }
        for (std::size_t k = 0; k < down; ++k) {
            d.decRef(x);
        }
    }
    d.garbageCollect(true);
}
void opSaturate(const Act& a) {
    if (plan.config == 0) {
        return; // a private package of the default size would be expensive
    }
    (void)a;
    const int             n    = 1 + static_cast<int>(vr.below(3));
    const auto            seed = vr.next();
    bool                  ex   = true;
    const auto            va   = randVec(n, ex, true);
    Arr                   ma(1ULL << (2 * n));
    for (auto& z: ma) {
        z = amp(ex);
    }
    auto* const old = std::clog.rdbuf(nullptr);
    struct Back {
        std::streambuf* b;
        ~Back() { std::clog.clear(); std::clog.rdbuf(b); }
    } back{old};
    std::unique_ptr<Pkg> d;
    try {
        const auto cvv = toC(va);
        const auto cmm = toCM(ma, 1ULL << n);
        {
            heap::Repo h;
            d = std::make_unique<Pkg>(static_cast<std::size_t>(n));
        }
        heap::Repo h;
        const auto e = d->makeStateFromVector(cvv);
        if (e.isTerminal()) {
            d.reset();
            return;
        }
        d->incRef(e);
        saturateEdge(*d, e, seed);
        expect("state with saturated reference counts", va, readV(e, n));
        const auto m = d->makeDDFromMatrix(cmm);
        if (!m.isTerminal()) {
            d->incRef(m);
            saturateEdge(*d, m, seed);
            churn2(*d, seed);
            d->garbageCollect(true);
            expect("operator with saturated reference counts", ma, readM(m, n), 4);
        }
        expect("state with saturated reference counts", va, readV(e, n));
        const auto e2 = d->makeStateFromVector(cvv);
        if (e2.p != e.p) {
            c.fail("saturated", "a state whose reference counts are saturated was forgotten by its package");
        }
        d.reset();
    } catch (const Violation&) {
        throw;
    } catch (const std::exception& ex2) {
        c.fail("saturated", std::string("counting references at the end of the range threw: ") + ex2.what());
    }
    SIM_COUNT(c, "fault.reference_counts_saturated");
}
void churn2(Pkg& d, uint64_t seed) {
    Rng g(seed);
    for (int k = 0; k < 40; ++k) {
        d.cn.lookup(g.unit(), g.unit());
    }
}
void opUnderflow(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.held == 0 && ((r.kind == 'V' && !r.v.isTerminal() && r.v.p->ref == 0) || (r.kind == 'M' && !r.m.isTerminal() && r.m.p->ref == 0)); });
    if (x == nullptr) {
        return;
    }
    bool thrown = false;
    try {
        heap::Repo h;
        if (x->kind == 'V') {
            P(x->pkg).decRef(dd::vEdge{x->v.p, dd::Complex::one});
        } else {
            P(x->pkg).decRef(dd::mEdge{x->m.p, dd::Complex::one});
        }
    } catch (const std::runtime_error&) {
        thrown = true;
    }
    SIM_COUNT(c, "fault.release_without_reference");
    if (!thrown && (oracles & O_GC) != 0) {
        c.fail("underflow", "releasing a diagram nobody references was accepted silently");
    }
}
void opNewPkg(const Act& a) {
    const int p = pkgOf(a.a[0]);
    if (vr.chance(0.5)) {
        dropAllOf(p); // otherwise the package is destroyed with everything still referenced
    }
    forgetAllOf(p);
    {
        heap::Repo h;
        pk[p].reset();
    }
    SIM_COUNT(c, "fault.package_destroyed_in_mid_history");
    const auto n    = static_cast<std::size_t>(maxN) + vr.below(3);
    const auto live = heap::liveBytes(heap::thread());
    if (a.fault != 0) {
        heap::arm(a.fault);
        bool failed = false;
        try {
            heap::Repo h;
            auto       tmp = std::make_unique<Pkg>(n);
            tmp.reset();
        } catch (const std::bad_alloc&) {
            failed = true;
        }
        heap::disarm();
        if (failed) {
            SIM_COUNT(c, "fault.alloc_failure_delivered");
        }
        if (heap::liveBytes(heap::thread()) != live) {
            c.fail("leak", "a failed or finished package construction leaked memory");
        }
    }
    makePkg(p, n);
}
// every slot ever allocated is either in use or can be handed out again: taking exactly as many as are free
// must not make the store grow
template<class Take, class Give, class Alloc>
void drain(const char* what, std::size_t used, Alloc&& allocations, Take&& take, Give&& give) {
    const auto have = allocations();
    if (used > have) {
        c.fail("capacity", strf("%zu %s in use although only %zu were ever allocated", used, what, have));
    }
    if (have - used > 40000) {
        return;
    }
    {
        heap::Repo h;
        for (std::size_t k = 0; k < have - used; ++k) {
            take();
        }
    }
    const auto now = allocations();
    {
        heap::Repo h;
        give();
    }
    if (now != have) {
        c.fail("capacity", strf("%zu %s are in use and %zu are allocated, but the store grew before the rest was handed out: slots were lost", used, what, have));
    }
}
void opCapacity(const Act& a) {
    const int p = pkgOf(a.a[0]);
    auto&     d = P(p);
    if (vr.chance(0.7)) {
        forcedGC(p);
    }
    auto nodes = [&](const char* what, auto& table) {
        std::vector<std::remove_reference_t<decltype(table.getNode())>> got;
        drain(
                what, table.getNodeCount(), [&] { return table.getAllocations(); }, [&] { got.push_back(table.getNode()); }, [&] { for (auto x: got) { table.returnNode(x); } got.clear(); got.shrink_to_fit(); });
    };
    nodes("vector nodes", d.vUniqueTable);
    nodes("matrix nodes", d.mUniqueTable);
    nodes("density nodes", d.dUniqueTable);
    {
        std::vector<Entry*> got;
        drain(
                "numbers", d.cn.complexTable.getCount(), [&] { return d.cn.complexTable.getAllocations(); }, [&] { got.push_back(d.cn.complexTable.getEntry()); }, [&] { for (auto* x: got) { d.cn.complexTable.returnEntry(x); } got.clear(); got.shrink_to_fit(); });
    }
    SIM_COUNT(c, "probe.all_free_slots_handed_out");
}
// the same balanced workload, again and again: once warmed up, nothing may grow
void workload(Pkg& d, uint64_t seed, int n) {
    Rng        g(seed);
    const auto N = static_cast<QubitCount>(n);
    std::vector<dd::vEdge> vs;
    std::vector<dd::mEdge> ms;
    auto rq = [&] { return static_cast<Qubit>(g.below(static_cast<uint64_t>(n))); };
    vs.push_back(d.makeZeroState(N));
    vs.push_back(d.makeBasisState(N, std::vector<dd::BasisStates>(static_cast<std::size_t>(n), dd::BasisStates::plus)));
    ms.push_back(d.makeIdent(N));
    ms.push_back(d.makeGateDD(dd::Hmat, N, rq()));
    ms.push_back(d.makeGateDD(dd::Zmat, N, rq()));
    auto rv = [&]() -> dd::vEdge { return vs[g.below(vs.size())]; };
    auto rm = [&]() -> dd::mEdge { return ms[g.below(ms.size())]; };
    for (int k = 0; k < 14; ++k) {
        switch (g.below(10)) {
            case 0: ms.push_back(d.makeGateDD(dd::U3mat(g.unit(), g.unit(), g.unit()), N, rq())); break;
            case 1:
            case 2: vs.push_back(d.multiply(rm(), rv())); break;
            case 3: ms.push_back(d.multiply(rm(), rm())); break;
            case 4: vs.push_back(d.add(rv(), rv())); break;
            case 5: { // cancellation: x + (-1) x
                auto x = rv();
                auto m = d.makeGateDD(dd::GateMatrix{dd::ComplexValue{-1, 0}, {0, 0}, {0, 0}, {-1, 0}}, N, 0);
                auto y = d.multiply(m, x);
                vs.push_back(d.add(x, y));
                break;
            }
            case 6: { // a projection that kills part of the state
                auto m = d.makeGateDD(dd::GateMatrix{dd::ComplexValue{0, 0}, {0, 0}, {0, 0}, {1, 0}}, N, rq());
                vs.push_back(d.multiply(m, vs[0]));
                break;
            }
            case 7: ms.push_back(d.conjugateTranspose(rm())); break;
            case 8: {
                dd::CVec v(1ULL << n, {0., 0.});
                if (g.chance(0.7)) {
                    v[g.below(v.size())] = {1., 0.};
                }
                vs.push_back(d.makeStateFromVector(v));
                break;
            }
            default: {
                auto x = rv();
                d.incRef(x);
                auto y = d.multiply(rm(), x);
                d.incRef(y);
                d.decRef(x);
                d.innerProduct(x, y);
                d.decRef(y);
            }
        }
    }
    for (auto& x: vs) {
        d.incRef(x);
    }
    for (auto& x: ms) {
        d.incRef(x);
    }
    for (auto& x: vs) {
        d.decRef(x);
    }
    for (auto& x: ms) {
        d.decRef(x);
    }
}
void opCycle(const Act& a) {
    const int  p    = pkgOf(a.a[0]);
    auto&      d    = P(p);
    const auto seed = vr.next();
    const int  n    = std::max(1, std::min(maxN, 4));
    forcedGC(p);
    const int   rounds = plan.config == 0 ? 4 : 6 + static_cast<int>(vr.below(30));
    std::size_t mark   = 0;
    for (int k = 0; k < rounds; ++k) {
        {
            heap::Repo h;
            workload(d, seed, n);
            d.garbageCollect(true);
        }
        if (k == 1) {
            mark = population(p);
        }
        if (k > 1 && (oracles & O_GC) != 0 && population(p) > mark) {
            c.fail("growth", strf("repeating the same balanced work and collecting grows the number of live objects: %zu after 2 rounds, %zu after %d", mark, population(p), k + 1));
        }
    }
    checkReclaimed(p);
}
