// ---- constructors of states and operators (included into Universe)
static constexpr int VCAP = 8; // largest vectors (qubits)
static constexpr int MCAP = 5; // largest matrices
// where the levels of a new diagram start: mostly 0
int startFor(int p, int n) {
    const int room = static_cast<int>(nq[p]) - n;
    if (room <= 0 || !vr.chance(0.15)) {
        return 0;
    }
    return static_cast<int>(vr.below(static_cast<uint64_t>(std::min(room, 3)) + 1));
}
void opZero(const Act& a) {
    const int p = pkgOf(a.a[0]), n = qubitsFor(a.a[1], p, VCAP), lo = startFor(p, n);
    Reg       r = mk('V', p, n, lo, true);
    r.unit      = true;
    r.v         = call(a, [&] { return P(p).makeZeroState(static_cast<QubitCount>(n), static_cast<std::size_t>(lo)); });
    Arr want(1ULL << n);
    want[0] = {1, 0};
    produce("makeZeroState", r, want, a.a[4]);
}
void opBasisBits(const Act& a) {
    const int         p = pkgOf(a.a[0]), n = qubitsFor(a.a[1], p, VCAP), lo = startFor(p, n);
    std::vector<bool> st(static_cast<std::size_t>(n + lo));
    std::size_t       idx = 0;
    for (int q = 0; q < n + lo; ++q) {
        st[static_cast<std::size_t>(q)] = vr.chance(0.5);
        if (q >= lo && st[static_cast<std::size_t>(q)]) {
            idx |= 1ULL << (q - lo);
        }
    }
    Reg r  = mk('V', p, n, lo, true);
    r.unit = true;
    r.v    = call(a, [&] { return P(p).makeBasisState(static_cast<QubitCount>(n), st, static_cast<std::size_t>(lo)); });
    Arr want(1ULL << n);
    want[idx] = {1, 0};
    produce("makeBasisState(bits)", r, want, a.a[4]);
}
void opBasisStates(const Act& a) {
    const int                    p = pkgOf(a.a[0]), n = qubitsFor(a.a[1], p, VCAP), lo = startFor(p, n);
    std::vector<dd::BasisStates> st(static_cast<std::size_t>(n + lo));
    Arr                          want{{1, 0}};
    const double                 s = dd::SQRT2_2;
    for (int q = 0; q < n + lo; ++q) {
        const auto k                    = vr.below(6);
        static const dd::BasisStates bs[] = {dd::BasisStates::zero, dd::BasisStates::one, dd::BasisStates::plus, dd::BasisStates::minus, dd::BasisStates::left, dd::BasisStates::right};
        const Arr sv[]                    = {{{1, 0}, {0, 0}}, {{0, 0}, {1, 0}}, {{s, 0}, {s, 0}}, {{s, 0}, {-s, 0}}, {{s, 0}, {0, -s}}, {{s, 0}, {0, s}}};
        st[static_cast<std::size_t>(q)] = bs[k];
        if (q >= lo) {
            want = kronV(sv[k], want);
        }
    }
    Reg r  = mk('V', p, n, lo, true);
    r.unit = true;
    r.v    = call(a, [&] { return P(p).makeBasisState(static_cast<QubitCount>(n), st, static_cast<std::size_t>(lo)); });
    produce("makeBasisState(states)", r, want, a.a[4]);
}
void opFromVec(const Act& a) {
    const int p     = pkgOf(a.a[0]), n = qubitsFor(a.a[1], p, VCAP);
    bool      exact = true;
    const bool normalise = gateMode == 3 || (!exactWorld && vr.chance(0.6));
    const Arr want  = randVec(n, exact, normalise);
    const auto cvv  = toC(want);
    Reg       r     = mk('V', p, n, 0, exact && (!normalise || gateMode == 3));
    r.unit          = normalise;
    r.v             = call(a, [&] { return P(p).makeStateFromVector(cvv); });
    produce("makeStateFromVector", r, want, a.a[4]);
}
void opFromMat(const Act& a) {
    const int   p = pkgOf(a.a[0]), n = qubitsFor(a.a[1], p, maxN > 5 && Config::UT_MAT_NBUCKET >= 64 && vr.chance(0.5) ? MCAP : 3);
    bool        exact = true;
    const auto  N     = 1ULL << n;
    Arr         want(N * N);
    if (vr.chance(0.3)) { // sums of permutation-like patterns
        for (std::size_t i = 0; i < N; ++i) {
            want[i * N + vr.below(N)] = amp(exact);
        }
    } else if (vr.chance(0.3)) { // block structure
        Arr b(4);
        want = Arr{{1, 0}};
        std::size_t M = 1;
        for (int q = 0; q < n; ++q) {
            for (auto& x: b) {
                x = amp(exact);
            }
            want = kronM(b, 2, want, M);
            M *= 2;
        }
        exact = exact && exactWorld;
    } else {
        for (auto& x: want) {
            x = amp(exact);
        }
    }
    const auto m = toCM(want, N);
    Reg        r = mk('M', p, n, 0, exact);
    r.m          = call(a, [&] { return P(p).makeDDFromMatrix(m); });
    produce("makeDDFromMatrix", r, want, a.a[4]);
}
static std::vector<Ctl> shift(std::vector<Ctl> c) { return c; }
void opGate(const Act& a) {
    const int        p = pkgOf(a.a[0]), n = qubitsFor(a.a[1], p, MCAP), lo = startFor(p, n);
    bool             exact = true;
    const auto       g     = oneQubit(exact, nullptr, vr.chance(0.85));
    const int        t     = lo + static_cast<int>(vr.below(static_cast<uint64_t>(n)));
    std::vector<Ctl> ctl;
    const auto       cs = controls(n, lo, {t}, ctl);
    Reg              r  = mk('M', p, n, lo, exact);
    const auto       sn = static_cast<QubitCount>(n);
    const auto       st = static_cast<Qubit>(t);
    const auto       sl = static_cast<std::size_t>(lo);
    const auto       form = vr.below(3);
    r.m = call(a, [&] {
        if (cs.empty() && form == 0) {
            return P(p).makeGateDD(g, sn, st, sl);
        }
        if (cs.size() == 1 && form == 1) {
            return P(p).makeGateDD(g, sn, *cs.begin(), st, sl);
        }
        return P(p).makeGateDD(g, sn, cs, st, sl);
    });
    produce("makeGateDD", r, gateA(n, toArr(g), {t - lo}, ctl), a.a[4]);
}
dd::TwoQubitGateMatrix twoQubit(bool& exact) {
    exact = true;
    switch (vr.below(exactWorld ? (gateMode == 3 ? 3 : 5) : 13)) {
        case 0: return dd::SWAPmat;
        case 1: return dd::iSWAPmat;
        case 2: return dd::iSWAPinvmat;
        case 3: return dd::ECRmat;
        case 4: return dd::DCXmat;
        default: break;
    }
    exact = false;
    switch (vr.below(8)) {
        case 0: return dd::RXXmat(angle());
        case 1: return dd::RYYmat(angle());
        case 2: return dd::RZZmat(angle());
        case 3: return dd::RZXmat(angle());
        case 4: return dd::XXMinusYYmat(angle(), angle());
        case 5: return dd::XXPlusYYmat(angle(), angle());
        default: {
            dd::TwoQubitGateMatrix g{};
            for (auto& row: g) {
                for (auto& x: row) {
                    if (vr.chance(0.7)) {
                        x = {vr.unit() * 2 - 1, vr.unit() * 2 - 1};
                    }
                }
            }
            return g;
        }
    }
}
void opGate2(const Act& a) {
    const int p = pkgOf(a.a[0]), n = std::max(2, qubitsFor(a.a[1], p, MCAP));
    if (static_cast<std::size_t>(n) > nq[p]) {
        return;
    }
    const int  lo    = startFor(p, n);
    bool       exact = true;
    const auto g     = twoQubit(exact);
    const int  t0    = lo + static_cast<int>(vr.below(static_cast<uint64_t>(n)));
    int        t1    = lo + static_cast<int>(vr.below(static_cast<uint64_t>(n - 1)));
    if (t1 >= t0) {
        ++t1;
    }
    Reg r = mk('M', p, n, lo, exact);
    r.m   = call(a, [&] { return P(p).makeTwoQubitGateDD(g, static_cast<QubitCount>(n), static_cast<Qubit>(t0), static_cast<Qubit>(t1), static_cast<std::size_t>(lo)); });
    produce("makeTwoQubitGateDD", r, gateA(n, toArr(g), {t0 - lo, t1 - lo}, {}), a.a[4]);
}
void opGateC(const Act& a) { // the named two-qubit gates, with and without controls
    const int p = pkgOf(a.a[0]), n = std::max(2, qubitsFor(a.a[1], p, 4));
    if (static_cast<std::size_t>(n) > nq[p]) {
        return;
    }
    const int lo = startFor(p, n);
    const int t0 = lo + static_cast<int>(vr.below(static_cast<uint64_t>(n)));
    int       t1 = lo + static_cast<int>(vr.below(static_cast<uint64_t>(n - 1)));
    if (t1 >= t0) {
        ++t1;
    }
    std::vector<Ctl> ctl;
    auto             cs    = controls(n, lo, {t0, t1}, ctl, 0.5);
    const bool       plain = vr.chance(0.3);
    const auto       k     = vr.below(exactWorld ? 7 : 13);
    const double     th = angle(), be = angle();
    const auto       N = static_cast<QubitCount>(n);
    const auto       q0 = static_cast<Qubit>(t0), q1 = static_cast<Qubit>(t1);
    const auto       s = static_cast<std::size_t>(lo);
    Arr              peres; // index bits: q0 most significant
    if (plain && k != 5 && k != 6) {
        cs.clear();
        ctl.clear();
    }
    Arr        m;
    auto       set = [&](const dd::TwoQubitGateMatrix& g) { m = toArr(g); };
    auto       f   = [&]() -> dd::mEdge {
        auto& d = P(p);
        switch (k) {
            case 0: set(dd::SWAPmat); return plain ? d.makeSWAPDD(N, q0, q1, s) : d.makeSWAPDD(N, cs, q0, q1, s);
            case 1: set(dd::iSWAPmat); return plain ? d.makeiSWAPDD(N, q0, q1, s) : d.makeiSWAPDD(N, cs, q0, q1, s);
            case 2: set(dd::iSWAPinvmat); return plain ? d.makeiSWAPinvDD(N, q0, q1, s) : d.makeiSWAPinvDD(N, cs, q0, q1, s);
            case 3: set(dd::DCXmat); return plain ? d.makeDCXDD(N, q0, q1, s) : d.makeDCXDD(N, cs, q0, q1, s);
            case 4: set(dd::ECRmat); return plain ? d.makeECRDD(N, q0, q1, s) : d.makeECRDD(N, cs, q0, q1, s);
            case 5: return d.makePeresDD(N, cs, q0, q1, s);
            case 6: return d.makePeresdagDD(N, cs, q0, q1, s);
            case 7: set(dd::RXXmat(th)); return plain ? d.makeRXXDD(N, q0, q1, th, s) : d.makeRXXDD(N, cs, q0, q1, th, s);
            case 8: set(dd::RYYmat(th)); return plain ? d.makeRYYDD(N, q0, q1, th, s) : d.makeRYYDD(N, cs, q0, q1, th, s);
            case 9: set(dd::RZZmat(th)); return plain ? d.makeRZZDD(N, q0, q1, th, s) : d.makeRZZDD(N, cs, q0, q1, th, s);
            case 10: set(dd::RZXmat(th)); return plain ? d.makeRZXDD(N, q0, q1, th, s) : d.makeRZXDD(N, cs, q0, q1, th, s);
            case 11: set(dd::XXMinusYYmat(th, be)); return plain ? d.makeXXMinusYYDD(N, q0, q1, th, be, s) : d.makeXXMinusYYDD(N, cs, q0, q1, th, be, s);
            default: set(dd::XXPlusYYmat(th, be)); return plain ? d.makeXXPlusYYDD(N, q0, q1, th, be, s) : d.makeXXPlusYYDD(N, cs, q0, q1, th, be, s);
        }
    };
    Reg r = mk('M', p, n, lo, false);
    r.m   = call(a, f);
    if (k == 5 || k == 6) {
        // Peres: Toffoli-like C(target1)X(target0) followed by X(target1); the dagger reversed
        auto           c2 = ctl;
        const Arr      X{{0, 0}, {1, 0}, {1, 0}, {0, 0}};
        c2.push_back({t1 - lo, true});
        const Arr A = gateA(n, X, {t0 - lo}, c2), B = gateA(n, X, {t1 - lo}, ctl);
        produce("makePeresDD", r, k == 5 ? mulMM(B, A, 1ULL << n) : mulMM(A, B, 1ULL << n), a.a[4]);
        return;
    }
    produce(plain ? "two-qubit gate" : "controlled two-qubit gate", r, gateA(n, m, {t0 - lo, t1 - lo}, ctl), a.a[4]);
}
void opIdent(const Act& a) {
    const int p = pkgOf(a.a[0]);
    int       n = qubitsFor(a.a[1], p, MCAP), lo = 0;
    Reg       r;
    if (vr.chance(0.5)) {
        lo = startFor(p, n);
        const bool big = vr.chance(0.3);
        if (big) {
            lo = static_cast<int>(vr.below(nq[p] - static_cast<std::size_t>(n) + 1));
        }
        r   = mk('M', p, n, lo, true);
        r.m = call(a, [&] { return P(p).makeIdent(static_cast<Qubit>(lo), static_cast<Qubit>(lo + n - 1)); });
    } else {
        r   = mk('M', p, n, lo, true);
        r.m = call(a, [&] { return P(p).makeIdent(static_cast<QubitCount>(n)); });
    }
    produce("makeIdent", r, identA(1ULL << n), a.a[4]);
}
// requests beyond the capacity (or with impossible shapes) are rejected and change nothing
template<class F>
void rejected(const char* what, F&& f) {
    bool thrown = false;
    try {
        heap::Repo h;
        f();
    } catch (const std::runtime_error&) {
        thrown = true;
    } catch (const std::invalid_argument&) {
        thrown = true;
    } catch (const std::exception& ex) {
        c.fail(std::string("reject:") + what, std::string(what) + " failed with the wrong exception: " + ex.what());
    }
    SIM_COUNT(c, "fault.impossible_request");
    if (!thrown) {
        c.fail(std::string("reject:") + what, std::string(what) + " was accepted");
    }
}
void opOverCap2(const Act& a) {
    const int  p    = pkgOf(a.a[0]);
    auto&      d    = P(p);
    const auto cap  = nq[p];
    const auto full = static_cast<QubitCount>(cap);
    const auto more = static_cast<QubitCount>(cap + 1 + vr.below(3));
    const auto some = 1 + static_cast<int>(vr.below(cap));                                 // 1..cap
    const auto st   = static_cast<std::size_t>(vr.below(cap - static_cast<std::size_t>(some) + 1)); // start
    const auto beyond = static_cast<Qubit>(static_cast<int>(st) + some + static_cast<int>(vr.below(3)));
    const auto in     = static_cast<Qubit>(static_cast<int>(st) + static_cast<int>(vr.below(static_cast<uint64_t>(some))));
    const auto N      = static_cast<QubitCount>(some);
    const auto rndVec = [&](std::size_t len) {
        dd::CVec v(len);
        for (auto& z: v) {
            z = {vr.unit(), vr.chance(0.3) ? 0. : vr.unit()};
        }
        return v;
    };
    switch (vr.below(17)) {
        case 0:
            if (cap <= 7) {
                const auto v = rndVec(1ULL << (cap + 1 + vr.below(2)));
                rejected("makeStateFromVector beyond the capacity", [&] { d.makeStateFromVector(v); });
            }
            break;
        case 1:
            if (cap <= 4) {
                const auto len = 1ULL << (cap + 1);
                dd::CMat   m(len);
                for (auto& r: m) {
                    r = rndVec(len);
                }
                rejected("makeDDFromMatrix beyond the capacity", [&] { d.makeDDFromMatrix(m); });
            }
            break;
        case 2: {
            static const std::size_t odd[] = {3, 5, 6, 7, 9, 12};
            const auto               v     = rndVec(odd[vr.below(6)]);
            rejected("makeStateFromVector of a length that is no power of two", [&] { d.makeStateFromVector(v); });
            break;
        }
        case 3: { // not square, or of an impossible size
            const bool  sq   = vr.chance(0.4);
            const auto  rows = sq ? static_cast<std::size_t>(vr.chance(0.5) ? 3 : 6) : static_cast<std::size_t>(1) << vr.below(3);
            const auto  cols = sq ? rows : (vr.chance(0.5) ? rows * 2 : rows + 1);
            dd::CMat    m(rows);
            for (auto& r: m) {
                r = rndVec(cols);
            }
            if (rows > 1 && vr.chance(0.4)) { // only one row is not as long as the matrix is high
                for (auto& r: m) {
                    r = rndVec(rows);
                }
                m[vr.below(rows)] = rndVec(vr.chance(0.5) ? rows + 1 : rows - 1);
            }
            rejected("makeDDFromMatrix of an impossible shape", [&] { d.makeDDFromMatrix(m); });
            break;
        }
        case 4: rejected("makeIdent beyond the capacity", [&] { d.makeIdent(more); }); break;
        case 5:
            if (cap > 120) {
                break;
            }
            rejected("makeIdent beyond the last qubit", [&] { d.makeIdent(static_cast<Qubit>(vr.below(cap)), static_cast<Qubit>(cap + vr.below(2))); });
            break;
        case 6: rejected("makeIdent of more than 128 qubits", [&] { d.makeIdent(static_cast<QubitCount>(129 + vr.below(127))); }); break;
        case 7: rejected("makeZeroDensityOperator beyond the capacity", [&] { d.makeZeroDensityOperator(more); }); break;
        case 8: {
            const std::vector<bool> few(st + static_cast<std::size_t>(some) - 1 - (vr.chance(0.5) ? 0 : std::min<std::size_t>(st, static_cast<std::size_t>(some) - 1)), true);
            rejected("makeBasisState of too few bits", [&] { d.makeBasisState(N, few, st); });
            break;
        }
        case 9: {
            const std::vector<dd::BasisStates> few(st + static_cast<std::size_t>(some) - 1, dd::BasisStates::minus);
            rejected("makeBasisState of too few states", [&] { d.makeBasisState(N, few, st); });
            break;
        }
        case 10: rejected("makeGateDD with a target beyond the qubits", [&] { d.makeGateDD(dd::Xmat, N, beyond, st); }); break;
        case 11: rejected("makeGateDD with a control beyond the qubits", [&] { d.makeGateDD(dd::Xmat, N, dd::Control{beyond, vr.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg}, in, st); }); break;
        case 12:
            if (st > 0) {
                rejected("makeGateDD with a target before the start", [&] { d.makeGateDD(dd::Hmat, N, static_cast<Qubit>(vr.below(st)), st); });
            }
            break;
        case 13: rejected("makeTwoQubitGateDD with a target beyond the qubits", [&] { vr.chance(0.5) ? d.makeTwoQubitGateDD(dd::iSWAPmat, N, beyond, in, st) : d.makeTwoQubitGateDD(dd::iSWAPmat, N, in, beyond, st); }); break;
        case 14: rejected("makeTwoQubitGateDD with equal targets", [&] { d.makeTwoQubitGateDD(dd::SWAPmat, N, in, in, st); }); break;
        case 15: {
            dd::Controls cs;
            for (int q = static_cast<int>(st); q < static_cast<int>(st) + some; ++q) {
                if (q == in || vr.chance(0.3)) {
                    cs.insert(dd::Control{static_cast<Qubit>(q), vr.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg});
                }
            }
            rejected("makeGateDD controlled by its own target", [&] { d.makeGateDD(dd::Xmat, N, cs, in, st); });
            break;
        }
        default: rejected("createInitialMatrix beyond the capacity", [&] { d.createInitialMatrix(more, std::vector<bool>(more, false)); }); break;
    }
    (void)full;
}
void opOverCap(const Act& a) {
    if (vr.chance(0.6)) {
        opOverCap2(a);
        return;
    }
    const int  p    = pkgOf(a.a[0]);
    auto&      d    = P(p);
    const auto n    = static_cast<QubitCount>(nq[p] + 1 + vr.below(3));
    const auto k    = vr.below(13);
    const auto full = static_cast<QubitCount>(nq[p]);
    bool       thrown = false;
    const char* what = "";
    try {
        heap::Repo h;
        switch (k) {
            case 0: what = "makeZeroState"; d.makeZeroState(n); break;
            case 1: what = "makeZeroState(start)"; d.makeZeroState(static_cast<QubitCount>(nq[p]), 1); break;
            case 2: what = "makeBasisState(bits)"; d.makeBasisState(n, std::vector<bool>(n, true)); break;
            case 3: what = "makeBasisState(states)"; d.makeBasisState(n, std::vector<dd::BasisStates>(n, dd::BasisStates::plus)); break;
            case 4: what = "makeBasisState(too few states)"; d.makeBasisState(static_cast<QubitCount>(nq[p]), std::vector<dd::BasisStates>(nq[p] - 1, dd::BasisStates::plus)); break;
            case 5: what = "makeGateDD"; d.makeGateDD(dd::Hmat, n, 0); break;
            case 6: what = "makeTwoQubitGateDD"; d.makeTwoQubitGateDD(dd::SWAPmat, n, 0, 1); break;
            case 7: what = "makeStateFromVector(length 3)"; d.makeStateFromVector(dd::CVec(3, {1., 0.})); break;
            case 8: what = "makeBasisState(bits, start)"; d.makeBasisState(full, std::vector<bool>(nq[p] + 3, true), 1 + vr.below(2)); break;
            case 9: what = "makeBasisState(states, start)"; d.makeBasisState(full, std::vector<dd::BasisStates>(nq[p] + 3, dd::BasisStates::plus), 1 + vr.below(2)); break;
            case 10: what = "makeGateDD(start)"; d.makeGateDD(dd::Hmat, full, 1, 1); break;
            case 11: what = "makeTwoQubitGateDD(start)"; d.makeTwoQubitGateDD(dd::SWAPmat, full, 1, 2, 1); break;
            default: what = "resize"; d.resize(Pkg::MAX_POSSIBLE_QUBITS + 1 + vr.below(3)); break;
        }
    } catch (const std::runtime_error&) {
        thrown = true;
    } catch (const std::invalid_argument&) {
        thrown = true;
    } catch (const std::exception& ex) {
        c.fail(std::string("reject:") + what, std::string(what) + " beyond capacity failed with the wrong exception: " + ex.what());
    }
    SIM_COUNT(c, "fault.over_capacity_request");
    if (!thrown) {
        c.fail(std::string("reject:") + what, std::string(what) + " beyond the package capacity was accepted");
    }
    if (d.qubits() != nq[p]) {
        c.fail("reject:resize", "a rejected request changed the reported number of qubits");
    }
}
