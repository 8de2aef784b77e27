// ---- measurement
// a second register for the remaining references when an operation consumes exactly one of them
void splitRefs(Reg& x) {
    if (x.held > 1) {
        Reg other  = x;
        other.id   = nextId++;
        other.held = x.held - 1;
        x.held     = 1;
        regs.push_back(other); // note: invalidates references into regs
    }
}
Reg* stateForMeasurement(const Act& a, bool needHeld) {
    return pick(a.a[0], [&](const Reg& r) { return r.kind == 'V' && r.lo == 0 && !r.v.isTerminal() && (!needHeld || r.held > 0); });
}
void opProbs(const Act& a) {
    Reg* x = stateForMeasurement(a, false);
    if (x == nullptr) {
        return;
    }
    const auto q = static_cast<Qubit>(vr.below(static_cast<uint64_t>(x->n)));
    double     p0 = 0, p1 = 0;
    for (std::size_t i = 0; i < x->N(); ++i) {
        (i >> q & 1U ? p1 : p0) += mag2(x->a[i]);
    }
    for (const bool norm: {true, false}) {
        const auto pr = call(a, [&] { return P(x->pkg).determineMeasurementProbabilities(x->v, q, norm); });
        expectC(norm ? "determineMeasurementProbabilities" : "determineMeasurementProbabilities(unnormalised)", {p0, p1}, {pr.first, pr.second}, p0 + p1);
    }
}
static std::string bits(std::size_t i, int n) { // most significant qubit first
    std::string s;
    for (int q = n - 1; q >= 0; --q) {
        s += (i >> q & 1U) ? '1' : '0';
    }
    return s;
}
void opMeasAll(const Act& a) {
    Reg* x = stateForMeasurement(a, false);
    if (x == nullptr) {
        return;
    }
    const double tot  = norm2(x->a);
    const auto   seed = vr.next();
    if (!x->unit && tot < 1e-6) {
        return;
    }
    const int                  shots = vr.chance(0.1) ? 1500 : 12;
    std::vector<int>           cnt(x->N());
    std::mt19937_64            mt(seed);
    auto                       root = x->v;
    for (int k = 0; k < shots; ++k) {
        const auto res = call(a, [&] { return P(x->pkg).measureAll(root, false, mt); });
        if (static_cast<int>(res.size()) != x->n) {
            c.fail("measure:form", "measureAll returned " + std::to_string(res.size()) + " characters for " + std::to_string(x->n) + " qubits");
        }
        std::size_t i = 0;
        for (char ch: res) {
            if (ch != '0' && ch != '1') {
                c.fail("measure:form", "measureAll returned " + res);
            }
            i = i << 1 | (ch == '1' ? 1U : 0U);
        }
        c.hd(static_cast<double>(i));
        if (mag2(x->a[i]) / tot < 1e-20) {
            c.fail("measure:support", strf("measureAll returned %s, which has probability %.3g", res.c_str(), mag2(x->a[i]) / tot));
        }
        ++cnt[i];
    }
    if (!(root == x->v) || root.p != x->v.p) {
        c.fail("measure:root", "a non-collapsing measurement changed the state it was given");
    }
    SIM_COUNTN(c, "probe.measurement_shots", static_cast<uint64_t>(shots));
    if (shots > 100) {
        for (std::size_t i = 0; i < cnt.size(); ++i) {
            const double p = mag2(x->a[i]) / tot, m = p * shots, sd = std::sqrt(shots * p * (1 - p));
            if (std::fabs(cnt[i] - m) > 6.5 * sd + 6) {
                c.fail("measure:distribution", strf("%d shots gave %d times %s (probability %.6g)", shots, cnt[i], bits(i, x->n).c_str(), p));
            }
        }
        for (int q = 0; q < x->n; ++q) {
            double p = 0, got = 0;
            for (std::size_t i = 0; i < cnt.size(); ++i) {
                if (i >> q & 1U) {
                    p += mag2(x->a[i]) / tot;
                    got += cnt[i];
                }
            }
            if (std::fabs(got - p * shots) > 6.5 * std::sqrt(std::fmax(0, shots * p * (1 - p))) + 6) {
                c.fail("measure:distribution", strf("%d shots gave qubit %d = 1 %g times (probability %.6g)", shots, q, got, p));
            }
        }
    }
}
void opMeasCol(const Act& a) {
    Reg* x0 = stateForMeasurement(a, true);
    if (x0 == nullptr || !(norm2(x0->a) > 1e-6)) {
        return;
    }
    const auto idx = static_cast<std::size_t>(x0 - regs.data());
    splitRefs(*x0);
    const int p = regs[idx].pkg;
    if (pressured(p)) {
        // the measured register is held, everything unreferenced may disappear
        const auto id = regs[idx].id;
        dropFloats(p);
        for (std::size_t i = 0; i < regs.size(); ++i) {
            if (regs[i].id == id) {
                return opMeasColAt(a, i);
            }
        }
        return;
    }
    opMeasColAt(a, idx);
}
void opMeasColAt(const Act& a, std::size_t idx) {
    Reg&              x    = regs[idx];
    const auto        seed = vr.next();
    const auto        before = x.a;
    const double      tot  = norm2(before);
    std::string       res;
    res = call(a, [&] {
        std::mt19937_64 mt(seed);
        return P(x.pkg).measureAll(x.v, true, mt);
    });
    std::size_t i = 0;
    for (char ch: res) {
        i = i << 1 | (ch == '1' ? 1U : 0U);
    }
    if (static_cast<int>(res.size()) != x.n || mag2(before[i]) / tot < 1e-20) {
        c.fail("measure:support", strf("measureAll(collapse) returned %s, which has probability %.3g", res.c_str(), res.size() == static_cast<std::size_t>(x.n) ? mag2(before[i]) / tot : -1));
    }
    Arr want(before.size());
    want[i] = {1, 0};
    x.a     = read(x);
    x.exact = true;
    x.unit  = true;
    expect("measureAll(collapse)", want, x.a);
    SIM_COUNT(c, "probe.collapse_all");
}
// a register holding the same state with a norm that is off by less than the tolerance a measurement accepts
std::size_t slightlyOff(const Act& a, std::size_t idx) {
    Reg          y = regs[idx];
    const double f = std::sqrt(1 + (vr.chance(0.5) ? 1 : -1) * (1e-4 + 8e-4 * vr.unit()));
    const C      w = f * cv(y.v.w);
    y.v.w          = call(a, [&] { return P(y.pkg).cn.lookup(w.r, w.i); });
    for (auto& z: y.a) {
        z = f * z;
    }
    y.id    = nextId++;
    y.held  = 0;
    y.exact = false;
    y.unit  = false;
    incR(y);
    regs.push_back(y);
    return regs.size() - 1;
}
void opMeasOne(const Act& a) {
    Reg* x0 = stateForMeasurement(a, true);
    if (x0 == nullptr) {
        return;
    }
    auto idx = static_cast<std::size_t>(x0 - regs.data());
    splitRefs(*x0);
    if (std::fabs(norm2(regs[idx].a) - 1) < 1e-9 && vr.chance(0.25)) {
        idx = slightlyOff(a, idx);
    }
    Reg&         x    = regs[idx];
    const auto   seed = vr.next();
    const auto   q    = static_cast<Qubit>(vr.below(static_cast<uint64_t>(x.n)));
    const bool   norm = vr.chance(0.5);
    const double tot  = norm2(x.a);
    const auto   before = x.a;
    if (std::fabs(tot - 1) > 2e-3) {
        bool thrown = false;
        try {
            heap::Repo      h;
            std::mt19937_64 mt(seed);
            P(x.pkg).measureOneCollapsing(x.v, q, norm, mt);
        } catch (const std::runtime_error&) {
            thrown = true;
        }
        if (!thrown) {
            c.fail("measure:reject", strf("a state of norm %.6g was measured without complaint", tot));
        }
        return;
    }
    if (std::fabs(tot - 1) > 0.95e-3) {
        return;
    }
    if (std::fabs(tot - 1) > 1e-9) {
        SIM_COUNT(c, "probe.measurement_of_an_imprecisely_normalised_state");
    }
    const char ch = call(a, [&] {
        std::mt19937_64 mt(seed);
        return P(x.pkg).measureOneCollapsing(x.v, q, norm, mt);
    });
    if (ch != '0' && ch != '1') {
        c.fail("measure:form", "measureOneCollapsing returned neither '0' nor '1'");
    }
    double pr = 0;
    Arr    want(before.size());
    for (std::size_t i = 0; i < before.size(); ++i) {
        if ((i >> q & 1U) == static_cast<std::size_t>(ch - '0')) {
            want[i] = before[i];
            pr += mag2(before[i]);
        }
    }
    c.hd(ch);
    if (pr < 1e-13) {
        c.fail("measure:support", strf("qubit %d was measured as %c, which has probability %.3g", static_cast<int>(q), ch, pr));
    }
    for (auto& z: want) {
        z = (1 / std::sqrt(pr)) * z;
    }
    x.a     = read(x);
    x.exact = false;
    x.unit  = pr > 1e-4;
    expect("measureOneCollapsing", want, x.a, 1 / std::sqrt(pr) * 10);
    SIM_COUNT(c, "probe.collapse_one");
}
