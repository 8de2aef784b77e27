// ---- density operators
// Pure reading of a density operator: the three low bits of a pointer say how the node below is to be
// understood (conjugated path / not reduced / density matrix), children inherit as documented in Node.hpp.
void readDRec(const dd::dNode* tagged, C amp, bool conjW, dd::Complex w, int level, std::size_t i, std::size_t j, std::size_t N, Arr& out) {
    C x = cv(w);
    if (x.r == 0 && x.i == 0) {
        return;
    }
    if (conjW) {
        x = conj(x);
    }
    amp             = amp * x;
    const auto  raw = reinterpret_cast<std::uintptr_t>(tagged);
    const auto* p   = reinterpret_cast<const dd::dNode*>(raw & ~static_cast<std::uintptr_t>(7));
    if (level < 0) {
        if (p->v != -1) {
            c.fail("malformed", strf("density operator: node level %d below the lowest level", p->v));
        }
        out[i * N + j] = amp;
        return;
    }
    if (p == nullptr || p->v != level) {
        c.fail("malformed", strf("density operator: expected level %d, found %d", level, p == nullptr ? -99 : p->v));
    }
    const bool cj = (raw & 1U) != 0, plain = (raw & 4U) == 0 || ((raw & 2U) != 0 && !cj);
    const auto b  = static_cast<std::size_t>(1) << level;
    auto       kid = [&](std::size_t slot, std::size_t from, bool conjHere, unsigned tag) {
        const auto& e = p->e[from];
        const auto  q = reinterpret_cast<const dd::dNode*>((reinterpret_cast<std::uintptr_t>(e.p) & ~static_cast<std::uintptr_t>(7)) | tag);
        readDRec(q, amp, conjHere, e.w, level - 1, (slot & 2U) ? i | b : i, (slot & 1U) ? j | b : j, N, out);
    };
    if (plain) {
        for (std::size_t k = 0; k < 4; ++k) {
            kid(k, k, false, 0);
        }
    } else if (!cj) {
        kid(0, 0, false, 4);
        kid(1, 1, false, 4 | 2);
        kid(2, 2, true, 4 | 1);
        kid(3, 3, false, 4);
    } else {
        kid(0, 0, true, 4 | 1);
        kid(1, 2, true, 4 | 1);
        kid(2, 1, true, 4 | 1);
        kid(3, 3, true, 4 | 1);
    }
}
Arr readD(int p, const dd::dEdge& e, int n) {
    (void)p;
    Arr out(1ULL << (2 * n));
    readDRec(e.p, {1, 0}, false, e.w, n - 1, 0, 0, 1ULL << n, out);
    return out;
}
void opDZero(const Act& a) {
    const int p = pkgOf(a.a[0]), n = std::min(3, qubitsFor(a.a[1], p, 3));
    Reg       r = mk('D', p, n, 0, false);
    r.d         = call(a, [&] { return P(p).makeZeroDensityOperator(static_cast<QubitCount>(n)); });
    Arr want(1ULL << (2 * n));
    want[0] = {1, 0};
    produce("makeZeroDensityOperator", r, want, a.a[4], true);
}
void opDApply(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'D' && r.held > 0; });
    if (x == nullptr) {
        return;
    }
    const auto idx = static_cast<std::size_t>(x - regs.data());
    splitRefs(*x);
    x          = &regs[idx];
    const int p = x->pkg, n = x->n;
    // an operator: either a register or a fresh (possibly controlled) gate
    Reg*             m   = vr.chance(0.35) ? pick(a.a[1], [&](const Reg& r) { return r.kind == 'M' && r.pkg == p && r.n == n && r.lo == 0 && maxAbs(r.a) <= 1.5; }) : nullptr;
    const bool       gen = vr.chance(0.6);
    Arr              u;
    dd::mEdge        op{};
    if (m != nullptr) {
        u  = m->a;
        op = m->m;
    } else {
        bool             exact = true;
        const auto       g     = oneQubit(exact);
        const int        t     = static_cast<int>(vr.below(static_cast<uint64_t>(n)));
        std::vector<Ctl> ctl;
        const auto       cs = controls(n, 0, {t}, ctl);
        u                   = gateA(n, toArr(g), {t}, ctl);
        op                  = call(a, [&] { return P(p).makeGateDD(g, static_cast<QubitCount>(n), cs, static_cast<Qubit>(t)); });
    }
    const auto N    = x->N();
    const Arr  want = mulMM(mulMM(u, x->a, N), transposeA(u, N, true), N);
    const Arr  old  = x->a;
    Act        nf   = a;
    call(nf, [&] { P(p).applyOperationToDensity(x->d, op, gen); });
    // the register's one reference moved to the new operator
    x->a = read(*x);
    expect("applyOperationToDensity", want, x->a, maxAbs(old) * maxAbs(u) * maxAbs(u) * static_cast<double>(N));
    if (x->a.empty() || maxAbs(x->a) > 8 || maxAbs(x->a) < 1e-4) {
        drop(idx);
    }
    SIM_COUNT(c, "probe.density_applications");
}
void opDMat(const Act& a) {
    Reg* x = pickKind(a.a[0], 'D');
    if (x == nullptr || (reinterpret_cast<std::uintptr_t>(x->d.p) & ~7ULL) == reinterpret_cast<std::uintptr_t>(dd::dNode::terminal)) {
        return;
    }
    const auto m = call(a, [&] {
        auto copy = x->d;
        return P(x->pkg).getDensityMatrix(copy);
    });
    Arr got;
    for (auto& row: m) {
        for (auto& z: row) {
            got.push_back({z.real(), z.imag()});
        }
    }
    expect("getDensityMatrix", x->a, got);
    // reading through the user's own edge must not change what the edge means
    if (vr.chance(0.5)) {
        call(a, [&] { P(x->pkg).getDensityMatrix(x->d); });
    }
}
void opDProb(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'D'; });
    if (x == nullptr || (reinterpret_cast<std::uintptr_t>(x->d.p) & ~7ULL) == reinterpret_cast<std::uintptr_t>(dd::dNode::terminal)) {
        return;
    }
    const double th = vr.chance(0.5) ? 0 : 1e-3;
    const auto   pv = call(a, [&] { return P(x->pkg).getProbVectorFromDensityMatrix(x->d, th); });
    for (std::size_t i = 0; i < x->N(); ++i) {
        std::string s; // qubit 0 first
        for (int q = 0; q < x->n; ++q) {
            s += (i >> q & 1U) ? '1' : '0';
        }
        const double want = x->a[i * x->N() + i].r;
        const auto   it   = pv.find(s);
        const double got  = it == pv.end() ? 0 : it->second;
        if (th > 0 && want < 2 * th) {
            continue; // below the threshold the implementation may drop the entry
        }
        expectC("getProbVectorFromDensityMatrix", {want, 0}, {got, 0});
    }
}
