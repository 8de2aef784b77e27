// ---- algebra
void opAdd(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D'; });
    if (x == nullptr) {
        return;
    }
    Reg* y = pick(a.a[1], [&](const Reg& r) { return r.kind == x->kind && r.pkg == x->pkg && r.n == x->n && r.lo == x->lo; });
    Reg  r = mk(x->kind, x->pkg, x->n, x->lo, false);
    const Arr want = addA(x->a, y->a);
    if (x->kind == 'V') {
        r.v = call(a, [&] { return P(r.pkg).add(x->v, y->v); });
    } else {
        r.m = call(a, [&] { return P(r.pkg).add(x->m, y->m); });
    }
    // sums of values from the discrete set stay in it
    r.exact = x->exact && y->exact && exactWorld;
    produce("add", r, want, a.a[4]);
}
void opMul(const Act& a, bool vec) {
    Reg* x = pickKind(a.a[0], 'M');
    if (x == nullptr) {
        return;
    }
    Reg* y = pick(a.a[1], [&](const Reg& r) { return r.kind == (vec ? 'V' : 'M') && r.pkg == x->pkg && r.n == x->n && r.lo == x->lo; });
    if (y == nullptr) {
        return;
    }
    Reg       r    = mk(y->kind, x->pkg, x->n, x->lo, x->exact && y->exact && exactWorld);
    const Arr want = vec ? mulMV(x->a, y->a) : mulMM(x->a, y->a, x->N());
    const auto s   = static_cast<Qubit>(x->lo);
    if (vec) {
        r.v = call(a, [&] { return P(r.pkg).multiply(x->m, y->v, s); });
    } else {
        r.m = call(a, [&] { return P(r.pkg).multiply(x->m, y->m, s); });
    }
    const double scale = maxAbs(x->a) * maxAbs(y->a);
    r.a                = read(r);
    expect("multiply", want, r.a, scale);
    produce("multiply", r, r.a, a.a[4]);
}
void opTrans(const Act& a, bool cj) {
    Reg* x = pickKind(a.a[0], 'M');
    if (x == nullptr) {
        return;
    }
    Reg       r    = mk('M', x->pkg, x->n, x->lo, x->exact);
    const Arr want = transposeA(x->a, x->N(), cj);
    if (cj) {
        r.m = call(a, [&] { return P(r.pkg).conjugateTranspose(x->m); });
    } else {
        r.m = call(a, [&] { return P(r.pkg).transpose(x->m); });
    }
    produce(cj ? "conjugateTranspose" : "transpose", r, want, a.a[4]);
}
// diagrams without nodes (plain numbers), and products that are too small to be told from zero
void scalars(const Act& a) {
    const int p  = pkgOf(a.a[0]);
    auto&     d  = P(p);
    auto      nm = [&](C& z) {
        const double m = exactWorld ? 1. : 0.1 + vr.unit();
        switch (vr.below(4)) {
            case 0: z = {0, 0}; break;
            case 1: z = {m, 0}; break;
            case 2: z = {0, -m}; break;
            default: z = exactWorld ? C{-1, 0} : C{vr.unit() - 0.5, vr.unit() - 0.5};
        }
        return call(a, [&] { return d.cn.lookup(z.r, z.i); });
    };
    C          u{}, v{};
    const auto wu = nm(u), wv = nm(v);
    const auto uv = u * v;
    auto       term = [&](const char* what, const auto& e, C want) {
        if (!e.isTerminal()) {
            c.fail("shape:scalar", strf("%s of two numbers has nodes", what));
        }
        expectC(what, want, cv(e.w));
    };
    const auto vu = dd::vEdge::terminal(wu), vv = dd::vEdge::terminal(wv);
    const auto mu = dd::mEdge::terminal(wu), mv = dd::mEdge::terminal(wv);
    switch (vr.below(9)) {
        case 0: term("kronecker", call(a, [&] { return d.kronecker(vu, vv); }), uv); break;
        case 1: term("kronecker", call(a, [&] { return d.kronecker(mu, mv); }), uv); break;
        case 2: term("multiply", call(a, [&] { return d.multiply(mu, vv); }), uv); break;
        case 3: term("multiply", call(a, [&] { return d.multiply(mu, mv); }), uv); break;
        case 4: term("add", call(a, [&] { return d.add(vu, vv); }), u + v); break;
        case 5: term("add", call(a, [&] { return d.add(mu, mv); }), u + v); break;
        case 6: term("transpose", call(a, [&] { return d.transpose(mu); }), u); break;
        case 7: term("conjugateTranspose", call(a, [&] { return d.conjugateTranspose(mu); }), C{u.r, -u.i}); break;
        default: expectC("innerProduct", C{u.r, -u.i} * v, cv(call(a, [&] { return d.innerProduct(vu, vv); })));
    }
    Reg* x = pick(a.a[1], [&](const Reg& r) { return r.pkg == p && r.kind != 'D' && r.lo == 0 && r.n <= (r.kind == 'V' ? VCAP : MCAP) && hasNodes(r); });
    if (x != nullptr) {
        Reg r = mk(x->kind, p, x->n, 0, false);
        Arr want = x->a;
        for (auto& z: want) {
            z = u * z;
        }
        const bool left = vr.chance(0.5);
        if (x->kind == 'V') {
            r.v = call(a, [&] { return left ? d.kronecker(vu, x->v) : d.kronecker(x->v, vu); });
        } else {
            r.m = call(a, [&] { return left ? d.kronecker(mu, x->m) : d.kronecker(x->m, mu); });
        }
        expect("kronecker with a number", want, read(r));
    }
    if (gateMode != 3 && x != nullptr) {
        Reg* y = pick(a.a[5], [&](const Reg& r) { return r.pkg == p && r.kind == x->kind && r.lo == 0 && hasNodes(r); });
        const double k1 = 8. + vr.unit() * 3, k2 = 8. + vr.unit() * 3;
        const auto   w1 = call(a, [&] { return d.cn.lookup(std::pow(10., -k1), vr.chance(0.5) ? 0. : std::pow(10., -k1 - vr.unit())); });
        const auto   w2 = call(a, [&] { return d.cn.lookup(vr.chance(0.5) ? 0. : std::pow(10., -k2 - vr.unit()), std::pow(10., -k2)); });
        auto zero = [&](const char* what, const auto& e) {
            if ((oracles & O_CANON) != 0 && (!e.isTerminal() || wr(e.w) != 0. || wi(e.w) != 0.)) {
                c.fail("canon:zero", strf("%s of two diagrams with a top weight around 1e-%.0f is zero, but not the zero edge: %s, weight %g%+gi", what, k1, e.isTerminal() ? "terminal" : "not terminal", wr(e.w), wi(e.w)));
            }
        };
        if (nq[p] >= 2 && vr.chance(0.5)) { // what is left after tracing out or reducing is too small
            const int             up = static_cast<int>(vr.below(2));
            const dd::ComplexValue t{std::pow(10., -6 - vr.unit()), 0}, o{0, 0}, one{1, 0};
            const auto             small = call(a, [&] { return d.cn.lookup(std::pow(10., -k1), 0); });
            std::vector<bool>      q(2);
            q[static_cast<std::size_t>(1 - up)] = true;
            auto hold = [&](auto& e) {
                heap::Repo h;
                e.w = small;
                d.incRef(e);
            };
            if (vr.chance(0.5)) {
                auto m = call(a, [&] {
                    const auto g = d.makeGateDD(dd::GateMatrix{t, one, o, o}, 1, 0), h = d.makeGateDD(dd::Hmat, 1, 0);
                    return up == 1 ? d.kronecker(h, g) : d.kronecker(g, h);
                });
                hold(m);
                if (vr.chance(0.5)) {
                    zero("the partial trace", call(a, [&] { return d.partialTrace(m, q); }));
                    heap::Repo h;
                    d.decRef(m);
                } else {
                    m = call(a, [&] { return d.reduceAncillae(m, q); });
                    zero("the reduced operator", m);
                    heap::Repo h;
                    d.decRef(m);
                }
            } else {
                auto v = call(a, [&] {
                    const auto g = d.makeStateFromVector({{1. + t.r, 0}, {-1., 0}}), h = d.makeStateFromVector({{1, 0}, {1, 0}});
                    return up == 1 ? d.kronecker(h, g) : d.kronecker(g, h);
                });
                hold(v);
                v = call(a, [&] { return d.reduceGarbage(v, q); });
                zero("the reduced state", v);
                heap::Repo h;
                d.decRef(v);
            }
        }
        for (int again = 0; again < 2 && y != nullptr; ++again) {
            const bool fits = static_cast<std::size_t>(x->n + y->n) <= nq[p];
            if (x->kind == 'V') {
                auto e = x->v, f = y->v;
                e.w = w1;
                f.w = w2;
                if (fits) {
                    zero("the Kronecker product", call(a, [&] { return d.kronecker(e, f); }));
                }
            } else {
                auto e = x->m, f = y->m;
                e.w = w1;
                f.w = w2;
                if (fits) {
                    zero("the Kronecker product", call(a, [&] { return d.kronecker(e, f); }));
                }
                if (x->n == y->n) {
                    zero("the product", call(a, [&] { return d.multiply(e, f); }));
                }
            }
        }
    }
    SIM_COUNT(c, "probe.numbers_as_operands");
}
void opKron(const Act& a) {
    if (vr.chance(0.06)) {
        return scalars(a);
    }
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && r.lo == 0; });
    if (x == nullptr) {
        return;
    }
    if (vr.chance(0.03)) {
        Reg* y = pick(a.a[1], [&](const Reg& r) { return r.kind == x->kind && r.pkg == x->pkg && r.lo == 0 && static_cast<std::size_t>(r.n + x->n) > nq[x->pkg] && (r.kind == 'V' ? !r.v.isTerminal() : !r.m.isTerminal()); });
        if (y != nullptr && (x->kind == 'V' ? !x->v.isTerminal() : !x->m.isTerminal())) {
            rejected("kronecker beyond the capacity", [&] {
                if (x->kind == 'V') {
                    P(x->pkg).kronecker(x->v, y->v);
                } else {
                    P(x->pkg).kronecker(x->m, y->m);
                }
            });
            return;
        }
    }
    const int  cap = x->kind == 'V' ? VCAP : MCAP;
    const bool inc = vr.chance(0.7);
    Reg*       y   = nullptr;
    if (inc) {
        y = pick(a.a[1], [&](const Reg& r) { return r.kind == x->kind && r.pkg == x->pkg && r.lo == 0 && r.n + x->n <= cap && static_cast<std::size_t>(r.n + x->n) <= nq[x->pkg]; });
    } else {
        // the upper operand already sits on the levels just above the lower one
        x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && r.lo > 0; });
        if (x == nullptr) {
            return;
        }
        y = pick(a.a[1], [&](const Reg& r) { return r.kind == x->kind && r.pkg == x->pkg && r.lo + r.n == x->lo && r.n + x->n <= cap; });
    }
    if (y == nullptr) {
        return;
    }
    Reg       r    = mk(x->kind, x->pkg, x->n + y->n, y->lo, x->exact && y->exact && exactWorld);
    const Arr want = x->kind == 'V' ? kronV(x->a, y->a) : kronM(x->a, x->N(), y->a, y->N());
    if (x->kind == 'V') {
        r.unit = x->unit && y->unit;
        r.v    = call(a, [&] { return P(r.pkg).kronecker(x->v, y->v, inc); });
    } else {
        r.m = call(a, [&] { return P(r.pkg).kronecker(x->m, y->m, inc); });
    }
    produce("kronecker", r, want, a.a[4]);
}
// many identity levels on top or below: entries along random paths
void bigExtend(const Act& a) {
    Reg* x = pick(a.a[0], [&](const Reg& r) { return r.kind == 'M' && r.lo == 0 && r.n <= 3 && hasNodes(r); });
    if (x == nullptr) {
        return;
    }
    const Arr  want = x->a;
    const int  n0   = x->n;
    const auto full = 20 + static_cast<int>(vr.below(100));
    heap::Repo rp;
    auto       d  = std::make_unique<Pkg>(static_cast<std::size_t>(full));
    const auto m  = d->transfer(x->m);
    const int  h  = static_cast<int>(vr.below(static_cast<uint64_t>(full - n0) + 1));
    const int  l  = static_cast<int>(vr.below(static_cast<uint64_t>(full - n0 - h) + 1));
    const auto e  = vr.chance(0.5) ? d->extend(m, static_cast<Qubit>(h), static_cast<Qubit>(l)) : d->kronecker(d->makeIdent(static_cast<QubitCount>(h)), l > 0 ? d->kronecker(m, d->makeIdent(static_cast<QubitCount>(l))) : m);
    const int  n  = h + l + n0;
    if (e.isTerminal() || e.p->v != n - 1) {
        c.fail("shape:levels", strf("an operator on %d qubits extended by %d and %d levels has its root on level %d", n0, h, l, e.isTerminal() ? -1 : static_cast<int>(e.p->v)));
    }
    for (int k = 0; k < 24; ++k) {
        std::size_t row = vr.below(1ULL << n0), col = vr.below(1ULL << n0);
        const int   off = vr.chance(0.5) ? static_cast<int>(vr.below(static_cast<uint64_t>(n))) : -1; // a level on which row and column differ
        C           w   = cv(e.w);
        auto*       q   = e.p;
        bool        hit = false; // the entry is off the diagonal of an identity level
        for (int lev = n - 1; lev >= 0; --lev) {
            unsigned rb = 0, cb = 0;
            if (lev >= l && lev < l + n0) {
                rb = (row >> (lev - l)) & 1U;
                cb = (col >> (lev - l)) & 1U;
            } else {
                rb = cb = static_cast<unsigned>(vr.below(2));
                if (lev == off) {
                    cb  = 1U - cb;
                    hit = true;
                }
            }
            const auto& ch = q->e[2 * rb + cb];
            w              = w * cv(ch.w);
            if (ch.isTerminal() && lev > 0) {
                w = C{0, 0};
                if (std::hypot(cv(ch.w).r, cv(ch.w).i) > 1e-9) {
                    c.fail("shape:levels", "an edge of an extended operator skips levels");
                }
                break;
            }
            if (!ch.isTerminal() && ch.p->v != lev - 1) {
                c.fail("shape:levels", strf("an edge of an extended operator leads from level %d to level %d", lev, static_cast<int>(ch.p->v)));
            }
            q = ch.p;
        }
        const C ex = hit ? C{0, 0} : want[row * (1ULL << n0) + col];
        if (std::hypot(w.r - ex.r, w.i - ex.i) > 1e-6 * std::fmax(1., maxAbs(want))) {
            c.fail("result:extend", strf("an operator on %d qubits extended by %d levels above and %d below has %g%+gi where %g%+gi belongs", n0, h, l, w.r, w.i, ex.r, ex.i));
        }
    }
    SIM_COUNT(c, "probe.operators_on_many_qubits");
}
void opExtend(const Act& a) {
    if (vr.chance(0.08)) {
        return bigExtend(a);
    }
    Reg* x = pick(a.a[0], [&](const Reg& r) { return r.kind == 'M' && r.lo == 0 && r.n < MCAP && static_cast<std::size_t>(r.n) < nq[r.pkg]; });
    if (x == nullptr) {
        return;
    }
    const int room = std::min(MCAP, static_cast<int>(nq[x->pkg])) - x->n;
    const int h    = static_cast<int>(vr.below(static_cast<uint64_t>(room) + 1));
    const int l    = static_cast<int>(vr.below(static_cast<uint64_t>(room - h) + 1));
    Arr       want = kronM(x->a, x->N(), identA(1ULL << l), 1ULL << l);
    want           = kronM(identA(1ULL << h), 1ULL << h, want, 1ULL << (l + x->n));
    Reg r          = mk('M', x->pkg, x->n + h + l, 0, x->exact);
    r.m            = call(a, [&] { return P(r.pkg).extend(x->m, static_cast<Qubit>(h), static_cast<Qubit>(l)); });
    produce("extend", r, want, a.a[4]);
}
void opPtrace(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'M' && r.lo == 0; });
    if (x == nullptr) {
        return;
    }
    std::vector<bool> el(static_cast<std::size_t>(x->n));
    int               left = x->n;
    for (int q = 0; q < x->n; ++q) {
        if (left > 1 && vr.chance(0.5)) {
            el[static_cast<std::size_t>(q)] = true;
            --left;
        }
    }
    const Arr want = ptraceA(x->a, x->n, el);
    Reg       r    = mk('M', x->pkg, left, 0, false);
    r.m            = call(a, [&] { return P(r.pkg).partialTrace(x->m, el); });
    r.exact        = x->exact && exactWorld;
    produce("partialTrace", r, want, a.a[4]);
}
// one step of an ordinary simulation loop: the state register is replaced by gate*state
void opApply(const Act& a) {
    Reg* x = pick(a.a[0], [&](const Reg& r) { return r.kind == 'V' && r.lo == 0 && r.n <= MCAP + 1; });
    if (x == nullptr) {
        return;
    }
    const int        p     = x->pkg;
    bool             exact = true;
    const auto       g     = oneQubit(exact);
    const int        t     = static_cast<int>(vr.below(static_cast<uint64_t>(x->n)));
    std::vector<Ctl> ctl;
    const auto       cs   = controls(x->n, 0, {t}, ctl);
    const Arr        want = mulMV(gateA(x->n, toArr(g), {t}, ctl), x->a);
    const auto       res  = call(a, [&] {
        auto gate = P(p).makeGateDD(g, static_cast<QubitCount>(x->n), cs, static_cast<Qubit>(t));
        return P(p).multiply(gate, x->v);
    });
    Reg r   = mk('V', p, x->n, 0, x->exact && exact && exactWorld);
    r.v     = res;
    r.unit  = x->unit;
    r.a     = read(r);
    expect("gate application", want, r.a);
    r.id   = nextId++;
    r.held = 0;
    checkCanon(r);
    incR(r);
    while (x->held > 0) {
        decR(*x);
    }
    *x = r;
    if (vr.chance(0.5)) {
        opGcUnforced(a, p);
    }
}
void opDelEdge(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && r.lo == 0; });
    if (x == nullptr) {
        return;
    }
    const int  q  = static_cast<int>(vr.below(static_cast<uint64_t>(x->n)));
    const auto k  = vr.below(x->kind == 'V' ? 2 : 4);
    Arr        want = x->a;
    const auto N  = x->N();
    for (std::size_t i = 0; i < N; ++i) {
        if (x->kind == 'V') {
            if ((i >> q & 1U) == k) {
                want[i] = {};
            }
        } else {
            for (std::size_t j = 0; j < N; ++j) {
                if ((2 * (i >> q & 1U) + (j >> q & 1U)) == k) {
                    want[i * N + j] = {};
                }
            }
        }
    }
    Reg r = mk(x->kind, x->pkg, x->n, 0, x->exact);
    if (x->kind == 'V') {
        r.v = call(a, [&] { return P(r.pkg).deleteEdge(x->v, static_cast<Qubit>(q), k); });
    } else {
        r.m = call(a, [&] { return P(r.pkg).deleteEdge(x->m, static_cast<Qubit>(q), k); });
    }
    produce("deleteEdge", r, want, a.a[4]);
}
// the same computation twice in a row (cache hit) must give the identical diagram
void opRedo(const Act& a) {
    Reg* x = pickKind(a.a[0], 'M');
    if (x == nullptr) {
        return;
    }
    Reg* y = pick(a.a[1], [&](const Reg& r) { return r.kind != 'D' && r.pkg == x->pkg && r.n == x->n && r.lo == x->lo; });
    if (y == nullptr) {
        return;
    }
    const auto s = static_cast<Qubit>(x->lo);
    Arr        one, two;
    const bool v = y->kind == 'V';
    auto       f = [&]() {
        Reg r = mk(y->kind, x->pkg, x->n, x->lo, false);
        if (v) {
            r.v = call(a, [&] { return P(x->pkg).multiply(x->m, y->v, s); });
        } else {
            r.m = call(a, [&] { return P(x->pkg).multiply(x->m, y->m, s); });
        }
        return read(r);
    };
    const Arr want = v ? mulMV(x->a, y->a) : mulMM(x->a, y->a, x->N());
    one            = f();
    expect("multiply", want, one, maxAbs(x->a) * maxAbs(y->a));
    two = f();
    expect("repeated multiply", want, two, maxAbs(x->a) * maxAbs(y->a));
}
