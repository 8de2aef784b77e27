// ---- queries
// what printVector and printMatrix write to the standard output, three digits per part
struct Capture : std::streambuf {
    char            b[16384];
    std::streambuf* old;
    Capture(): old(std::cout.rdbuf(this)) { clear(); }
    ~Capture() override { std::cout.rdbuf(old); }
    void        clear() { setp(b, b + sizeof(b)); }
    std::string str() { return {pbase(), pptr()}; }
};
void printed(const Act& a, const Reg& x) {
    auto&       d = P(x.pkg);
    const auto  N = x.N();
    Arr         got;
    std::string s;
    {
        Capture o;
        call(a, [&] {
            o.clear();
            if (x.kind == 'V') {
                d.printVector(x.v);
            } else {
                d.printMatrix(x.m);
            }
        });
        s = o.str();
    }
    std::istringstream is(s);
    std::string        line, t;
    std::size_t        i = 0;
    for (; std::getline(is, line); ++i) {
        std::istringstream ls(line);
        if (x.kind == 'V') {
            std::string bits;
            for (int q = x.n; q-- > 0;) {
                bits += (i >> q & 1U) != 0 ? '1' : '0';
            }
            if (!(ls >> t) || t != bits + ":") {
                c.fail("print", strf("line %zu of the printed state is '%s'", i, line.c_str()));
            }
        }
        std::size_t k = 0;
        for (; ls >> t; ++k) {
            const auto v = parseAmplitudes(t + "\n");
            got.push_back(v.size() == 1 ? v[0] : C{1e9, 0});
        }
        if (k != (x.kind == 'V' ? 1 : N)) {
            c.fail("print", strf("line %zu of the printed diagram holds %zu numbers", i, k));
        }
    }
    bool same = got.size() == x.a.size();
    for (std::size_t k = 0; same && k < got.size(); ++k) {
        same = std::fabs(got[k].r - x.a[k].r) <= 6e-3 * std::fabs(x.a[k].r) + 1e-9 && std::fabs(got[k].i - x.a[k].i) <= 6e-3 * std::fabs(x.a[k].i) + 1e-9;
    }
    if ((oracles & O_RES) != 0 && !same) {
        c.fail("print", "the printed values are not those of the diagram: " + s + " instead of " + show(x.a));
    }
    SIM_COUNT(c, "probe.printed_diagrams");
}
C pathValue(const dd::ComplexValue& v) { return cv(v); }
void opVals(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && r.lo == 0; });
    if (x == nullptr) {
        return;
    }
    auto&      d = P(x->pkg);
    const auto N = x->N();
    if (vr.chance(0.15) && x->n <= (x->kind == 'V' ? 5 : 3) && !(x->kind == 'V' ? x->v.isTerminal() : x->m.isTerminal())) {
        printed(a, *x);
        return;
    }
    if (x->kind == 'V') {
        if (!x->v.isTerminal()) {
            const auto v = call(a, [&] { return d.getVector(x->v); });
            Arr        got;
            for (auto& z: v) {
                got.push_back({z.real(), z.imag()});
            }
            expect("getVector", x->a, got);
        }
        for (int k = 0; k < 3; ++k) {
            const auto i = vr.below(N);
            expectC("getValueByPath(index)", x->a[i], cv(call(a, [&] { return d.getValueByPath(x->v, i); })));
            std::string s;
            for (int q = 0; q < x->n; ++q) {
                s += (i >> q & 1U) ? '1' : '0';
            }
            expectC("getValueByPath(string)", x->a[i], cv(call(a, [&] { return d.getValueByPath(x->v, s); })));
        }
    } else {
        if (!x->m.isTerminal()) {
            const auto m = call(a, [&] { return d.getMatrix(x->m); });
            Arr        got;
            for (auto& row: m) {
                for (auto& z: row) {
                    got.push_back({z.real(), z.imag()});
                }
            }
            expect("getMatrix", x->a, got);
        }
        for (int k = 0; k < 3; ++k) {
            const auto i = vr.below(N), j = vr.below(N);
            expectC("getValueByPath(row,column)", x->a[i * N + j], cv(call(a, [&] { return d.getValueByPath(x->m, i, j); })));
            std::string s;
            for (int q = 0; q < x->n; ++q) {
                s += static_cast<char>('0' + 2 * (i >> q & 1U) + (j >> q & 1U));
            }
            expectC("getValueByPath(string)", x->a[i * N + j], cv(call(a, [&] { return d.getValueByPath(x->m, s); })));
        }
    }
}
void opExport(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'V' && r.lo == 0 && !r.v.isTerminal(); });
    if (x == nullptr) {
        return;
    }
    auto&      d = P(x->pkg);
    const auto n = static_cast<QubitCount>(x->n);
    switch (vr.below(4)) {
        case 0: {
            std::vector<std::complex<dd::fp>> out(x->N(), {7., 7.});
            call(a, [&] { d.exportAmplitudes(x->v, out, n); });
            Arr got;
            for (auto& z: out) {
                got.push_back({z.real(), z.imag()});
            }
            expect("exportAmplitudes(vector)", x->a, got);
            break;
        }
        case 1: {
            std::vector<std::complex<dd::fp>> base(x->N()), out;
            Arr want = x->a;
            for (std::size_t i = 0; i < base.size(); ++i) {
                base[i] = {vr.unit(), vr.unit()};
                want[i] = want[i] + C{base[i].real(), base[i].imag()};
            }
            call(a, [&] {
                out = base;
                d.addAmplitudes(x->v, out, n);
            });
            Arr got;
            for (auto& z: out) {
                got.push_back({z.real(), z.imag()});
            }
            expect("addAmplitudes", want, got);
            break;
        }
        case 2: { // binary stream
            std::string s;
            call(a, [&] {
                std::ostringstream os;
                os.exceptions(std::ios::badbit);
                d.exportAmplitudes(x->v, os, n, true);
                s = os.str();
            });
            Arr got(s.size() / 16);
            if (s.size() == x->N() * 16) {
                for (std::size_t i = 0; i < got.size(); ++i) {
                    std::memcpy(&got[i].r, s.data() + 16 * i, 8);
                    std::memcpy(&got[i].i, s.data() + 16 * i + 8, 8);
                }
            }
            expect("exportAmplitudes(binary)", x->a, got);
            break;
        }
        default: { // text: one line per amplitude
            std::string s;
            call(a, [&] {
                std::ostringstream os;
                os.exceptions(std::ios::badbit);
                d.exportAmplitudes(x->v, os, n, false);
                s = os.str();
            });
            expect("exportAmplitudes(text)", x->a, parseAmplitudes(s), 1e4);
        }
    }
}
// lines such as "0.5", "-0.25i", "0.5+0.5i"
static Arr parseAmplitudes(const std::string& s) {
    Arr                got;
    std::istringstream is(s);
    std::string        line;
    while (std::getline(is, line)) {
        C           z{};
        const char* p = line.c_str();
        while (*p != 0) {
            double sign = 1;
            if (*p == '+' || *p == '-') {
                sign = *p == '-' ? -1 : 1;
                ++p;
            }
            if (*p == 'i') {
                z.i = sign;
                ++p;
                continue;
            }
            char*        e = nullptr;
            const double v = std::strtod(p, &e) * sign;
            if (e == p) {
                return {};
            }
            p = e;
            if (*p == 'i') {
                z.i = v;
                ++p;
            } else {
                z.r = v;
            }
        }
        got.push_back(z);
    }
    return got;
}
void opInner(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'V' && r.lo == 0; });
    if (x == nullptr) {
        return;
    }
    Reg* y = pick(a.a[1], [&](const Reg& r) { return r.kind == 'V' && r.pkg == x->pkg && r.n == x->n && r.lo == 0; });
    const C  want  = innerA(x->a, y->a);
    const double sc = std::sqrt(norm2(x->a) * norm2(y->a));
    const C  got   = cv(call(a, [&] { return P(x->pkg).innerProduct(x->v, y->v); }));
    expectC("innerProduct", want, got, sc);
    const double f = call(a, [&] { return P(x->pkg).fidelity(x->v, y->v); });
    expectC("fidelity", {mag2(want), 0}, {f, 0}, sc * sc);
}
void opFidM(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'V' && r.lo == 0; });
    if (x == nullptr) {
        return;
    }
    dd::ProbabilityVector pv;
    double                want = 0;
    for (std::size_t i = 0; i < x->N(); ++i) {
        if (vr.chance(0.6)) {
            const double p = vr.unit();
            pv[i]          = p;
            want += std::sqrt(mag2(x->a[i])) * std::sqrt(p);
        }
    }
    const double f = call(a, [&] { return P(x->pkg).fidelityOfMeasurementOutcomes(x->v, pv); });
    expectC("fidelityOfMeasurementOutcomes", {want, 0}, {f, 0}, static_cast<double>(x->N()));
}
void opExpect(const Act& a) {
    for (int p = 0; p < npkg; ++p) {
        if (pressured(p)) { // expectationValue collects garbage
            dropFloats(p);
        }
    }
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'M' && r.lo == 0 && !r.m.isTerminal(); });
    if (x == nullptr) {
        return;
    }
    const bool mismatch = vr.chance(0.15);
    Reg* y = pick(a.a[1], [&](const Reg& r) { return r.kind == 'V' && r.pkg == x->pkg && (r.n == x->n) != mismatch && r.lo == 0 && !r.v.isTerminal(); });
    if (y == nullptr) {
        return;
    }
    if (mismatch) {
        bool thrown = false;
        try {
            heap::Repo h;
            P(x->pkg).expectationValue(x->m, y->v);
        } catch (const std::invalid_argument&) {
            thrown = true;
        }
        if (!thrown) {
            c.fail("reject:expectationValue", "operator and state of different sizes were accepted");
        }
        return;
    }
    // a Hermitian observable: make one from x if x is not
    const int p   = x->pkg;
    Reg       h   = mk('M', p, x->n, 0, false);
    const Arr ha  = addA(x->a, transposeA(x->a, x->N(), true));
    const C   want = innerA(y->a, mulMV(ha, y->a));
    const double sc = norm2(y->a) * maxAbs(ha) * static_cast<double>(x->N());
    const int xi = static_cast<int>(x - regs.data()), yi = static_cast<int>(y - regs.data());
    const double f = call(a, [&] {
        auto obs = P(p).add(regs[static_cast<std::size_t>(xi)].m, P(p).conjugateTranspose(regs[static_cast<std::size_t>(xi)].m));
        if (obs.isTerminal()) {
            return 0.;
        }
        return P(p).expectationValue(obs, regs[static_cast<std::size_t>(yi)].v); // collects garbage
    });
    expectC("expectationValue", {want.r, 0}, {f, 0}, sc);
}
void opTrace(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'M' && r.lo == 0; });
    if (x == nullptr) {
        return;
    }
    C want{};
    for (std::size_t i = 0; i < x->N(); ++i) {
        want = want + x->a[i * x->N() + i];
    }
    expectC("trace", want, cv(call(a, [&] { return P(x->pkg).trace(x->m); })), maxAbs(x->a) * static_cast<double>(x->N()));
}
// the documented notion: up to a global factor the matrix is diagonal with ones, or zeros where an ancillary
// was reduced; decided by the oracle from the dense matrix with a wide margin on both sides
void opCloseId(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'M' && r.lo == 0 && !r.m.isTerminal(); });
    if (x == nullptr) {
        return;
    }
    const bool got = call(a, [&] { return P(x->pkg).isCloseToIdentity(x->m); });
    c.hd(static_cast<double>(got));
    if ((oracles & O_RES) == 0) {
        return;
    }
    const auto N    = x->N();
    const double s  = maxAbs(x->a);
    double     off  = 0, dia = 0;
    bool       hole = false;
    const C    ref  = x->a[0];
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < N; ++j) {
            const C v = x->a[i * N + j];
            if (i != j) {
                off = std::fmax(off, std::sqrt(mag2(v)));
            } else {
                if (mag2(v) < 1e-20) {
                    hole = true;
                }
                dia = std::fmax(dia, std::sqrt(mag2(v - ref)));
            }
        }
    }
    if (hole) {
        return;
    }
    if (off < 1e-13 * s && dia < 1e-13 * s && !got) {
        c.fail("result:isCloseToIdentity", "the identity (up to a factor) was reported as not close to the identity");
    }
    if ((off > 1e-2 * s || dia > 1e-2 * s) && got) {
        c.fail("result:isCloseToIdentity", strf("a matrix far from the identity was reported as close to it: %s", show(x->a).c_str()));
    }
}
template<class E>
std::size_t distinctNodes(const E& e) {
    std::unordered_set<std::remove_reference_t<decltype(e.p)>> seen;
    std::vector<std::remove_reference_t<decltype(e.p)>>        todo{e.p};
    while (!todo.empty()) {
        auto p = todo.back();
        todo.pop_back();
        if (!seen.insert(p).second || p->v < 0) {
            continue;
        }
        for (auto& k: p->e) {
            todo.push_back(k.p);
        }
    }
    return seen.size();
}
void opSize(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D'; });
    if (x == nullptr) {
        return;
    }
    std::size_t want = 0, got = 0;
    if (x->kind == 'V') {
        want = distinctNodes(x->v);
        got  = call(a, [&] { return P(x->pkg).size(x->v); });
    } else {
        want = distinctNodes(x->m);
        got  = call(a, [&] { return P(x->pkg).size(x->m); });
    }
    if ((oracles & O_RES) != 0 && want != got) {
        c.fail("result:size", strf("size() reported %zu nodes, the diagram has %zu", got, want));
    }
    c.hd(static_cast<double>(got));
}
