// ---- the caches the user fills: an entry handed out later must still be the operator that was stored
struct CacheModel {
    Arr a;
    int n  = 0;
    int lo = 0;
};
std::map<std::pair<int, int>, CacheModel>                  stoch[2];  // (kind,target)
std::map<std::pair<std::string, int>, CacheModel>          toff[2];   // (n|controls, target)
std::map<const void*, C>                                   scratchVal[2];
void opToffoli(const Act& a) {
    const int        p = pkgOf(a.a[0]), nMax = std::max(1, std::min(maxN, 4));
    const int        n = vr.chance(0.6) ? nMax : 1 + static_cast<int>(vr.below(static_cast<uint64_t>(nMax)));
    const int        t = static_cast<int>(vr.below(static_cast<uint64_t>(n)));
    std::vector<Ctl> ctl;
    // few distinct keys so that lookups find what earlier steps stored
    Rng              kr(vr.below(6));
    dd::Controls     cs;
    std::string      key = std::to_string(n);
    for (int q = 0; q < n; ++q) {
        if (q != t && kr.chance(0.5)) {
            const bool pos = kr.chance(0.6);
            cs.insert(dd::Control{static_cast<Qubit>(q), pos ? dd::Control::Type::pos : dd::Control::Type::neg});
            ctl.push_back({q, pos});
            key += (pos ? "+" : "-") + std::to_string(q);
        }
    }
    auto&      d = P(p);
    const auto k = std::make_pair(key, t);
    const auto e = call(a, [&] { return d.toffoliTable.lookup(static_cast<QubitCount>(n), cs, static_cast<Qubit>(t)); });
    if (e.p != nullptr) {
        SIM_COUNT(c, "probe.toffoli_table_hit");
        if (toff[p].count(k) == 0) {
            c.fail("cache:toffoli", "the Toffoli table returned an operator nobody stored for this key");
        }
        const Arr got = readM(e, n, 0);
        expect("toffoliTable", toff[p][k].a, got);
        if (vr.chance(0.7)) {
            return;
        }
    }
    bool       exact = true;
    const auto g     = vr.chance(0.4) ? dd::Xmat : oneQubit(exact, nullptr, false);
    const Arr  want  = gateA(n, toArr(g), {t}, ctl);
    const auto m     = call(a, [&] { return d.makeGateDD(g, static_cast<QubitCount>(n), cs, static_cast<Qubit>(t)); });
    call(a, [&] { d.toffoliTable.insert(static_cast<QubitCount>(n), cs, static_cast<Qubit>(t), m); });
    toff[p][k] = {want, n, 0};
    const auto back = d.toffoliTable.lookup(static_cast<QubitCount>(n), cs, static_cast<Qubit>(t));
    if (back.p == nullptr || !(back == m)) {
        c.fail("cache:toffoli", "an operator just stored in the Toffoli table is not found");
    }
    if (vr.chance(0.25)) {
        Reg r = mk('M', p, n, 0, exact);
        r.m   = m;
        produce("makeGateDD", r, want, a.a[4]);
    }
}
// long sequences of storing and looking up, against a model
void hammerNoise(const Act& a) {
    const int               p = pkgOf(a.a[0]);
    auto&                   d = P(p);
    std::vector<dd::dEdge>  es;
    int                     n = 0;
    for (auto& r: regs) {
        if (r.kind == 'D' && r.pkg == p) {
            auto e = r.d;
            dd::dEdge::alignDensityEdge(e);
            if (!e.isTerminal() && (n == 0 || r.n == n)) {
                n = r.n;
                es.push_back(e);
            }
        }
    }
    if (es.empty()) {
        return;
    }
    d.densityNoise.clear();
    noiseStored[p].clear();
    std::map<std::pair<std::size_t, unsigned>, dd::dEdge> model;
    const int                                             rounds = 50 + static_cast<int>(vr.below(600));
    const double                                          store  = 0.02 + 0.3 * vr.unit();
    for (int k = 0; k < rounds; ++k) {
        const auto         i = vr.below(es.size());
        const auto         u = static_cast<unsigned>(vr.below(1ULL << std::min(n, 4)));
        std::vector<Qubit> used;
        for (int q = 0; q < n && q < 4; ++q) {
            if (((u >> q) & 1U) != 0) {
                used.push_back(static_cast<Qubit>(q));
            }
        }
        heap::Repo h;
        if (vr.chance(store)) {
            const auto& y = es[vr.below(es.size())];
            d.densityNoise.insert(es[i], y, used);
            bool same = false; // operands that are the same diagram are one key
            for (auto& m: model) {
                if (m.first.second == u && es[m.first.first] == es[i]) {
                    m.second = y;
                    same     = true;
                }
            }
            if (!same) {
                model[{i, u}] = y;
            }
        }
        const auto e = d.densityNoise.lookup(es[i], used);
        if (e.p == nullptr) {
            continue;
        }
        bool ok = false;
        for (auto& m: model) {
            ok = ok || (m.first.second == u && es[m.first.first] == es[i] && m.second.p == e.p && std::hypot(wr(m.second.w) - wr(e.w), wi(m.second.w) - wi(e.w)) < 1e-10);
        }
        if (!ok) {
            c.fail("cache:densityNoise", strf("after %d operations the density noise cache returned something else than was last stored for this operand and these qubits", k));
        }
    }
    d.densityNoise.clear();
    SIM_COUNT(c, "probe.long_cache_histories");
}
void hammerStoch(const Act& a) {
    (void)a;
    if (plan.config == 0 && !vr.chance(0.2)) {
        return; // packages of the default size are expensive
    }
    heap::Repo h;
    const auto nq1 = 1 + vr.below(Pkg::MAX_POSSIBLE_QUBITS);
    auto       d   = std::make_unique<Pkg>(nq1);
    if (vr.chance(0.3)) {
        d->resize(std::min<std::size_t>(nq1 + vr.below(64), Pkg::MAX_POSSIBLE_QUBITS));
    }
    const auto             all = d->qubits();
    std::vector<dd::mEdge> es;
    for (int k = 0; k < 5; ++k) {
        es.push_back(d->makeGateDD(dd::U3mat(0.3 * k, 0.1 * k, 0.2 + k), 1, 0));
        d->incRef(es.back());
    }
    std::map<std::pair<int, int>, std::size_t> model;
    std::map<std::string, std::size_t>         tmodel;
    const int                                  rounds = 30 + static_cast<int>(vr.below(400));
    for (int k = 0; k < rounds; ++k) {
        const int  t = static_cast<int>(vr.below(all)), kind = static_cast<int>(vr.below(Config::STOCHASTIC_CACHE_OPS));
        const auto i = vr.below(es.size());
        if (vr.chance(0.4)) {
            d->stochasticNoiseOperationCache.insert(static_cast<std::uint8_t>(kind), static_cast<Qubit>(t), es[i]);
            model[{kind, t}] = i;
        }
        const auto e  = d->stochasticNoiseOperationCache.lookup(static_cast<std::uint8_t>(kind), static_cast<Qubit>(t));
        const auto it = model.find({kind, t});
        if ((it == model.end()) != (e.p == nullptr) || (e.p != nullptr && !(e == es[it->second]))) {
            c.fail("cache:stochastic", strf("on %zu qubits the stochastic noise cache returned %s for operation %d on qubit %d", all, e.p == nullptr ? "nothing" : it == model.end() ? "something that was never stored" : "something else than was stored", kind, t));
        }
        dd::Controls cs;
        std::string  key;
        const auto   nn = static_cast<QubitCount>(1 + vr.below(std::min<std::size_t>(all, 127)));
        for (uint64_t q = vr.below(3); q > 0; --q) {
            const int x = static_cast<int>(vr.below(all));
            if (x != t) {
                cs.insert(dd::Control{static_cast<Qubit>(x), vr.chance(0.5) ? dd::Control::Type::pos : dd::Control::Type::neg});
            }
        }
        for (auto& x: cs) {
            key += strf("%s%d ", x.type == dd::Control::Type::pos ? "+" : "-", static_cast<int>(x.qubit));
        }
        key += strf("t%d n%d", t, static_cast<int>(nn));
        if (vr.chance(0.5)) {
            d->toffoliTable.insert(nn, cs, static_cast<Qubit>(t), es[i]);
            tmodel[key] = i;
            const auto f = d->toffoliTable.lookup(nn, cs, static_cast<Qubit>(t));
            if (f.p == nullptr || !(f == es[i])) {
                c.fail("cache:toffoli", "an operator just stored in the Toffoli table is not found");
            }
        } else {
            const auto f  = d->toffoliTable.lookup(nn, cs, static_cast<Qubit>(t));
            const auto ti = tmodel.find(key);
            if (f.p != nullptr && (ti == tmodel.end() || !(f == es[ti->second]))) {
                c.fail("cache:toffoli", strf("on %zu qubits the Toffoli table returned an operator that was not stored for %s", all, key.c_str()));
            }
        }
    }
    d.reset();
    SIM_COUNT(c, "probe.long_cache_histories");
}
void opStoch(const Act& a) {
    if (vr.chance(0.05)) {
        return hammerStoch(a);
    }
    const int p = pkgOf(a.a[0]), n = std::max(1, std::min(maxN, 4));
    const int t    = static_cast<int>(vr.below(static_cast<uint64_t>(n)));
    const int kind = static_cast<int>(vr.below(Config::STOCHASTIC_CACHE_OPS));
    auto&     d    = P(p);
    const auto k   = std::make_pair(kind, t);
    const auto e   = call(a, [&] { return d.stochasticNoiseOperationCache.lookup(static_cast<std::uint8_t>(kind), static_cast<Qubit>(t)); });
    if (e.p != nullptr) {
        SIM_COUNT(c, "probe.stochastic_cache_hit");
        if (stoch[p].count(k) == 0) {
            c.fail("cache:stochastic", "the stochastic noise cache returned an operator nobody stored for this key");
        }
        expect("stochasticNoiseOperationCache", stoch[p][k].a, readM(e, n, 0));
        if (vr.chance(0.7)) {
            return;
        }
    }
    bool       exact = true;
    const auto g     = oneQubit(exact, nullptr, false);
    const Arr  want  = gateA(n, toArr(g), {t}, {});
    const auto m     = call(a, [&] { return d.makeGateDD(g, static_cast<QubitCount>(n), static_cast<Qubit>(t)); });
    call(a, [&] { d.stochasticNoiseOperationCache.insert(static_cast<std::uint8_t>(kind), static_cast<Qubit>(t), m); });
    stoch[p][k]     = {want, n, 0};
    const auto back = d.stochasticNoiseOperationCache.lookup(static_cast<std::uint8_t>(kind), static_cast<Qubit>(t));
    if (back.p == nullptr || !(back == m)) {
        c.fail("cache:stochastic", "an operator just stored in the stochastic noise cache is not found");
    }
}
// the same entry stored again and again around collections
void noiseAroundCollections(const Reg& xr, const Act& a) {
    const Reg x  = xr;
    auto      al = x.d;
    dd::dEdge::alignDensityEdge(al);
    auto&              d = P(x.pkg);
    std::vector<Qubit> used;
    if (vr.chance(0.7)) {
        used.push_back(static_cast<Qubit>(vr.below(static_cast<uint64_t>(x.n))));
    }
    const int  n     = x.n;
    auto       fresh = [&](Arr& val) { // a diagonal operator nobody references
        heap::Repo  h;
        dd::dEdge   e = dd::dEdge::one;
        val           = Arr{{1, 0}};
        std::size_t M = 1;
        for (int q = 0; q < n; ++q) {
            const double u = 0.05 + 0.9 * vr.unit();
            auto         f = e;
            f.w            = d.cn.lookup(wr(e.w) * u, wi(e.w) * u);
            e              = d.makeDDNode(static_cast<Qubit>(q), std::array{e, dd::dEdge::zero, dd::dEdge::zero, f});
            val            = kronM(Arr{{1, 0}, {0, 0}, {0, 0}, {u, 0}}, 2, val, M);
            M *= 2;
        }
        return e;
    };
    auto meaning = [&](const dd::dEdge& e) {
        Arr v(1ULL << (2 * n));
        readDRec(e.p, {1, 0}, false, e.w, n - 1, 0, 0, 1ULL << n, v);
        return v;
    };
    Arr       want;
    const int rounds = 2 + static_cast<int>(vr.below(4));
    for (int i = 0; i < rounds; ++i) {
        if (i == 0 || vr.chance(0.8)) {
            auto y = fresh(want);
            call(a, [&] { d.densityNoise.insert(al, y, used); });
            const auto e = call(a, [&] { return d.densityNoise.lookup(al, used); });
            if (e.p == nullptr) {
                c.fail("cache:densityNoise", "an operator just stored in the density noise cache is not found");
            }
            expect("densityNoise", want, meaning(e));
        }
        if (vr.chance(0.85)) {
            forcedGC(x.pkg);
            for (int k = 0; k < 3; ++k) {
                Arr other;
                fresh(other); // takes the memory of what was collected
            }
        }
        const auto e = call(a, [&] { return d.densityNoise.lookup(al, used); });
        if (e.p != nullptr) {
            expect("densityNoise after a collection", want, meaning(e));
        }
    }
    forcedGC(x.pkg);
    const auto e = call(a, [&] { return d.densityNoise.lookup(al, used); });
    if (e.p != nullptr) { // must not be what is now garbage; remembered so that later lookups are judged alike
        Stored s;
        s.used    = used;
        s.operand = meaning(al);
        s.result  = want;
        noiseStored[x.pkg].push_back(s);
    }
    SIM_COUNT(c, "probe.noise_cache_refilled_around_collections");
}
void opDNoise(const Act& a) {
    if (vr.chance(0.05)) {
        return hammerNoise(a);
    }
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'D'; });
    if (x == nullptr) {
        return;
    }
    auto al = x->d;
    dd::dEdge::alignDensityEdge(al);
    if (al.isTerminal()) {
        return;
    }
    if (x->held > 0 && vr.chance(0.2)) {
        return noiseAroundCollections(*x, a);
    }
    auto&              d = P(x->pkg);
    std::vector<Qubit> used;
    for (int q = 0; q < x->n; ++q) {
        if (vr.chance(0.5)) {
            used.push_back(static_cast<Qubit>(q));
        }
    }
    const uint64_t sig = (x->d.p == al.p ? 0 : 1);
    // which diagram (by meaning) and which qubits the entry was stored for
    std::string key = std::to_string(x->n) + (sig ? "d" : "m");
    for (auto q: used) {
        key += ":" + std::to_string(q);
    }
    const auto e = call(a, [&] { return d.densityNoise.lookup(al, used); });
    if (e.p != nullptr) {
        SIM_COUNT(c, "probe.density_noise_hit");
        bool ok = false;
        Arr  got(1ULL << (2 * x->n));
        readDRec(e.p, {1, 0}, false, e.w, x->n - 1, 0, 0, 1ULL << x->n, got);
        Arr me(got.size());
        readDRec(al.p, {1, 0}, false, al.w, x->n - 1, 0, 0, 1ULL << x->n, me);
        for (auto& s: noiseStored[x->pkg]) {
            if (s.used == used && maxDiff(s.operand, me) < 1e-10 && maxDiff(s.result, got) < 1e-9) {
                ok = true;
            }
        }
        if (!ok) {
            c.fail("cache:densityNoise", "the density noise cache returned something that was not stored for this operand and these qubits");
        }
        return;
    }
    Reg* y = pick(a.a[1], [&](const Reg& r) { return r.kind == 'D' && r.pkg == x->pkg && r.n == x->n; });
    auto yl = y->d;
    dd::dEdge::alignDensityEdge(yl);
    if (yl.isTerminal()) {
        return;
    }
    call(a, [&] { d.densityNoise.insert(al, yl, used); });
    Stored s;
    s.used = used;
    s.operand.resize(1ULL << (2 * x->n));
    s.result.resize(1ULL << (2 * x->n));
    readDRec(al.p, {1, 0}, false, al.w, x->n - 1, 0, 0, 1ULL << x->n, s.operand);
    readDRec(yl.p, {1, 0}, false, yl.w, x->n - 1, 0, 0, 1ULL << x->n, s.result);
    noiseStored[x->pkg].push_back(s);
}
struct Stored {
    std::vector<Qubit> used;
    Arr                operand, result;
};
std::vector<Stored> noiseStored[2];
