// ---- storage: serialisation, files, damaged data, transfer, graph export, ancilla/garbage reduction
int toPkg(const Reg& x, bool preferOther) {
    if (npkg == 2 && (preferOther || vr.chance(0.5))) {
        const int o = 1 - x.pkg;
        if (nq[o] >= static_cast<std::size_t>(x.lo + x.n)) {
            return o;
        }
    }
    return x.pkg;
}
// a diagram that has nodes below a non-zero root
static bool hasNodes(const Reg& r) { return r.kind == 'V' ? !r.v.isTerminal() : (r.kind == 'M' && !r.m.isTerminal()); }
void ser(const Reg& x, std::ostream& os, bool bin) {
    heap::Repo h;
    if (x.kind == 'V') {
        dd::serialize(x.v, os, bin);
    } else {
        dd::serialize(x.m, os, bin);
    }
}
void des(Reg& r, std::istream& is, bool bin) {
    heap::Repo h;
    if (r.kind == 'V') {
        r.v = P(r.pkg).template deserialize<dd::vNode>(is, bin);
    } else {
        r.m = P(r.pkg).template deserialize<dd::mNode>(is, bin);
    }
}
int chunkSize() {
    static const int k[] = {1, 2, 3, 5, 7, 8, 9, 16, 33, 100, 1000, 4096};
    return k[vr.below(12)];
}
bool nonZero(const Reg& r) { return maxAbs(r.a) > 0; }
std::string bytesOf(const Reg& x, bool bin) {
    std::ostringstream os;
    ser(x, os, bin);
    return os.str();
}
// a real number of any magnitude a weight may have
double oddReal() {
    const double sg = vr.chance(0.5) ? -1. : 1.;
    switch (vr.below(5)) {
        case 0: return 0.;
        case 1: return sg;
        case 2: return sg * std::pow(10., -12.4 + 4 * vr.unit());
        case 3: return sg * std::pow(10., -9. * vr.unit());
        default: return sg * vr.unit();
    }
}
// a diagram with numbers of very different magnitudes comes back
void serOdd(const Act& a) {
    const int p = pkgOf(a.a[1]), n = qubitsFor(a.a[2], p, 3);
    Reg       r = mk(vr.chance(0.5) ? 'V' : 'M', p, n, 0, false);
    {
        heap::Repo h;
        if (r.kind == 'V') {
            dd::CVec v(1ULL << n);
            for (auto& z: v) {
                z = {oddReal(), oddReal()};
            }
            r.v = P(p).makeStateFromVector(v);
        } else {
            dd::GateMatrix g{};
            for (auto& z: g) {
                z = {oddReal(), oddReal()};
            }
            r.m = P(p).makeGateDD(g, static_cast<QubitCount>(n), static_cast<Qubit>(vr.below(static_cast<uint64_t>(n))));
        }
    }
    r.a            = read(r);
    const Arr want = r.a;
    const bool bin = vr.chance(0.5);
    const auto bytes = bytesOf(r, bin);
    std::istringstream is(bytes);
    Reg                back = mk(r.kind, toPkg(r, false), n, 0, false);
    try {
        des(back, is, bin);
    } catch (const std::exception& ex) {
        c.fail("exception:deserialize", std::string("reading back an intact serialised diagram failed: ") + ex.what());
    }
    const Arr got = read(back);
    expect("serialisation round trip", want, got, 1);
    if (!(maxDiff(want, got) <= 1e-10 * std::fmax(1., maxAbs(want)))) {
        c.fail("result:serialisation round trip", strf("numbers changed on the way: expected %s got %s", show(want).c_str(), show(got).c_str()));
    }
    SIM_COUNT(c, "probe.odd_number_round_trips");
}
// a decision diagram without nodes: the number on its only edge
void serScalar(const Act& a) {
    const int    p  = pkgOf(a.a[1]);
    const double mg = vr.chance(0.3) ? 0. : (vr.chance(0.5) ? 1. : 0.1 + vr.unit());
    const double ph = vr.chance(0.5) ? 0. : vr.unit() * 6;
    const bool   bin = vr.chance(0.5), mat = vr.chance(0.5), odd = vr.chance(0.6);
    std::stringstream st;
    auto go = [&](auto node) {
        using N = decltype(node);
        dd::Edge<N> e{N::terminal, dd::Complex::zero};
        dd::Edge<N> r{};
        {
            heap::Repo h;
            e.w = odd ? P(p).cn.lookup(oddReal(), oddReal()) : P(p).cn.lookup(mg * std::cos(ph), mg * std::sin(ph));
        }
        const double er = wr(e.w), ei = wi(e.w);
        try {
            heap::Repo h;
            dd::serialize(e, st, bin);
            r = P(p).template deserialize<N>(st, bin);
        } catch (const std::exception& ex) {
            c.fail("exception:deserialize", std::string("reading back an intact serialised number failed: ") + ex.what());
        }
        if (!r.isTerminal() || std::hypot(wr(r.w) - er, wi(r.w) - ei) > 1e-12) {
            c.fail("result:serialisation round trip", strf("a diagram without nodes came back changed: %.17g%+.17gi instead of %.17g%+.17gi", wr(r.w), wi(r.w), er, ei));
        }
    };
    if (mat) {
        go(dd::mNode{});
    } else {
        go(dd::vNode{});
    }
    SIM_COUNT(c, "probe.number_round_trips");
}
void opSer(const Act& a) {
    if (vr.chance(0.04)) {
        return serScalar(a);
    }
    if (!exactWorld && vr.chance(0.05)) {
        return serOdd(a);
    }
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D'; });
    if (x == nullptr) {
        return;
    }
    const bool bin = vr.chance(0.5);
    SimOut     out(vr.next(), vr.chance(0.2) ? 0 : chunkSize());
    {
        std::ostream os(&out);
        try {
            ser(*x, os, bin);
        } catch (const std::exception& ex) {
            c.fail("exception:serialize", std::string("serialize threw: ") + ex.what());
        }
        os.flush();
        if (!os.good()) {
            c.fail("io:spurious", "serialize left a healthy stream in an error state");
        }
    }
    if (bin && out.medium != bytesOf(*x, true)) {
        c.fail("io:bytes", "the same diagram serialised twice gives different bytes");
    }
    Reg  r = mk(x->kind, toPkg(*x, false), x->n, x->lo, x->exact);
    r.unit = x->unit;
    SimIn        in(out.medium, vr.next(), chunkSize());
    std::istream is(&in);
    const Arr    want = x->a;
    SIM_COUNTN(c, "fault.chunked_stream", 1);
    try {
        des(r, is, bin);
    } catch (const std::exception& ex) {
        c.fail("exception:deserialize", std::string("reading back an intact serialised diagram failed: ") + ex.what());
    }
    SIM_COUNTN(c, "fault.short_stream_transfer", in.refills);
    produce("serialisation round trip", r, want, a.a[4]);
}
// the medium stops taking data at some byte: the caller can see it on the stream
void opSerFaultW(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && hasNodes(r); });
    if (x == nullptr) {
        return;
    }
    const bool  bin  = vr.chance(0.5);
    const auto  full = bytesOf(*x, bin);
    const auto  lim  = vr.below(full.size());
    SimOut      out(vr.next(), vr.chance(0.2) ? 0 : chunkSize(), lim, vr.chance(0.5));
    std::ostream os(&out);
    bool        thrown = false;
    try {
        ser(*x, os, bin);
        os.flush();
    } catch (const std::exception&) {
        thrown = true;
    }
    SIM_COUNT(c, "fault.medium_full_during_serialize");
    if (!thrown && os.good()) {
        c.fail("io:silent", strf("only %zu of %zu bytes reached the medium but serialize reported success", out.medium.size(), full.size()));
    }
}
// byte offsets at which a serialised diagram may end without anybody being able to tell
static std::set<std::size_t> boundaries(const std::string& s, bool bin, bool mat) {
    std::set<std::size_t> b;
    if (bin) {
        const std::size_t rec = 8 + 1 + (mat ? 4U : 2U) * 24;
        for (std::size_t k = 24; k <= s.size(); k += rec) {
            b.insert(k);
        }
        return b;
    }
    std::size_t nl = 0;
    for (std::size_t k = 0; k < s.size(); ++k) {
        if (s[k] == '\n') {
            b.insert(k);
            b.insert(k + 1);
            ++nl;
        }
    }
    return b;
}
void opSerFaultR(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && hasNodes(r); });
    if (x == nullptr) {
        return;
    }
    const bool bin  = vr.chance(0.6);
    const auto full = bytesOf(*x, bin);
    const bool err  = vr.chance(0.5);
    Reg        r    = mk(x->kind, toPkg(*x, false), x->n, x->lo, false);
    const Arr  want = x->a;
    std::size_t cut = vr.below(full.size());
    const auto  bd  = boundaries(full, bin, x->kind == 'M');
    if (vr.chance(0.3)) {
        auto it = bd.lower_bound(cut);
        if (it != bd.end() && *it < full.size()) {
            cut = *it;
        }
    }
    SimIn        in(full, vr.next(), chunkSize(), err ? SimIn::Error : SimIn::Eof, cut);
    std::istream is(&in);
    bool         thrown = false;
    try {
        des(r, is, bin);
    } catch (const std::exception&) {
        thrown = true;
    }
    if (err) {
        SIM_COUNT(c, "fault.read_error_during_deserialize");
    } else {
        SIM_COUNT(c, "fault.premature_end_during_deserialize");
    }
    c.hd(thrown ? 1 : 0);
    if (thrown) {
        return;
    }
    if (!in.faulted) {
        // the reader never noticed the defect: it must have obtained everything
        return produceLoaded(r, want, a);
    }
    if (err) {
        c.fail("io:silent", strf("the medium failed after %zu of %zu bytes but deserialize returned a diagram without any error", cut, full.size()));
    }
    // ended early: tolerated only where the text cannot show it (between complete records, or inside the
    // line of the root weight, a number that is just shorter)
    std::size_t firstRecord = bin ? 24 : full.find('\n', full.find('\n') + 1) + 1;
    if (cut >= firstRecord && bd.count(cut) == 0) {
        c.fail("io:silent", strf("the data ended after %zu of %zu bytes, in the middle of a node record, but deserialize returned a diagram without any error", cut, full.size()));
    }
    checkLoadedShape(r);
}
void produceLoaded(Reg& r, const Arr& want, const Act& a) { produce("serialisation round trip", r, want, a.a[4]); }

// whatever deserialize accepts is a decision diagram of this package: reachable nodes exist, sit on levels of the
// package, never skip levels, and carry finite numbers
template<class E>
void shapeRec(const E& e, int p, int& bottom, std::unordered_set<const void*>& seen, int depth) {
    if (e.p == nullptr || e.w.r == nullptr || e.w.i == nullptr) {
        c.fail("corrupt:shape", "deserialize accepted damaged data and returned a diagram with a null pointer");
    }
    if (!std::isfinite(wr(e.w)) || !std::isfinite(wi(e.w))) {
        c.fail("corrupt:shape", "deserialize accepted damaged data and returned a diagram with a weight that is not a finite number");
    }
    if (e.isTerminal()) {
        return;
    }
    if (depth > 130) {
        c.fail("corrupt:shape", "deserialize returned a cyclic diagram");
    }
    if (e.p->v < 0 || static_cast<std::size_t>(e.p->v) >= nq[p]) {
        c.fail("corrupt:shape", strf("deserialize accepted damaged data and returned a node on level %d of a package with %zu levels", e.p->v, nq[p]));
    }
    if (!seen.insert(e.p).second) {
        return;
    }
    for (auto& k: e.p->e) {
        if (isZeroW(k.w)) {
            if (!k.isTerminal()) {
                c.fail("corrupt:shape", "deserialize returned a zero edge that does not point to the terminal");
            }
            continue;
        }
        if (k.isTerminal()) {
            if (bottom == -1) {
                bottom = e.p->v;
            }
            if (bottom != e.p->v) {
                c.fail("corrupt:shape", "deserialize accepted damaged data and returned a diagram that skips levels");
            }
        } else if (k.p != nullptr && k.p->v != e.p->v - 1) {
            c.fail("corrupt:shape", strf("deserialize accepted damaged data and returned a diagram whose level %d is followed by level %d", e.p->v, k.p->v));
        }
        shapeRec(k, p, bottom, seen, depth + 1);
    }
}
void checkLoadedShape(Reg& r) {
    int                             bottom = -1;
    std::unordered_set<const void*> seen;
    if (r.kind == 'V') {
        shapeRec(r.v, r.pkg, bottom, seen, 0);
    } else {
        shapeRec(r.m, r.pkg, bottom, seen, 0);
    }
    // ... and can be used like any other
    const bool nodes = r.kind == 'V' ? !r.v.isTerminal() : !r.m.isTerminal();
    if (!nodes) {
        return;
    }
    incR(r);
    heap::Repo h;
    if (r.kind == 'V') {
        P(r.pkg).size(r.v);
    } else {
        P(r.pkg).size(r.m);
    }
    decR(r);
}
void put64(std::string& s, std::size_t at, const void* v) {
    if (at + 8 <= s.size()) {
        std::memcpy(&s[at], v, 8);
    }
}
std::string damage(std::string s, bool bin, bool mat) {
    const std::size_t ne  = mat ? 4 : 2;
    const std::size_t rec = 9 + ne * 24;
    const int         rounds = 1 + static_cast<int>(vr.below(3));
    for (int k = 0; k < rounds && !s.empty(); ++k) {
        const std::size_t nr = bin && s.size() >= 24 ? (s.size() - 24) / rec : 0;
        switch (vr.below(bin ? 11 : 9)) {
            case 0: s[vr.below(s.size())] ^= static_cast<char>(1U << vr.below(8)); break; // bit flip
            case 1: s[vr.below(s.size())] = static_cast<char>(vr.below(256)); break;
            case 2: { // a lost sector
                const auto at = vr.below(s.size()), n = 1 + vr.below(std::min<std::size_t>(64, s.size() - at));
                s.erase(at, n);
                break;
            }
            case 3: { // a duplicated sector
                const auto at = vr.below(s.size()), n = 1 + vr.below(std::min<std::size_t>(64, s.size() - at));
                s.insert(at, s.substr(at, n));
                break;
            }
            case 4: { // zeroed sector
                const auto at = vr.below(s.size());
                for (std::size_t i = at; i < std::min(s.size(), at + 1 + vr.below(32)); ++i) {
                    s[i] = 0;
                }
                break;
            }
            default:
                if (bin && nr > 0) {
                    const auto at = 24 + rec * vr.below(nr);
                    switch (vr.below(6)) {
                        case 0: { // node index
                            const int64_t v = static_cast<int64_t>(vr.below(40)) - 3;
                            put64(s, at, &v);
                            break;
                        }
                        case 1: s[at + 8] = static_cast<char>(vr.below(256)); break; // level
                        case 2: s[at + 8] = static_cast<char>(vr.below(nr + 3)); break;
                        case 3: { // child index
                            const int64_t pool[] = {0, 1, 2, -1, -2, -3, 100, static_cast<int64_t>(nr), 1LL << 40};
                            put64(s, at + 9 + 24 * vr.below(ne), &pool[vr.below(9)]);
                            break;
                        }
                        case 4: { // weight
                            const double pool[] = {NAN, INFINITY, -INFINITY, 1e308, -1e308, 1e20, 0., 1e-310, 17.5, -0.};
                            put64(s, at + 9 + 24 * vr.below(ne) + 8 + 8 * vr.below(2), &pool[vr.below(10)]);
                            break;
                        }
                        default: { // records swapped
                            const auto o = 24 + rec * vr.below(nr);
                            const auto t = s.substr(o, rec), u = s.substr(at, rec);
                            s.replace(at, rec, t);
                            s.replace(o, rec, u);
                        }
                    }
                } else if (!bin) {
                    static const char* tok[] = {"7", "-1", "-2", "99", "(", ")", " ", "1e400", "1e308", "i", "-", "\n", "#", "nan", "3 4 (", "()", "4294967296", "."};
                    const auto at = vr.below(s.size());
                    if (vr.chance(0.5)) {
                        s.insert(at, tok[vr.below(18)]);
                    } else { // replace a number
                        const auto d = s.find_first_of("0123456789", at);
                        if (d != std::string::npos) {
                            s.replace(d, 1, tok[vr.below(18)]);
                        }
                    }
                } else if (bin && s.size() >= 24) {
                    const double pool[] = {NAN, INFINITY, 1e308, 1e20};
                    put64(s, 8 + 8 * vr.below(2), &pool[vr.below(4)]);
                }
        }
    }
    return s;
}
void opCorrupt(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && hasNodes(r); });
    if (x == nullptr) {
        return;
    }
    const bool bin  = vr.chance(0.6);
    const auto full = bytesOf(*x, bin);
    std::string bad = vr.chance(0.9) ? damage(full, bin, x->kind == 'M') : full;
    Reg         r   = mk(vr.chance(0.9) ? x->kind : (x->kind == 'V' ? 'M' : 'V'), vr.chance(0.7) ? x->pkg : pkgOf(a.a[1]), x->n, x->lo, false);
    const bool  readBin = vr.chance(0.95) ? bin : !bin;
    if (bad == full && vr.chance(0.5) && bin) {
        bad[vr.below(8)] ^= static_cast<char>(1U << vr.below(8)); // a different format version
        r.kind           = x->kind;
        std::istringstream is(bad);
        bool               thrown = false;
        try {
            des(r, is, true);
        } catch (const std::exception&) {
            thrown = true;
        }
        SIM_COUNT(c, "fault.wrong_format_version");
        if (!thrown) {
            c.fail("corrupt:version", "data of a different format version was accepted");
        }
        return;
    }
    if (bad == full && !bin && vr.chance(0.5)) {
        static const char* vs[] = {"0", "2", "3", "10", "17", "-1", "255", "257", "4294967297"};
        bad                     = vs[vr.below(9)] + full.substr(full.find('\n'));
        r.kind                  = x->kind;
        std::istringstream is(bad);
        bool               thrown = false;
        try {
            des(r, is, false);
        } catch (const std::exception&) {
            thrown = true;
        }
        SIM_COUNT(c, "fault.wrong_format_version");
        if (!thrown) {
            c.fail("corrupt:version", "text of a different format version was accepted");
        }
        return;
    }
    SimIn        in(bad, vr.next(), chunkSize());
    std::istream is(&in);
    SIM_COUNT(c, "fault.damaged_data");
    bool thrown = false;
    try {
        des(r, is, readBin);
    } catch (const std::exception&) {
        thrown = true;
        SIM_COUNT(c, "probe.damage_rejected");
    }
    c.hd(thrown ? 1 : 0);
    if (!thrown) {
        SIM_COUNT(c, "probe.damage_accepted_as_some_diagram");
        checkLoadedShape(r);
    }
    if (vr.chance(0.3)) {
        forcedGC(r.pkg);
    }
}

// ---- files
static const char* simPath() { return "/simfs/dd.bin"; }
void serFile(const Reg& x, bool bin) {
    heap::Repo        h;
    const std::string f = simPath();
    if (x.kind == 'V') {
        dd::serialize(x.v, f, bin);
    } else {
        dd::serialize(x.m, f, bin);
    }
}
void desFile(Reg& r, bool bin, const std::string& f) {
    heap::Repo h;
    if (r.kind == 'V') {
        r.v = P(r.pkg).template deserialize<dd::vNode>(f, bin);
    } else {
        r.m = P(r.pkg).template deserialize<dd::mNode>(f, bin);
    }
}
void ioStats(const fs::Stats& before) {
    const auto& s = fs::stats();
    SIM_COUNTN(c, "fault.short_file_transfer", s.shorts - before.shorts);
    SIM_COUNTN(c, "fault.interrupted_system_call", s.eintrs - before.eintrs);
    SIM_COUNTN(c, "fault.file_io_error", s.errors - before.errors);
    SIM_COUNTN(c, "fault.disk_full", s.full - before.full);
    SIM_COUNTN(c, "fault.close_error", s.closeErr - before.closeErr);
    SIM_COUNTN(c, "fault.open_error", s.openErr - before.openErr);
}
// transient conditions (short transfers, interrupted calls) are not visible to the user at all
void opFileIO(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D'; });
    if (x == nullptr) {
        return;
    }
    const bool bin = vr.chance(0.5);
    fs::Faults f;
    f.seed    = vr.next();
    f.shortIo = vr.chance(0.7);
    fs::setFaults(f);
    const auto before = fs::stats();
    if (vr.chance(0.4)) { // something longer was there before
        fs::disk()[simPath()] = std::string(20000, 'z');
    }
    Reg        r = mk(x->kind, toPkg(*x, false), x->n, x->lo, x->exact);
    r.unit       = x->unit;
    const Arr want = x->a;
    const auto mem = bytesOf(*x, bin);
    try {
        serFile(*x, bin);
    } catch (const std::exception& ex) {
        c.fail("io:spurious", std::string("writing to a healthy disk failed: ") + ex.what());
    }
    if (fs::disk()[simPath()] != mem) {
        c.fail("io:bytes", strf("the file holds %zu bytes that are not the %zu bytes of the serialised diagram", fs::disk()[simPath()].size(), mem.size()));
    }
    try {
        desFile(r, bin, simPath());
    } catch (const std::exception& ex) {
        c.fail("io:spurious", std::string("reading from a healthy disk failed: ") + ex.what());
    }
    ioStats(before);
    fs::setFaults(fs::Faults{});
    produce("file round trip", r, want, a.a[4]);
}
// persistent failures are reported, and the next attempt on a healthy disk works
void opFileFault(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D' && hasNodes(r); });
    if (x == nullptr) {
        return;
    }
    const bool bin  = vr.chance(0.5);
    const auto full = bytesOf(*x, bin);
    fs::Faults f;
    f.seed            = vr.next();
    f.shortIo         = vr.chance(0.5);
    f.once            = vr.chance(0.5);
    const auto before = fs::stats();
    bool       writing = true;
    const char* what = "";
    const auto size  = static_cast<int64_t>(full.size());
    switch (vr.below(7)) {
        case 0:
            f.openFails = true;
            what        = "the file could not be created";
            break;
        case 1:
            f.writeErrAt = static_cast<int64_t>(vr.below(full.size()));
            what         = "a write failed";
            break;
        case 2:
            f.spaceLeft = static_cast<int64_t>(vr.below(full.size()));
            what        = "the disk was full";
            break;
        case 3:
            f.closeFails = true;
            what         = "closing the file failed";
            break;
        case 4:
            writing     = false;
            f.openFails = true;
            what        = "the file could not be opened";
            break;
        case 5:
            writing     = false;
            f.readErrAt = static_cast<int64_t>(vr.below(full.size()));
            what        = "a read failed";
            break;
        default:
            writing = false;
            what    = "the file does not exist";
    }
    (void)size;
    const Arr want = x->a;
    Reg       r    = mk(x->kind, toPkg(*x, false), x->n, x->lo, x->exact);
    r.unit         = x->unit;
    bool thrown = false;
    std::string path = simPath();
    if (!writing) {
        fs::setFaults(fs::Faults{});
        serFile(*x, bin);
        if (!f.openFails && f.readErrAt < 0) {
            path = "/simfs/missing";
        }
    }
    fs::setFaults(f);
    try {
        if (writing) {
            serFile(*x, bin);
        } else {
            desFile(r, bin, path);
        }
    } catch (const std::exception&) {
        thrown = true;
    }
    ioStats(before);
    fs::setFaults(fs::Faults{});
    if (!thrown) {
        c.fail("io:silent", strf("%s %s but %s reported success", what, writing ? "while writing a diagram" : "while reading a diagram", writing ? "serialize" : "deserialize"));
    }
    // healed
    try {
        serFile(*x, bin);
        desFile(r, bin, simPath());
    } catch (const std::exception& ex) {
        c.fail("io:heal", std::string("after the disk recovered the file round trip failed: ") + ex.what());
    }
    produce("file round trip", r, want, a.a[4]);
}
// amplitude lists and graphs written to files and streams that may fail
void opCopyExp(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return (r.kind == 'V' && r.lo == 0 && hasNodes(r)) || (r.kind == 'M' && hasNodes(r)); });
    if (x == nullptr) {
        return;
    }
    const bool bin = vr.chance(0.5);
    const bool dot = x->kind == 'M' || vr.chance(0.4);
    const bool col = vr.chance(0.5), lab = vr.chance(0.5), cls = vr.chance(0.3), mem = vr.chance(0.2), pol = vr.chance(0.5);
    const auto n   = static_cast<QubitCount>(x->n);
    auto       toStream = [&](std::ostream& os) {
        heap::Repo h;
        if (!dot) {
            P(x->pkg).exportAmplitudes(x->v, os, n, bin);
        } else if (x->kind == 'V') {
            dd::toDot(x->v, os, col, lab, cls, mem, pol);
        } else {
            dd::toDot(x->m, os, col, lab, cls, mem, pol);
        }
    };
    const char*        what = dot ? "the graph export" : "exportAmplitudes";
    std::ostringstream os;
    toStream(os);
    const auto full = os.str();
    if (full.empty()) {
        return;
    }
    if (vr.chance(0.35)) { // a stream whose medium takes only a part
        const bool   bad = vr.chance(0.8);
        SimOut       out(vr.next(), vr.chance(0.2) ? 0 : chunkSize(), bad ? vr.below(full.size()) : static_cast<std::size_t>(-1), vr.chance(0.5));
        std::ostream st(&out);
        bool         thrown = false;
        try {
            toStream(st);
            st.flush();
        } catch (const std::exception&) {
            thrown = true;
        }
        if (bad) {
            SIM_COUNT(c, "fault.medium_full_during_export");
            if (!thrown && st.good()) {
                c.fail("io:silent", strf("%s reported success although only a part of %zu bytes reached the medium", what, full.size()));
            }
        } else if (thrown || !st.good() || out.medium != full) {
            c.fail("io:bytes", strf("%s wrote something else to a healthy stream", what));
        }
        return;
    }
    fs::Faults f;
    f.seed    = vr.next();
    f.shortIo = vr.chance(0.5);
    f.once    = vr.chance(0.5);
    const bool bad = vr.chance(0.6);
    if (bad) {
        switch (vr.below(4)) {
            case 0: f.openFails = true; break;
            case 1: f.writeErrAt = static_cast<int64_t>(vr.below(full.size())); break;
            case 2: f.spaceLeft = static_cast<int64_t>(vr.below(full.size())); break;
            default: f.closeFails = true;
        }
    }
    const auto        before = fs::stats();
    const std::string path   = dot ? "/simfs/g.dot" : "/simfs/amps";
    const bool        shows  = dot && vr.chance(0.5); // a program is started on the finished file
    fs::commands().clear();
    fs::setFaults(f);
    bool thrown = false;
    try {
        heap::Repo h;
        if (!dot) {
            P(x->pkg).exportAmplitudes(x->v, path, n, bin);
        } else if (x->kind == 'V') {
            dd::export2Dot(x->v, path, col, lab, cls, mem, shows, pol);
        } else {
            dd::export2Dot(x->m, path, col, lab, cls, mem, shows, pol);
        }
    } catch (const std::exception&) {
        thrown = true;
    }
    ioStats(before);
    fs::setFaults(fs::Faults{});
    if (bad && !thrown) {
        c.fail("io:silent", strf("%s to a file reported success although the file could not be written", what));
    }
    if (!bad) {
        if (thrown) {
            c.fail("io:spurious", strf("%s to a healthy disk failed", what));
        }
        if (fs::disk()[path] != full) {
            c.fail("io:bytes", strf("the file written by %s does not hold what a stream gets", what));
        }
    }
    for (auto& cmd: fs::commands()) {
        SIM_COUNT(c, "probe.programs_started_on_a_file");
        if (cmd.disk[path] != full) {
            c.fail("io:bytes", strf("%s has the graph drawn from a file that does not hold all of it: %s", what, cmd.line.c_str()));
        }
    }
    fs::commands().clear();
}

// diagrams whose stored form exceeds every stream buffer, in packages of their own
void opBigIO(const Act& a) {
    (void)a;
    if (plan.config == 0 && !vr.chance(0.2)) {
        return; // packages of the default size are expensive
    }
    const bool  mat = vr.chance(0.4);
    const int   n   = mat ? 4 + static_cast<int>(vr.below(2)) : 8 + static_cast<int>(vr.below(3));
    bool        ex  = true;
    Arr         va;
    const auto  N = 1ULL << n;
    if (mat) {
        va.resize(N * N);
        for (auto& z: va) {
            z = amp(ex);
        }
    } else {
        va = randVec(n, ex, true);
        if (vr.chance(0.7)) {
            Rng g(vr.next());
            for (auto& z: va) {
                z = {(g.unit() - 0.5) / 16, (g.unit() - 0.5) / 16};
            }
        }
    }
    const auto           cvv  = mat ? dd::CVec{} : toC(va);
    const auto           cmm  = mat ? toCM(va, N) : dd::CMat{};
    const auto           lead = static_cast<std::size_t>(n) + vr.below(2);
    std::unique_ptr<Pkg> d, d2;
    dd::vEdge            v{};
    dd::mEdge            m{};
    {
        heap::Repo h;
        d  = std::make_unique<Pkg>(lead);
        d2 = std::make_unique<Pkg>(static_cast<std::size_t>(n));
        if (mat) {
            m = d->makeDDFromMatrix(cmm);
        } else {
            v = d->makeStateFromVector(cvv);
        }
    }
    if (mat ? m.isTerminal() : v.isTerminal()) {
        heap::Repo h;
        d.reset();
        d2.reset();
        return;
    }
    if (mat) {
        expect("makeDDFromMatrix (large)", va, readM(m, n));
    } else {
        expect("makeStateFromVector (large)", va, readV(v, n));
    }
    const bool bin  = vr.chance(0.5);
    const int  form = mat ? static_cast<int>(vr.below(5)) % 4 / 3 * 2 : static_cast<int>(vr.below(3)); // 0 serialised, 1 amplitudes, 2 graph
    auto       toStream = [&](std::ostream& os) {
        heap::Repo h;
        if (form == 0) {
            mat ? dd::serialize(m, os, bin) : dd::serialize(v, os, bin);
        } else if (form == 1) {
            d->exportAmplitudes(v, os, static_cast<QubitCount>(n), bin);
        } else if (mat) {
            dd::toDot(m, os, bin, false, bin, false, true);
        } else {
            dd::toDot(v, os, bin, false, bin, false, true);
        }
    };
    const std::string path   = "/simfs/large";
    auto              toFile = [&] {
        heap::Repo h;
        if (form == 0) {
            mat ? dd::serialize(m, path, bin) : dd::serialize(v, path, bin);
        } else if (form == 1) {
            d->exportAmplitudes(v, path, static_cast<QubitCount>(n), bin);
        } else if (mat) {
            dd::export2Dot(m, path, bin, false, bin, false, false, true);
        } else {
            dd::export2Dot(v, path, bin, false, bin, false, false, true);
        }
    };
    std::ostringstream os;
    toStream(os);
    const auto full = os.str();
    const auto bad  = vr.chance(0.65);
    const char* what = form == 0 ? "serialize" : form == 1 ? "exportAmplitudes" : "the graph export";
    SIM_COUNT(c, "probe.large_data_stored");
    if (vr.chance(0.3)) {
        SimOut       out(vr.next(), vr.chance(0.1) ? 0 : chunkSize(), bad ? vr.below(full.size()) : static_cast<std::size_t>(-1), vr.chance(0.5));
        std::ostream st(&out);
        bool         thrown = false;
        try {
            toStream(st);
            st.flush();
        } catch (const std::exception&) {
            thrown = true;
        }
        if (bad) {
            SIM_COUNT(c, "fault.medium_full_during_export");
            if (!thrown && st.good()) {
                c.fail("io:silent", strf("%s reported success although only a part of %zu bytes reached the medium", what, full.size()));
            }
        } else if (thrown || !st.good() || out.medium != full) {
            c.fail("io:bytes", strf("%s wrote something else to a healthy stream", what));
        }
    } else {
        fs::Faults f;
        f.seed    = vr.next();
        f.shortIo = vr.chance(0.5);
        f.once    = vr.chance(0.6);
        if (bad) {
            switch (vr.below(8)) {
                case 0: f.openFails = true; break;
                case 1: f.closeFails = true; break;
                case 2:
                case 3:
                case 4: f.spaceLeft = static_cast<int64_t>(vr.below(full.size())); break;
                default: f.writeErrAt = static_cast<int64_t>(vr.below(full.size()));
            }
        }
        const auto before = fs::stats();
        fs::disk().erase(path);
        fs::setFaults(f);
        bool thrown = false;
        try {
            toFile();
        } catch (const std::exception&) {
            thrown = true;
        }
        fs::setFaults(fs::Faults{});
        ioStats(before);
        if (bad && !thrown) {
            c.fail("io:silent", strf("%s to a file reported success although %zu bytes could not be written", what, full.size()));
        }
        if (!bad && thrown) {
            c.fail("io:spurious", strf("%s to a healthy disk failed", what));
        }
        if (!bad && fs::disk()[path] != full) {
            c.fail("io:bytes", strf("the file written by %s does not hold what a stream gets", what));
        }
    }
    if (form == 0) { // and back, in pieces, possibly cut
        auto&        dst  = vr.chance(0.6) ? *d2 : *d;
        const bool   lost = bad && vr.chance(0.5);
        const bool   err  = vr.chance(0.5);
        std::size_t  cut  = lost ? vr.below(full.size()) : 0;
        SimIn        in(full, vr.next(), chunkSize(), !lost ? SimIn::Ok : err ? SimIn::Error : SimIn::Eof, cut);
        std::istream is(&in);
        bool         thrown = false;
        try {
            heap::Repo h;
            if (mat) {
                m = dst.template deserialize<dd::mNode>(is, bin);
            } else {
                v = dst.template deserialize<dd::vNode>(is, bin);
            }
        } catch (const std::exception&) {
            thrown = true;
        }
        if (!lost) {
            if (thrown) {
                c.fail("io:spurious", "deserialize of a healthy stream failed");
            }
            if (mat) {
                expect("deserialize (large matrix)", va, readM(m, n));
            } else {
                expect("deserialize (large vector)", va, readV(v, n));
            }
            if (&dst == d.get() && (oracles & O_CANON) != 0) {
                heap::Repo h;
                const bool same = mat ? m == d->makeDDFromMatrix(cmm) : v == d->makeStateFromVector(cvv);
                if (!same && ex) {
                    c.fail("canon:large", "a large diagram loaded into its own package is a different diagram");
                }
            }
        } else if (!thrown && err) {
            c.fail("io:silent", strf("deserialize accepted %zu of %zu bytes", cut, full.size()));
        }
    }
    heap::Repo h;
    d.reset();
    d2.reset();
}

// ---- transfer between packages
void opTransfer(const Act& a) {
    if (vr.chance(0.08)) { // a scalar
        bool       ex = true;
        const C    z  = amp(ex);
        const auto p = pkgOf(a.a[0]), q = pkgOf(a.a[1]);
        heap::Repo h;
        auto       e = vr.chance(0.5) ? dd::vEdge::terminal(P(p).cn.lookup(z.r, z.i)) : dd::vEdge::one;
        const C    v{wr(e.w), wi(e.w)};
        auto       f = P(q).transfer(e);
        expectC("transfer of a scalar", v, {wr(f.w), wi(f.w)});
        auto       m = dd::mEdge::terminal(P(p).cn.lookup(z.r, z.i));
        auto       g = P(q).transfer(m);
        if ((oracles & O_CANON) != 0 && (f.p != dd::vNode::terminal || f.w != P(q).cn.lookup(v.r, v.i) || g.p != dd::mNode::terminal || g.w != P(q).cn.lookup(z.r, z.i))) {
            c.fail("canon:transfer", "a transferred scalar is not the one the receiving package builds itself");
        }
        return;
    }
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D'; });
    if (x == nullptr) {
        return;
    }
    if (x->n + x->lo > 1 && (x->kind == 'V' ? !x->v.isTerminal() : !x->m.isTerminal()) && vr.chance(plan.config == 0 ? 0.01 : 0.06)) {
        std::unique_ptr<Pkg> small;
        {
            heap::Repo h;
            small = std::make_unique<Pkg>(static_cast<std::size_t>(x->n + x->lo - 1 - static_cast<int>(vr.below(static_cast<uint64_t>(x->n + x->lo - 1)))));
        }
        rejected("transfer to a package that is too small", [&] {
            if (x->kind == 'V') {
                small->transfer(x->v);
            } else {
                small->transfer(x->m);
            }
        });
        if (small->vUniqueTable.getNodeCount() + small->mUniqueTable.getNodeCount() != 0 || small->cn.cacheCount() != 0) {
            c.fail("reject:transfer", "a rejected transfer left something behind");
        }
        heap::Repo h;
        small.reset();
        return;
    }
    Reg r  = mk(x->kind, toPkg(*x, true), x->n, x->lo, x->exact);
    r.unit = x->unit;
    const Arr  want = x->a;
    const auto idx  = static_cast<std::size_t>(x - regs.data());
    if (x->kind == 'V') {
        r.v = call(a, [&] { return P(r.pkg).transfer(regs[idx].v); });
    } else {
        r.m = call(a, [&] { return P(r.pkg).transfer(regs[idx].m); });
    }
    if (r.pkg != x->pkg) {
        SIM_COUNT(c, "probe.transfers_between_packages");
    }
    produce("transfer", r, want, a.a[4], true);
}

// ---- graph export: an independent parser of what was written
struct DotEdge {
    std::string from, port, to, line;
};
struct DotNode {
    std::string line;
};
// the value of a weight as it is shown: fractions of 1, of pi and of the square root of two, decimals, with a
// phase factor or with real and imaginary part
struct Shown {
    std::string s;
    std::size_t p  = 0;
    bool        ok = true;
    bool lit(const char* t) {
        const auto n = std::strlen(t);
        if (s.compare(p, n, t) == 0) {
            p += n;
            return true;
        }
        return false;
    }
    bool dec(double& v) {
        if (p >= s.size() || (std::isdigit(static_cast<unsigned char>(s[p])) == 0 && s[p] != '.')) {
            return false;
        }
        char* e = nullptr;
        v       = std::strtod(s.c_str() + p, &e);
        p       = static_cast<std::size_t>(e - s.c_str());
        return true;
    }
    // [sign] number, i and pi in any order, / denominator
    bool factor(double& v, bool& imag) {
        const auto from = p;
        double     sg   = 1;
        if (lit("-")) {
            sg = -1;
        } else {
            lit("+");
        }
        double n = 1;
        bool   any = dec(n);
        imag       = false;
        for (;;) {
            if (lit("i")) {
                imag = any = true;
            } else if (lit("\xcf\x80")) {
                n *= 3.14159265358979323846;
                any = true;
            } else {
                break;
            }
        }
        if (!any) {
            p = from;
            return false;
        }
        if (lit("/")) {
            double d = 1;
            if (lit("(")) {
                if (!dec(d) || !lit("\xe2\x88\x9a" "2") || !lit(")")) {
                    ok = false;
                }
                d *= std::sqrt(2.);
            } else if (lit("\xe2\x88\x9a" "2")) {
                d = std::sqrt(2.);
            } else if (!dec(d)) {
                ok = false;
            }
            n /= d;
        }
        v = sg * n;
        return true;
    }
    C value() {
        if (s.empty()) {
            ok = false;
            return {};
        }
        C      z{};
        double v = 1;
        bool   im = false;
        bool   first = false;
        if (s[0] != '\xe2') {
            if (factor(v, im)) {
                first = true;
                (im ? z.i : z.r) = v;
                if (lit("(1+i)")) {
                    z = {v, v};
                } else if (lit("(1-i)")) {
                    z = {v, -v};
                } else if (p < s.size() && (s[p] == '+' || s[p] == '-')) {
                    double w = 0;
                    bool   im2 = false;
                    if (!factor(w, im2) || !im2 || im) {
                        ok = false;
                    }
                    z.i = w;
                }
                lit(" ");
            } else {
                ok = false;
            }
        }
        if (lit("\xe2\x84\xaf(")) { // a phase factor e(i pi x)
            if (first && im) {
                ok = false;
            }
            const double sg = lit("-") ? -1 : 1;
            if (!lit("i\xcf\x80")) {
                ok = false;
            }
            double x = 1;
            bool   im2 = false;
            if (lit("/")) {
                p -= 1;
                s.insert(p, "1");
            } else {
                lit(" ");
            }
            if (!lit(")")) {
                if (!factor(x, im2) || im2 || !lit(")")) {
                    ok = false;
                }
            }
            const double ph = sg * x * 3.14159265358979323846;
            const double m  = first ? v : 1;
            z               = {m * std::cos(ph), m * std::sin(ph)};
        }
        if (p != s.size()) {
            ok = false;
        }
        return z;
    }
};
static std::string between(const std::string& l, const std::string& open, const std::string& close, std::size_t from = 0) {
    const auto t = l.find(open, from);
    if (t == std::string::npos) {
        return "?";
    }
    const auto b = t + open.size();
    const auto u = l.find(close, b);
    return u == std::string::npos ? "?" : l.substr(b, u - b);
}
template<class E>
void dotCheck(const E& e, const std::string& s, bool memory, bool colored, bool labels, bool polar, const std::string& mode) {
    auto bad = [&](const std::string& what) { c.fail("dot", "graph export (" + mode + "): " + what); };
    std::map<std::string, std::string> level; // node -> its line
    std::vector<DotEdge>               edges;
    std::string                        rootTo, rootLine;
    std::istringstream                 is(s);
    std::string                        line;
    bool closed = false;
    while (std::getline(is, line)) {
        if (closed) {
            bad("there is something after the end of the graph");
        }
        if (line == "}") {
            closed = true;
            continue;
        }
        if (line.rfind("root->", 0) == 0) {
            rootTo   = line.substr(6, line.find('[') - 6);
            rootLine = line;
            continue;
        }
        if (line.empty() || std::isalnum(static_cast<unsigned char>(line[0])) == 0 || line.rfind("digraph", 0) == 0 || line.rfind("root ", 0) == 0 || line.rfind("t ", 0) == 0) {
            continue;
        }
        const auto br = line.find('[');
        const auto ar = line.find("->");
        if (ar != std::string::npos && ar < br) {
            DotEdge    d;
            const auto c1 = line.find(':');
            d.from        = line.substr(0, c1);
            d.port        = line.substr(c1 + 1, line.find(':', c1 + 1) - c1 - 1);
            d.to          = line.substr(ar + 2, br - ar - 2);
            d.line        = line.substr(br);
            edges.push_back(d);
        } else if (br != std::string::npos) {
            const auto l = line.substr(0, br);
            if (level.count(l) != 0) {
                bad("two nodes share the identifier " + l);
            }
            level[l] = line.substr(br);
        }
    }
    if (!closed) {
        bad("the output is not complete");
    }
    // walk the diagram and the graph together
    std::map<const void*, std::string> name;
    std::map<std::string, const void*> back;
    std::size_t                        nEdges = 0;
    std::map<std::pair<std::string, std::string>, const DotEdge*> byPort;
    for (auto& d: edges) {
        if (!byPort.emplace(std::make_pair(d.from, d.port), &d).second) {
            bad("two edges leave port " + d.port + " of node " + d.from);
        }
    }
    auto shownOk = [&](const dd::Complex& w, const std::string& text) {
        const C z = cv(w);
        if (memory) {
            const auto v = parseAmplitudes(text + "\n");
            return v.size() == 1 && std::fabs(v[0].r - z.r) <= 6e-4 * std::fmax(1, std::fabs(z.r)) && std::fabs(v[0].i - z.i) <= 6e-4 * std::fmax(1, std::fabs(z.i));
        }
        Shown    sh{text};
        const C  v = sh.value();
        // the notation that was asked for: magnitude and phase, or real and imaginary part
        const bool ph = text.find("\xe2\x84\xaf") != std::string::npos;
        if (ph != polar && (ph || (std::fabs(z.r) > 1e-9 && std::fabs(z.i) > 1e-9))) {
            return false;
        }
        const double m = std::fmax(1, std::hypot(z.r, z.i));
        return sh.ok && std::fabs(v.r - z.r) <= 1e-5 * m && std::fabs(v.i - z.i) <= 1e-5 * m;
    };
    auto hex = [](const void* q) { return strf("%llx", static_cast<unsigned long long>(reinterpret_cast<std::uintptr_t>(q))); };
    auto numName = [&](Entry* n) -> std::string {
        return n == &dd::ComplexTable<>::zero ? "0" : n == &dd::ComplexTable<>::sqrt2_2 ? "\xe2\x88\x9a\xc2\xbd" : n == &dd::ComplexTable<>::one ? "1" : hex(n);
    };
    auto weightOk = [&](const dd::Complex& w, const std::string& l) {
        const C z = cv(w);
        if (!shownOk(w, between(l, "tooltip=\"", "\""))) {
            bad("a weight is shown as " + between(l, "tooltip=\"", "\"") + " but is " + show(Arr{z}));
        }
        if (labels) {
            const auto t = between(l, "label=<<font point-size=\"8\">&nbsp;", "</font>>");
            if (memory) {
                const auto want = w == dd::Complex::zero ? std::string("[0]") : w == dd::Complex::one ? std::string("[1]") : "[" + numName(w.r) + " " + numName(w.i) + "]";
                if (t != want) {
                    bad("an edge is labelled " + t + " but its weight is stored as " + want);
                }
            } else if (!shownOk(w, t)) {
                bad("an edge is labelled " + t + " but its weight is " + show(Arr{z}));
            }
        } else if (l.find("label=") != std::string::npos) {
            bad("an edge has a label although none were requested");
        }
        const double wd = std::atof(between(l, "penwidth=\"", "\"").c_str());
        if (std::fabs(wd - 3 * std::fmax(0.1, std::hypot(z.r, z.i))) > 1e-4 * std::fmax(1, wd)) {
            bad(strf("the weight %s is drawn with a line of width %g", show(Arr{z}).c_str(), wd));
        }
        if (memory || colored) {
            const double col = std::atof(between(l, "color=\"", " ").c_str());
            double       ph  = std::atan2(z.i, z.r) / (2 * 3.14159265358979323846) - col;
            ph -= std::round(ph);
            if (std::hypot(z.r, z.i) > 1e-9 && std::fabs(ph) > 1.1e-3) {
                bad(strf("the weight %s is drawn in the colour of phase %g", show(Arr{z}).c_str(), col));
            }
        } else if ((l.find("style=dashed") == std::string::npos) != w.approximatelyOne()) {
            bad(strf("the weight %s is drawn %s", show(Arr{z}).c_str(), w.approximatelyOne() ? "dashed" : "solid"));
        }
    };
    weightOk(e.w, rootLine);
    std::function<void(const E&, const std::string&)> walk = [&](const E& x, const std::string& l) {
        if (x.isTerminal()) {
            if (l != "t") {
                bad("an edge to the terminal is drawn to " + l);
            }
            return;
        }
        auto it = name.find(x.p);
        if (it != name.end()) {
            if (it->second != l) {
                bad("one node is drawn under two identifiers");
            }
            return;
        }
        if (!back.emplace(l, x.p).second) {
            bad("two different nodes are drawn under the identifier " + l);
        }
        name[x.p] = l;
        if (level.count(l) == 0) {
            bad("node " + l + " is used but not declared");
        }
        const auto& decl = level[l];
        const auto  last = decl.rfind("tooltip=\"");
        const auto  q    = std::to_string(static_cast<int>(x.p->v));
        const auto  tip  = last == std::string::npos ? std::string("?") : decl.substr(last + 9, decl.find('"', last + 9) - last - 9);
        if (memory) {
            if (tip != hex(x.p) || decl.find(">" + hex(x.p) + " ref: " + std::to_string(x.p->ref) + "<") == std::string::npos) {
                bad("a node shows another address or reference count than it has: " + decl);
            }
        } else {
            const auto sub = decl.find("q<sub>");
            const auto num = sub == std::string::npos ? std::string("?") : between(decl, "\">", "<", sub);
            if (tip != "q" + q || num != q) {
                bad("node of qubit " + q + " is labelled " + tip + "/" + num);
            }
        }
        for (std::size_t k = 0; k < x.p->e.size(); ++k) {
            auto&      y  = x.p->e[k];
            const auto d  = byPort.find({l, std::to_string(k)});
            const bool ex = d != byPort.end();
            const bool nz = memory ? !(y.w == dd::Complex::zero) : !y.w.approximatelyZero();
            if (ex != nz) {
                bad(strf("edge %zu of a node on level %d is %s", k, static_cast<int>(x.p->v), ex ? "drawn although it is zero" : "missing"));
            }
            // the cell of the successor inside the node
            const auto cell = decl.find("port=\"" + std::to_string(k) + "\"");
            if (cell == std::string::npos) {
                bad(strf("a node has no port %zu", k));
            }
            const auto text = between(decl, "tooltip=\"", "\"", cell);
            if (!shownOk(y.w, text)) {
                bad("the port of a successor shows the weight " + text + " but it is " + show(Arr{cv(y.w)}));
            }
            const auto body = decl.substr(cell, decl.find("</td>", cell) - cell);
            if ((body.find("color=\"white\"") != std::string::npos) != nz) {
                bad(strf("the port of a successor is %smarked as zero, its weight is ", nz ? "" : "not ") + show(Arr{cv(y.w)}));
            }
            if (ex) {
                ++nEdges;
                weightOk(y.w, d->second->line);
                walk(y, d->second->to);
            }
        }
    };
    walk(e, rootTo);
    if (nEdges != edges.size() || level.size() != name.size()) {
        bad(strf("%zu nodes and %zu edges are drawn, the diagram has %zu and %zu", level.size(), edges.size(), name.size(), nEdges));
    }
}
void opDot(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind != 'D'; });
    if (x == nullptr) {
        return;
    }
    const bool colored = vr.chance(0.5), labels = vr.chance(0.5), classic = vr.chance(0.4), memory = vr.chance(0.3), polar = vr.chance(0.5);
    const std::string mode = strf("%s%s%s%s%s", memory ? "memory " : "", colored ? "colored " : "", labels ? "labels " : "", classic ? "classic " : "", polar ? "polar" : "");
    const bool file = vr.chance(0.3) && plan.world != 2;
    std::string s;
    {
        std::ostringstream os;
        os.exceptions(std::ios::badbit);
        fs::setFaults(fs::Faults{});
        call(a, [&] {
            if (file) {
                if (x->kind == 'V') {
                    dd::export2Dot(x->v, std::string("/simfs/g.dot"), colored, labels, classic, memory, false, polar);
                } else {
                    dd::export2Dot(x->m, std::string("/simfs/g.dot"), colored, labels, classic, memory, false, polar);
                }
            } else {
                os.clear();
                os.str("");
                if (x->kind == 'V') {
                    dd::toDot(x->v, os, colored, labels, classic, memory, polar);
                } else {
                    dd::toDot(x->m, os, colored, labels, classic, memory, polar);
                }
            }
        });
        s = file ? fs::disk()["/simfs/g.dot"] : os.str();
    }
    if (x->kind == 'V') {
        dotCheck(x->v, s, memory, colored, labels, polar, mode);
    } else {
        dotCheck(x->m, s, memory, colored, labels, polar, mode);
    }
    SIM_COUNT(c, "probe.graphs_compared");
    // the list of edge weights: one line per edge
    std::ostringstream ws;
    std::vector<C>     want{x->kind == 'V' ? cv(x->v.w) : cv(x->m.w)};
    std::set<const void*> seen;
    auto gather = [&](auto& self, const auto& e) -> void {
        if (e.isTerminal() || !seen.insert(e.p).second) {
            return;
        }
        for (auto& k: e.p->e) {
            if (!k.w.approximatelyZero()) {
                want.push_back(cv(k.w));
                self(self, k);
            }
        }
    };
    {
        heap::Repo h;
        if (x->kind == 'V') {
            dd::exportEdgeWeights(x->v, ws);
        } else {
            dd::exportEdgeWeights(x->m, ws);
        }
    }
    if (x->kind == 'V') {
        gather(gather, x->v);
    } else {
        gather(gather, x->m);
    }
    auto got = parseAmplitudes(ws.str());
    if (got.size() != want.size()) {
        c.fail("dot:weights", strf("exportEdgeWeights wrote %zu weights, the diagram has %zu edges", got.size(), want.size()));
    }
    // matching of the multisets: every weight takes the closest line that is left
    std::vector<bool> used(got.size());
    for (auto& w: want) {
        double      best = 2.5e-5;
        std::size_t at   = got.size();
        for (std::size_t i = 0; i < got.size(); ++i) {
            const double d = std::fmax(std::fabs(got[i].r - w.r) / std::fmax(1, std::fabs(w.r)), std::fabs(got[i].i - w.i) / std::fmax(1, std::fabs(w.i)));
            if (!used[i] && d < best) {
                best = d;
                at   = i;
            }
        }
        if (at < got.size()) {
            used[at] = true;
        } else {
            c.fail("dot:weights", "exportEdgeWeights does not list the weight " + show(Arr{w}));
        }
    }
}

// ---- ancilla and garbage reduction
static std::vector<bool> flags(Rng& g, std::size_t n, double p) {
    std::vector<bool> f(n);
    for (std::size_t i = 0; i < n; ++i) {
        f[i] = g.chance(p);
    }
    return f;
}
static Arr zeroAnc(const Arr& m, std::size_t N, const std::vector<bool>& anc, bool regular) {
    Arr r = m;
    std::size_t mask = 0;
    for (std::size_t q = 0; q < anc.size(); ++q) {
        if (anc[q]) {
            mask |= 1ULL << q;
        }
    }
    for (std::size_t i = 0; i < N; ++i) {
        for (std::size_t j = 0; j < N; ++j) {
            if (((regular ? j : i) & mask) != 0) {
                r[i * N + j] = {};
            }
        }
    }
    return r;
}
void opRedAnc(const Act& a) {
    Reg* x = pick(a.a[0], [](const Reg& r) { return r.kind == 'M' && r.lo == 0 && r.held > 0; });
    if (x == nullptr) {
        return;
    }
    const auto idx = static_cast<std::size_t>(x - regs.data());
    splitRefs(*x);
    const auto anc     = flags(vr, static_cast<std::size_t>(regs[idx].n), 0.4);
    const bool regular = vr.chance(0.6);
    const Arr  want    = zeroAnc(regs[idx].a, regs[idx].N(), anc, regular);
    auto       f       = call(a, [&] { return P(regs[idx].pkg).reduceAncillae(regs[idx].m, anc, regular); });
    Reg&       r       = regs[idx]; // the caller's reference now belongs to the result
    r.m                = f;
    r.a                = read(r);
    r.id               = nextId++;
    expect("reduceAncillae", want, r.a);
    checkCanon(r);
    SIM_COUNT(c, "probe.ancilla_reductions");
}
// a permutation of the other qubits, and on one qubit a matrix whose entries are merged with their weights. (Sums
// of magnitude above one are outside the statement: the package caps weights there)
void garbWeights(const Act& a, int p, int n, const std::vector<bool>& garb, std::size_t mask, bool regular, double part, const std::vector<std::size_t>& perm) {
    const auto  N = 1ULL << n, H = N / 2;
    const auto  g = vr.below(static_cast<std::uint64_t>(n));
    const C     ph[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}};
    C           G[2][2]; // [line that is merged][the other index]
    const int   lead = static_cast<int>(vr.below(2)), big = static_cast<int>(vr.below(2));
    G[big][lead]     = {1, 0};
    const double x = static_cast<double>(1 + vr.below(7)) / 8, y = vr.chance(0.2) ? 0 : (1 - x) * static_cast<double>(1 + vr.below(7)) / 8;
    const C      u = ph[vr.below(4)], w = ph[vr.below(4)];
    G[0][1 - lead] = {u.r * x, u.i * x};
    G[1][1 - lead] = {w.r * y, w.i * y};
    if (vr.chance(0.5)) {
        std::swap(G[0][1 - lead], G[1][1 - lead]);
    }
    std::vector<std::size_t> q; // the permutation of the other qubits
    for (auto k: perm) {
        if (k < H) {
            q.push_back(k);
        }
    }
    auto put = [&](std::size_t k, std::size_t bit) { return (k >> g << (g + 1)) | bit << g | (k & ((1ULL << g) - 1)); };
    Arr  m(N * N), want(N * N);
    for (std::size_t j = 0; j < H; ++j) {
        if (j > 0 && vr.chance(part)) {
            continue;
        }
        for (std::size_t s = 0; s < 2; ++s) {
            for (std::size_t t = 0; t < 2; ++t) {
                const auto line = put(q[j], s), other = put(j, t);
                auto&      z  = regular ? m[line * N + other] : m[other * N + line];
                auto&      zw = regular ? want[(line & ~mask) * N + other] : want[other * N + (line & ~mask)];
                z             = G[s][t];
                zw            = zw + G[s][t];
            }
        }
    }
    const auto cm = toCM(m, N);
    Reg        r  = mk('M', p, n, 0, true);
    r.m           = call(a, [&] { return P(p).makeDDFromMatrix(cm); });
    incR(r);
    r.m           = call(a, [&] { return P(p).reduceGarbage(r.m, garb, regular); });
    const Arr got = read(r);
    expect("reduceGarbage(weighted)", want, got);
    SIM_COUNT(c, "probe.garbage_reductions_weighted");
    decR(r);
}
void opRedGarb(const Act& a) {
    const int  p = pkgOf(a.a[0]), n = std::max(1, qubitsFor(a.a[1], p, 3));
    const auto N = 1ULL << n;
    const auto garb = flags(vr, static_cast<std::size_t>(n), 0.45);
    std::size_t mask = 0;
    for (std::size_t q = 0; q < garb.size(); ++q) {
        mask |= garb[q] ? 1ULL << q : 0;
    }
    if (vr.chance(0.3)) { // a basis state
        if (vr.chance(0.4)) { // or several that the reduction does not superimpose
            Arr    v(N), want(N);
            double s = 0;
            for (std::size_t k = 0; k < N; ++k) {
                if ((k & mask) == 0 && vr.chance(0.7)) {
                    const double x = 0.1 + vr.unit();
                    v[k | (vr.below(N) & mask)] = {x, 0};
                    want[k]                     = {x, 0};
                    s += x * x;
                }
            }
            if (s > 0) {
                for (std::size_t k = 0; k < N; ++k) {
                    v[k]    = {v[k].r / std::sqrt(s), 0};
                    want[k] = {want[k].r / std::sqrt(s), 0};
                }
                const auto cvv = toC(v);
                Reg        r   = mk('V', p, n, 0, false);
                r.v            = call(a, [&] { return P(p).makeStateFromVector(cvv); });
                incR(r);
                r.v = call(a, [&] { return P(p).reduceGarbage(r.v, garb); });
                expect("reduceGarbage(states that do not interfere)", want, read(r));
                decR(r);
            }
            return;
        }
        const auto        i = vr.below(N);
        std::vector<bool> st;
        for (int q = 0; q < n; ++q) {
            st.push_back((i >> q & 1U) != 0);
        }
        Reg r = mk('V', p, n, 0, true);
        r.v   = call(a, [&] { return P(p).makeBasisState(static_cast<QubitCount>(n), st); });
        incR(r);
        r.v = call(a, [&] { return P(p).reduceGarbage(r.v, garb); });
        Arr want(N);
        want[i & ~mask] = {1, 0};
        const Arr got   = read(r);
        expect("reduceGarbage(state)", want, got);
        decR(r);
        return;
    }
    const bool               regular = vr.chance(0.6);
    std::vector<std::size_t> perm;
    for (std::size_t i = 0; i < N; ++i) {
        perm.push_back(i);
    }
    for (std::size_t i = N; i > 1; --i) {
        std::swap(perm[i - 1], perm[vr.below(i)]);
    }
    Arr          m(N * N), want(N * N);
    const double part = vr.chance(0.4) ? 0.4 : 0; // columns that are gone already
    if (vr.chance(0.3)) {
        garbWeights(a, p, n, garb, mask, regular, part, perm);
        return;
    }
    for (std::size_t j = 0; j < N; ++j) {
        if (j > 0 && vr.chance(part)) {
            continue;
        }
        m[perm[j] * N + j] = {1, 0};
        if (regular) {
            want[(perm[j] & ~mask) * N + j] = {1, 0};
        } else {
            want[perm[j] * N + (j & ~mask)] = {1, 0};
        }
    }
    const auto cm = toCM(m, N);
    Reg        r  = mk('M', p, n, 0, true);
    r.m           = call(a, [&] { return P(p).makeDDFromMatrix(cm); });
    incR(r);
    r.m           = call(a, [&] { return P(p).reduceGarbage(r.m, garb, regular); });
    const Arr got = read(r);
    expect("reduceGarbage", want, got);
    SIM_COUNT(c, "probe.garbage_reductions");
    decR(r);
    if (vr.chance(0.4)) {
        produce("reduceGarbage", r, want, a.a[4]);
    }
}
void opInitMat(const Act& a) {
    const int  p = pkgOf(a.a[0]), n = qubitsFor(a.a[1], p, MCAP);
    const auto anc = flags(vr, static_cast<std::size_t>(n), 0.4);
    Reg        r   = mk('M', p, n, 0, true);
    r.m            = call(a, [&] { return P(p).createInitialMatrix(static_cast<QubitCount>(n), anc); });
    r.a            = read(r);
    expect("createInitialMatrix", zeroAnc(identA(r.N()), r.N(), anc, true), r.a);
    r.id   = nextId++;
    r.held = 1; // handed over with a reference
    checkCanon(r);
    if (regs.size() >= maxRegs) {
        drop(a.a[4] / 7 % regs.size());
    }
    regs.push_back(r);
}

// ---- dispatch
void step(const Act& a) {
    switch (a.kind) {
        case OP_ZERO: return opZero(a);
        case OP_BASISB: return opBasisBits(a);
        case OP_BASISS: return opBasisStates(a);
        case OP_FROMVEC: return opFromVec(a);
        case OP_FROMMAT: return opFromMat(a);
        case OP_GATE: return opGate(a);
        case OP_GATE2: return opGate2(a);
        case OP_GATEC: return opGateC(a);
        case OP_IDENT: return opIdent(a);
        case OP_OVERCAP: return opOverCap(a);
        case OP_ADD: return opAdd(a);
        case OP_MULV: return opMul(a, true);
        case OP_MULM: return opMul(a, false);
        case OP_TRANS: return opTrans(a, false);
        case OP_CTRANS: return opTrans(a, true);
        case OP_KRON: return opKron(a);
        case OP_EXTEND: return opExtend(a);
        case OP_PTRACE: return opPtrace(a);
        case OP_APPLY: return opApply(a);
        case OP_DELEDGE: return opDelEdge(a);
        case OP_REDO: return opRedo(a);
        case OP_VALS: return opVals(a);
        case OP_EXPORT: return opExport(a);
        case OP_INNER: return opInner(a);
        case OP_FIDM: return opFidM(a);
        case OP_EXPECT: return opExpect(a);
        case OP_TRACE: return opTrace(a);
        case OP_CLOSEID: return opCloseId(a);
        case OP_SIZE: return opSize(a);
        case OP_PROBS: return opProbs(a);
        case OP_HOLD: return opHold(a);
        case OP_RELEASE: return opRelease(a);
        case OP_DROP: return opDrop(a);
        case OP_GC: return opGcAround(a);
        case OP_CAPACITY: return opCapacity(a);
        case OP_FULLNUMS: return opFullNums(a);
        case OP_MANYTEMPS: return opManyTemps(a);
        case OP_SATURATE: return opSaturate(a);
        case OP_WEIGHTS: return opWeights(a);
        case OP_GCU: return opGcUnforced(a, pkgOf(a.a[0]));
        case OP_PRESSURE: return opPressure(a);
        case OP_NODEPRESSURE: return opNodePressure(a);
        case OP_CLEARCT: return opClearCT(a);
        case OP_RESIZE: return opResize(a);
        case OP_RESET: return opReset(a);
        case OP_SCRTAKE: return opScrTake(a);
        case OP_SCRGIVE: return opScrGive(a);
        case OP_UNDERFLOW: return opUnderflow(a);
        case OP_NEWPKG: return opNewPkg(a);
        case OP_CYCLE: return opCycle(a);
        case OP_MEASALL: return opMeasAll(a);
        case OP_MEASCOL: return opMeasCol(a);
        case OP_MEASONE: return opMeasOne(a);
        case OP_DZERO: return opDZero(a);
        case OP_DAPPLY: return opDApply(a);
        case OP_DPROB: return opDProb(a);
        case OP_DMAT: return opDMat(a);
        case OP_DNOISE: return opDNoise(a);
        case OP_TOFFOLI: return opToffoli(a);
        case OP_STOCH: return opStoch(a);
        case OP_SER: return opSer(a);
        case OP_SERFAULTW: return opSerFaultW(a);
        case OP_SERFAULTR: return opSerFaultR(a);
        case OP_CORRUPT: return opCorrupt(a);
        case OP_FILEIO: return opFileIO(a);
        case OP_FILEFAULT: return opFileFault(a);
        case OP_TRANSFER: return opTransfer(a);
        case OP_DOT: return opDot(a);
        case OP_REDANC: return opRedAnc(a);
        case OP_REDGARB: return opRedGarb(a);
        case OP_INITMAT: return opInitMat(a);
        case OP_COPYEXP: return opCopyExp(a);
        case OP_BIGIO: return opBigIO(a);
        default: return;
    }
}
