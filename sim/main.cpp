// Driver: seeded search over simulated executions, crash isolation, minimisation, replay, evidence.
#include "world.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <vector>

using namespace sim;
namespace {
constexpr int      TRACE_MAX = 400000;
constexpr int      NOPS      = 96;
struct Result { // shared memory
    int      done;   // 0 child died, 1 ok, 2 violation, 3 vacuous
    int      step;
    uint64_t hash;
    uint64_t steps;
    uint64_t allocs;
    uint64_t counters[MAXC];
    uint64_t ops[NOPS];
    char     oracle[160];
    char     what[1800];
    uint32_t nTrace;
    int      ncount;
    char     cnames[MAXC][64];
    double   trace[TRACE_MAX];
};
struct Outcome {
    bool        bad = false;
    std::string oracle, what;
    int         step = -1;
    uint64_t    hash = 0;
};
double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
std::string g_self;

template<class T>
T* shared(std::size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::_Exit(90);
    }
    return static_cast<T*>(p);
}

[[noreturn]] void child(const Plan& plan, Result* r, bool keepTrace, bool verbose) {
    struct rlimit rl{};
    rl.rlim_cur = 40;
    rl.rlim_max = 42;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    alarm(240);
    if (!verbose) {
        const int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    std::vector<double> trace;
    heap::activate(plan.layout);
    Ctx c;
    c.counters = r->counters;
    c.verbose  = verbose;
    if (keepTrace) {
        trace.reserve(4096);
        c.trace = &trace;
    }
    for (auto& a: plan.acts) {
        if (a.kind >= 0 && a.kind < NOPS) {
            ++r->ops[a.kind];
        }
    }
    int done = 1;
    try {
        runPlan(plan, c);
    } catch (const Violation& v) {
        done = 2;
        std::snprintf(r->oracle, sizeof r->oracle, "%s", v.oracle.c_str());
        std::snprintf(r->what, sizeof r->what, "%s", v.what.c_str());
    } catch (const Skip&) {
        done = 3;
    } catch (const std::exception& e) {
        done = 2;
        std::snprintf(r->oracle, sizeof r->oracle, "uncaught");
        std::snprintf(r->what, sizeof r->what, "uncaught exception: %s", e.what());
    }
    r->step   = c.step;
    r->hash   = c.hash;
    r->steps  = c.steps;
    r->allocs = heap::totalAllocs();
    r->ncount = counterCount();
    for (int i = 0; i < r->ncount; ++i) {
        std::snprintf(r->cnames[i], 64, "%s", counterName(i));
    }
    if (keepTrace) {
        r->nTrace = static_cast<uint32_t>(std::min<std::size_t>(trace.size(), TRACE_MAX));
        std::copy(trace.begin(), trace.begin() + r->nTrace, r->trace);
    }
    r->done = done;
    _exit(0);
}
void clearResult(Result* r) { std::memset(r, 0, offsetof(Result, trace)); }
Outcome execOnce(const Plan& plan, Result* r, bool keepTrace = false, bool verbose = false) {
    clearResult(r);
    std::fflush(stdout);
    const pid_t pid = fork();
    if (pid < 0) {
        std::perror("fork");
        std::_Exit(91);
    }
    if (pid == 0) {
        child(plan, r, keepTrace, verbose);
    }
    int           st = 0;
    struct rusage ru{};
    while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) {
    }
    static const bool slowLog = std::getenv("SIM_SLOW") != nullptr;
    if (const double cpu = static_cast<double>(ru.ru_utime.tv_sec + ru.ru_stime.tv_sec) + 1e-6 * static_cast<double>(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec); slowLog && cpu > 1.) {
        std::fprintf(stderr, "slow: %.1f s check %s config %u maxN %u mode %u plan seed %llu\n", cpu, plan.check.c_str(), plan.config, plan.knob[0], plan.knob[1], static_cast<unsigned long long>(plan.seed));
    }
    Outcome o;
    o.hash = r->hash;
    o.step = r->step;
    if (WIFSIGNALED(st)) {
        const int sig = WTERMSIG(st);
        o.bad         = true;
        if (sig == SIGXCPU || sig == SIGKILL || sig == SIGALRM) {
            o.oracle = "hang";
            o.what   = "the execution did not terminate";
        } else {
            o.oracle = "crash";
            o.what   = strf("the process died from signal %d (%s)", sig, strsignal(sig));
        }
        if (sig == SIGKILL) { // somebody else (memory pressure)
            o.oracle = "killed";
        }
    } else if (r->done == 2) {
        o.bad    = true;
        o.oracle = r->oracle;
        o.what   = r->what;
    } else if (r->done == 0) {
        std::fprintf(stderr, "sim: child ended with status %d without a result\n", WEXITSTATUS(st));
        std::_Exit(92);
    }
    return o;
}
Layout altLayout(const Layout& l) {
    Layout x = l;
    x.salt   = l.salt * 2654435761U + 12345;
    x.stride = (l.stride + 1 + l.salt % 4) % 5;
    x.reuse  = (l.reuse + 1) % 3;
    x.fill   = (l.fill + 2) % 5;
    return x;
}
// position of the first differing observation, or -1
int64_t differ(const double* a, std::size_t n, const double* b, std::size_t m) {
    for (std::size_t i = 0; i < std::min(n, m); ++i) {
        if (!(std::fabs(a[i] - b[i]) <= 1e-7 * std::fmax(1., std::fabs(a[i])))) {
            return static_cast<int64_t>(i);
        }
    }
    return n == m ? -1 : static_cast<int64_t>(std::min(n, m));
}
// a run as the check defines it
Outcome exec(const Plan& plan, Result* r, Result* r2, bool verbose = false) {
    const auto* info   = checkInfo(plan.check);
    const int   second = info != nullptr ? info->second : 0;
    auto        o      = execOnce(plan, r, second != 0, verbose);
    if (o.bad || second == 0) {
        return o;
    }
    Plan q = plan;
    if (second == 1) {
        q.layout = altLayout(plan.layout);
        auto o2  = execOnce(q, r2, true, verbose);
        if (o2.bad) {
            o2.what += strf(" (under the second memory layout stride=%u reuse=%u fill=%u salt=%u)", q.layout.stride, q.layout.reuse, q.layout.fill, q.layout.salt);
            return o2;
        }
        const auto bad = differ(r->trace, r->nTrace, r2->trace, r2->nTrace);
        if (bad >= 0) {
            const auto i = static_cast<uint32_t>(bad);
            o.bad        = true;
            o.oracle     = "layout";
            o.what       = strf("the same program gives different results when only the addresses of its memory blocks differ: observation %u is %.12g under one layout and %.12g under the other (%u and %u observations)", i, i < r->nTrace ? r->trace[i] : NAN, i < r2->nTrace ? r2->trace[i] : NAN, r->nTrace, r2->nTrace);
        }
        o.hash = mix(o.hash, o2.hash);
        return o;
    }
    std::size_t at = 0;
    const int   k  = plan.knob[5] == 3 ? 3 : 2;
    for (int t = 0; t < k; ++t) {
        q.world       = plan.world | (t + 1) << 8;
        const auto o2 = execOnce(q, r2, true, verbose);
        if (o2.bad) {
            auto x = o2;
            x.what += strf(" (thread %d running alone)", t);
            return x;
        }
        o.hash = mix(o.hash, o2.hash);
        if (at + r2->nTrace > TRACE_MAX || r->nTrace == TRACE_MAX) {
            continue;
        }
        const auto n = static_cast<std::size_t>(r->trace[at]);
        const auto i = differ(r->trace + at + 1, n, r2->trace + 1, r2->nTrace - 1);
        if (i >= 0) {
            o.bad    = true;
            o.oracle = "isolation";
            o.what   = strf("thread %d observes something else when other threads work on their own packages: observation %lld is %.12g instead of %.12g (%zu and %u observations)", t, static_cast<long long>(i), static_cast<std::size_t>(i) < n ? r->trace[at + 1 + static_cast<std::size_t>(i)] : NAN, i + 1 < r2->nTrace ? r2->trace[i + 1] : NAN, n, r2->nTrace - 1);
            return o;
        }
        at += n + 1;
    }
    return o;
}

// ---------------------------------------------------------------- plan text
std::string planText(const Plan& p) {
    std::ostringstream s;
    s << "simplan 1\ncheck " << p.check << "\nworld " << p.world << "\nconfig " << p.config << "\nseed " << p.seed << "\nknob";
    for (auto k: p.knob) {
        s << ' ' << k;
    }
    s << "\nlayout " << p.layout.stride << ' ' << p.layout.reuse << ' ' << p.layout.fill << ' ' << p.layout.salt << "\n";
    for (auto& a: p.acts) {
        s << "act " << actName(p, a.kind);
        for (auto x: a.a) {
            s << ' ' << x;
        }
        s << ' ' << a.fault << "\n";
    }
    return s.str();
}
bool parsePlan(const std::string& path, Plan& p, std::string& oracle, uint64_t& hash) {
    std::ifstream f(path);
    std::string   line;
    if (!std::getline(f, line) || line != "simplan 1") {
        return false;
    }
    while (std::getline(f, line)) {
        std::istringstream is(line);
        std::string        k;
        is >> k;
        if (k == "check") {
            is >> p.check;
        } else if (k == "world") {
            is >> p.world;
        } else if (k == "config") {
            is >> p.config;
        } else if (k == "seed") {
            is >> p.seed;
        } else if (k == "knob") {
            for (auto& x: p.knob) {
                is >> x;
            }
        } else if (k == "layout") {
            is >> p.layout.stride >> p.layout.reuse >> p.layout.fill >> p.layout.salt;
        } else if (k == "act") {
            Act         a;
            std::string n;
            is >> n;
            a.kind = actKind(n);
            for (auto& x: a.a) {
                is >> x;
            }
            is >> a.fault;
            p.acts.push_back(a);
        } else if (k == "oracle") {
            std::getline(is >> std::ws, oracle);
        } else if (k == "hash") {
            is >> hash;
        }
    }
    return true;
}

Plan minimise(Plan p, const std::string& oracle, Result* r, Result* r2, double budget) {
    const double end  = now() + budget;
    auto         same = [&](const Plan& q) {
        const auto o = exec(q, r, r2);
        return o.bad && o.oracle == oracle;
    };
    // cut everything after the failing step
    {
        const auto o = exec(p, r, r2);
        if (o.step >= 0 && static_cast<std::size_t>(o.step) + 1 < p.acts.size()) {
            Plan q = p;
            q.acts.resize(static_cast<std::size_t>(o.step) + 1);
            if (same(q)) {
                p = q;
            }
        }
    }
    std::size_t chunk = std::max<std::size_t>(1, p.acts.size() / 2);
    while (now() < end) {
        bool removed = false;
        for (std::size_t at = 0; at < p.acts.size() && now() < end;) {
            Plan q = p;
            q.acts.erase(q.acts.begin() + static_cast<std::ptrdiff_t>(at), q.acts.begin() + static_cast<std::ptrdiff_t>(std::min(at + chunk, p.acts.size())));
            if (same(q)) {
                p       = q;
                removed = true;
            } else {
                at += chunk;
            }
        }
        if (!removed && chunk == 1) {
            break;
        }
        if (!removed) {
            chunk = std::max<std::size_t>(1, chunk / 2);
        }
    }
    // simplify what is left: fewer qubits, no faults, plain layout, zero arguments
    auto attempt = [&](auto&& change) {
        if (now() > end) {
            return;
        }
        Plan q = p;
        change(q);
        if (planText(q) != planText(p) && same(q)) {
            p = q;
        }
    };
    attempt([](Plan& q) { q.layout.stride = 0; });
    attempt([](Plan& q) { q.layout.reuse = 0; });
    attempt([](Plan& q) { q.layout.fill = 0; });
    attempt([](Plan& q) { q.knob[1] = 0; });
    attempt([](Plan& q) { q.knob[2] = 1; });
    if (p.world == 2) { // the schedule: fewer threads, fewer and coarser switches
        attempt([](Plan& q) { q.knob[5] = 2; });
        attempt([](Plan& q) { q.config = 0; });
        attempt([](Plan& q) { q.config = 1; });
        for (uint32_t m: {0U, 1U, 2U, 4U, 8U, 16U, 32U, 64U, 256U, 1024U}) {
            if (m < p.knob[7]) {
                const auto before = p.knob[7];
                attempt([&](Plan& q) { q.knob[7] = m; });
                if (p.knob[7] != before) {
                    break;
                }
            }
        }
    }
    for (int n = 1; n < 4; ++n) {
        if (p.knob[0] > static_cast<uint32_t>(n)) {
            attempt([&](Plan& q) { q.knob[0] = static_cast<uint32_t>(n); });
        }
    }
    for (std::size_t i = 0; i < p.acts.size(); ++i) {
        if (p.acts[i].fault != 0) {
            attempt([&](Plan& q) { q.acts[i].fault = 0; });
        }
        for (int k = 0; k < 6; ++k) {
            if (p.acts[i].a[k] > 3) {
                attempt([&](Plan& q) { q.acts[i].a[k] %= 4; });
            }
            if (p.acts[i].a[k] != 0) {
                attempt([&](Plan& q) { q.acts[i].a[k] = 0; });
            }
        }
    }
    return p;
}
std::string js(const std::string& s) {
    std::string o = "\"";
    for (char ch: s) {
        if (ch == '"' || ch == '\\') {
            o += '\\';
            o += ch;
        } else if (static_cast<unsigned char>(ch) < 0x20) {
            o += ' ';
        } else {
            o += ch;
        }
    }
    return o + "\"";
}
struct WorkerStat {
    uint64_t runs, vacuous, steps, allocs, faulty, dup, dupBad, firstBad; // firstBad: idx+1
    uint64_t stop;
    uint64_t counters[MAXC];
    char     cnames[MAXC][64];
    uint64_t ops[NOPS];
    uint64_t nHash;
    uint64_t hashes[1 << 18];
};
} // namespace

int main(int argc, char** argv) {
    std::string check, tier = "quick", replay, evidence, replayDir = "replays", known;
    uint64_t    seed = 1, only = 0;
    bool        hasOnly = false, verbose = false, dump = false;
    int         runs = 0, workers = 8;
    double      wall = 0;
    g_self           = argv[0];
    for (int i = 1; i < argc; ++i) {
        const std::string a = argv[i];
        auto              v = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--check") {
            check = v();
        } else if (a == "--tier") {
            tier = v();
        } else if (a == "--seed") {
            seed = std::strtoull(v().c_str(), nullptr, 10);
        } else if (a == "--replay") {
            replay = v();
        } else if (a == "--evidence") {
            evidence = v();
        } else if (a == "--replay-dir") {
            replayDir = v();
        } else if (a == "--known") {
            known = v();
        } else if (a == "--only") {
            only    = std::strtoull(v().c_str(), nullptr, 10);
            hasOnly = true;
        } else if (a == "--runs") {
            runs = std::atoi(v().c_str());
        } else if (a == "--workers") {
            workers = std::atoi(v().c_str());
        } else if (a == "--wall") {
            wall = std::atof(v().c_str());
        } else if (a == "--verbose") {
            verbose = true;
        } else if (a == "--dump") {
            dump = true;
        }
    }
    auto* r  = shared<Result>();
    auto* r2 = shared<Result>();
    if (!replay.empty()) {
        Plan        p;
        std::string oracle;
        uint64_t    hash = 0;
        if (!parsePlan(replay, p, oracle, hash)) {
            std::fprintf(stderr, "cannot read %s\n", replay.c_str());
            return 2;
        }
        const auto o = exec(p, r, r2, verbose);
        if (!o.bad) {
            std::printf("replay: no violation\n");
            return 0;
        }
        std::printf("replay: step %d: %s: %s\nreplay-hash %llu\n", o.step, o.oracle.c_str(), o.what.c_str(), static_cast<unsigned long long>(o.hash));
        if (!oracle.empty() && (oracle != o.oracle || (hash != 0 && hash != o.hash))) {
            std::printf("replay: DIFFERENT from the recorded violation %s %llu\n", oracle.c_str(), static_cast<unsigned long long>(hash));
            return 4;
        }
        std::printf("VIOLATION property=%s replay=%s\n", p.check.c_str(), replay.c_str());
        return 1;
    }
    const auto* info = checkInfo(check);
    if (info == nullptr) {
        std::fprintf(stderr, "unknown check %s\n", check.c_str());
        return 2;
    }
    const bool deep = tier == "thorough";
    if (hasOnly) {
        const Plan p = makePlan(check, seed, only, deep);
        if (dump) {
            std::fputs(planText(p).c_str(), stdout);
        }
        const auto o = exec(p, r, r2, verbose);
        std::printf("run %llu: %s step %d %s %s hash %llu\n", static_cast<unsigned long long>(only), o.bad ? "BAD" : "ok", o.step, o.oracle.c_str(), o.what.c_str(), static_cast<unsigned long long>(o.hash));
        return o.bad ? 1 : 0;
    }
    const uint64_t total = static_cast<uint64_t>(runs > 0 ? runs : (deep ? info->deepRuns : info->quickRuns));
    if (wall <= 0) {
        wall = deep ? 780 : 60;
    }
    const double t0 = now();
    auto*        ws = shared<WorkerStat>(static_cast<std::size_t>(workers));
    auto*        stop = shared<int>();
    std::vector<pid_t> pids;
    std::fflush(stdout);
    for (int w = 0; w < workers; ++w) {
        const pid_t pid = fork();
        if (pid == 0) {
            auto& s   = ws[w];
            auto* res = shared<Result>();
            auto* re2 = shared<Result>();
            for (uint64_t i = static_cast<uint64_t>(w); i < total && *stop == 0; i += static_cast<uint64_t>(workers)) {
                if (now() - t0 > wall) {
                    break;
                }
                const Plan p = makePlan(check, seed, i, deep);
                const auto o = exec(p, res, re2);
                ++s.runs;
                s.steps += res->steps;
                s.allocs += res->allocs;
                uint64_t faults = 0;
                for (int k = 0; k < res->ncount; ++k) {
                    // counter ids can differ between executions: merge by name
                    int id = counterId(strdup(res->cnames[k]));
                    s.counters[id] += res->counters[k];
                    std::memcpy(s.cnames[id], res->cnames[k], 64);
                    if (std::strncmp(res->cnames[k], "fault.", 6) == 0) {
                        faults += res->counters[k];
                    }
                }
                for (int k = 0; k < NOPS; ++k) {
                    s.ops[k] += res->ops[k];
                }
                if (o.bad) {
                    s.firstBad = i + 1;
                    *stop      = 1;
                    break;
                }
                if (res->done == 3 || res->steps < 3) {
                    ++s.vacuous;
                } else if (s.nHash < (1 << 18)) {
                    s.hashes[s.nHash++] = o.hash;
                }
                s.faulty += faults > 0 ? 1 : 0;
                if (i % 16 < 1) { // determinism gate
                    const auto o2 = exec(p, res, re2);
                    ++s.dup;
                    if (o2.hash != o.hash || o2.bad) {
                        ++s.dupBad;
                        s.firstBad = 0;
                        *stop      = 2;
                        std::fprintf(stderr, "sim: run %llu is not deterministic\n", static_cast<unsigned long long>(i));
                        break;
                    }
                }
            }
            _exit(0);
        }
        pids.push_back(pid);
    }
    for (auto pid: pids) {
        int st = 0;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            std::fprintf(stderr, "sim: a worker failed\n");
            return 3;
        }
    }
    const double searched = now() - t0;
    std::set<uint64_t> hashes;
    uint64_t           nruns = 0, vac = 0, steps = 0, allocs = 0, faulty = 0, dup = 0, dupBad = 0, bad = 0;
    std::map<std::string, uint64_t> counters;
    uint64_t           ops[NOPS] = {0};
    for (int w = 0; w < workers; ++w) {
        auto& s = ws[w];
        nruns += s.runs;
        vac += s.vacuous;
        steps += s.steps;
        allocs += s.allocs;
        faulty += s.faulty;
        dup += s.dup;
        dupBad += s.dupBad;
        if (s.firstBad != 0 && (bad == 0 || s.firstBad < bad)) {
            bad = s.firstBad;
        }
        for (int k = 0; k < MAXC; ++k) {
            if (s.counters[k] != 0) {
                counters[s.cnames[k]] += s.counters[k];
            }
        }
        for (int k = 0; k < NOPS; ++k) {
            ops[k] += s.ops[k];
        }
        hashes.insert(s.hashes, s.hashes + s.nHash);
    }
    if (dupBad != 0) {
        return 3;
    }
    int         rc = 0;
    std::string violation;
    if (bad != 0) {
        const Plan p = makePlan(check, seed, bad - 1, deep);
        const auto o = exec(p, r, r2);
        if (!o.bad || o.oracle == "killed") {
            std::fprintf(stderr, "sim: run %llu failed once but not again: harness error\n", static_cast<unsigned long long>(bad - 1));
            return 3;
        }
        const Plan m  = minimise(p, o.oracle, r, r2, deep ? 60 : 30);
        const auto mo = exec(m, r, r2);
        const auto path = replayDir + "/" + check + "-" + std::to_string(seed) + "-" + std::to_string(bad - 1) + ".plan";
        {
            std::ofstream f(path);
            f << planText(m) << "oracle " << mo.oracle << "\nhash " << mo.hash << "\n# " << mo.what << "\n# found by: --check " << check << " --seed " << seed << " --only " << bad - 1 << "\n";
        }
        int         st    = 0;
        const pid_t child = fork(); // (std::system belongs to the code under test)
        if (child == 0) {
            execl("/bin/sh", "sh", "-c", (g_self + " --replay " + path + " >/dev/null 2>&1").c_str(), static_cast<char*>(nullptr));
            _exit(127);
        }
        while (child > 0 && waitpid(child, &st, 0) < 0 && errno == EINTR) {
        }
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) {
            std::fprintf(stderr, "sim: the replay file %s does not reproduce the violation: harness error\n", path.c_str());
            return 3;
        }
        std::printf("run %llu of seed %llu, step %d (%s): %s\n  %s\n  minimised to %zu steps\n", static_cast<unsigned long long>(bad - 1), static_cast<unsigned long long>(seed), mo.step, mo.step >= 0 && static_cast<std::size_t>(mo.step) < m.acts.size() ? actName(m, m.acts[static_cast<std::size_t>(mo.step)].kind) : "teardown", mo.oracle.c_str(), mo.what.c_str(), m.acts.size());
        std::printf("VIOLATION property=%s replay=%s\n", check.c_str(), path.c_str());
        violation = mo.oracle + ": " + mo.what;
        rc        = 1;
    }
    if (!evidence.empty()) {
        const double       el = now() - t0;
        std::ostringstream e;
        e << "{\n \"property\": " << js(check) << ",\n \"tier\": " << js(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n";
        e << " \"coverage\": {\n  \"evaluations\": " << nruns << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n";
        e << "  \"rule\": " << js(info->rule) << ",\n";
        e << "  \"simulated_steps\": " << steps << ",\n  \"allocations_decided_by_the_simulator\": " << allocs << ",\n";
        e << "  \"runs_with_at_least_one_fault\": " << faulty << ",\n  \"vacuous_runs\": " << vac << ",\n  \"runs_executed_twice_and_compared\": " << dup << ",\n";
        e << "  \"runs_per_hour\": " << static_cast<uint64_t>(static_cast<double>(nruns) / std::max(searched, 1e-3) * 3600) << ",\n";
        e << "  \"simulated_time\": \"the code has no clock; simulated time is counted in steps (operations and faults)\",\n";
        e << "  \"real_and_stub\": " << js(info->real) << ",\n";
        e << "  \"faults_fired_and_probes\": {";
        bool first = true;
        for (auto& [k, v]: counters) {
            e << (first ? "\n" : ",\n") << "   " << js(k) << ": " << v;
            first = false;
        }
        e << "\n  },\n  \"steps_by_kind\": {";
        first = true;
        Plan tmp;
        tmp.check = check;
        for (int k = 0; k < NOPS; ++k) {
            if (ops[k] != 0) {
                e << (first ? "\n" : ",\n") << "   " << js(actName(tmp, k)) << ": " << ops[k];
                first = false;
            }
        }
        e << "\n  },\n  \"samples\": [";
        for (uint64_t i = 0; i < 2 && i < total; ++i) {
            Plan q = makePlan(check, seed, i, deep);
            if (q.acts.size() > 25) {
                q.acts.resize(25);
            }
            std::string t = planText(q);
            std::replace(t.begin(), t.end(), '\n', ';');
            e << (i ? ",\n   " : "\n   ") << js(t);
        }
        e << "\n  ]\n },\n \"assumptions\": [\"seeded sample of executions, not an enumeration\", \"the library is compiled from /repo's working tree with NDEBUG, as the tests are\"],\n";
        e << " \"wall_s\": " << el << ",\n \"violations\": " << (rc == 1 ? 1 : 0);
        if (rc == 1) {
            e << ",\n \"violation\": " << js(violation);
        }
        e << "\n}\n";
        std::ofstream f(evidence);
        f << e.str();
    }
    if (rc == 0) {
        std::printf("%s %s: %llu runs (%zu distinct), %llu steps, no violation, %.1f s\n", check.c_str(), tier.c_str(), static_cast<unsigned long long>(nruns), hashes.size(), static_cast<unsigned long long>(steps), now() - t0);
    }
    return rc;
}
