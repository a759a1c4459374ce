// Search engine: seeded generation, one child process per run, gating, minimisation, replay files.
#include "rt.hpp"
#include <tuple>
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

std::string hex(const void* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    std::string        s;
    const uint8_t*     b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n && i < 48; i++) {
        s += d[b[i] >> 4];
        s += d[b[i] & 15];
    }
    if (n > 48) s += "..";
    return s;
}
std::string bytes_of(uint64_t seed, size_t len)
{
    std::string s(len, '\0');
    Rng         r(mix(seed, 0xda7a));
    unsigned    style = unsigned(seed % 11);
    switch (style) {
    case 0: break;                                                      // zeros
    case 1: std::fill(s.begin(), s.end(), char(r.u64())); break;        // one byte
    case 2: for (size_t i = 0; i < len; i++) s[i] = char('a' + (i + (seed >> 8)) % 26); break;
    case 3: std::fill(s.begin(), s.end(), char(0xff)); break;
    default:
        for (size_t i = 0; i < len; i += 8) {
            uint64_t w = r.u64();
            for (size_t k = 0; k < 8 && i + k < len; k++) s[i + k] = char(w >> (8 * k));
        }
    }
    return s;
}

size_t GenCtx::length(Rng& r, size_t max) const
{
    static const size_t b[] = {0,  1,  2,  7,  8,   11,  12,  13,  15,  16,  17,  24,  28,  29,   31,   32,   33,   47,   48,
                               49, 63, 64, 65, 95,  96,  97,  111, 112, 113, 127, 128, 129,  191,  192,  193,  255,  256,  257,
                               264, 319, 320, 383, 384, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193};
    size_t              v;
    unsigned            c = (unsigned)r.below(100);
    if (c < 25) v = r.below(41);
    else if (c < 50) v = b[r.below(sizeof b / sizeof *b)];
    else if (c < 68 && !dict.empty()) {
        uint64_t d = dict[r.below(dict.size())];
        v          = (size_t)(d + r.below(3) - 1);
    } else if (c < 90) v = r.below(301);
    else v = r.below(max + 1);
    if (v > max) v = r.chance(1, 2) ? max - (v % 2 && max ? 1 : 0) : v % (max + 1);
    return v;
}
uint64_t GenCtx::value(Rng& r) const
{
    unsigned c = (unsigned)r.below(100);
    if (c < 25) return r.below(20);
    if (c < 45) { // near a power of two
        uint64_t p = 1ULL << r.below(64);
        return p + r.below(5) - 2;
    }
    if (c < 60 && !dict.empty()) return dict[r.below(dict.size())] + r.below(3) - 1;
    if (c < 70) return ~0ULL - r.below(4);
    if (c < 80) return r.u64() >> r.below(64);
    return r.u64();
}
uint64_t GenCtx::count(Rng& r, uint64_t typical, uint64_t max) const
{
    unsigned c = (unsigned)r.below(100);
    uint64_t v;
    if (c < 80) v = 1 + r.below(typical);
    else if (c < 90 && !dict.empty()) v = dict[r.below(dict.size())] + r.below(3);
    else v = 1 + r.below(max);
    return v > max ? 1 + v % max : v;
}

// ------------------------------------------------------------------ running one plan
static uint32_t g_evmax[64][F_KINDS];
static bool     g_verbose;
static unsigned g_alarm = 60;

static void child_body(const Plan& plan, int slot)
{
    if (!g_verbose) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        dup2(fd, 1);
    }
    alarm(g_alarm);
    g_run             = RunState();
    g_run.slot        = slot;
    g_run.plan        = &plan;
    g_run.data_seed   = plan.data_seed;
    g_run.step_budget = g_scenario->step_budget;
    g_run.next_stop   = g_run.step_budget;
    tls()             = TlState();
    rng_seed(mix(plan.data_seed, 0x5eed));
    try {
        g_scenario->run(plan);
    } catch (const std::exception& e) {
        // an exception that escaped the harness' own bookkeeping
        fail("escaped-exception", "unexpected exception: %s", e.what());
    }
    Result_& r   = g_sh->res[slot];
    r.trace_hash = g_run.thash;
    r.ihash      = g_run.ihash;
    r.steps      = g_run.steps;
    r.switches   = g_run.switches;
    if (r.verdict == V_RUNNING) r.verdict = V_OK;
    _exit(0);
}

struct RunOut
{
    bool        violation{false};
    bool        timeout{false};
    std::string kind, msg;
    uint64_t    hash{0}, steps{0};
    uint32_t    last_op{0};
};
static RunOut run_plan(const Plan& plan, int slot)
{
    Result_& r = g_sh->res[slot];
    memset(&r, 0, sizeof r);
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(4);
    }
    if (pid == 0) child_body(plan, slot);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    RunOut o;
    o.hash    = r.trace_hash;
    o.steps   = r.steps;
    o.last_op = r.last_op;
    if (r.verdict == V_OK && WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    if (r.verdict == V_VIOLATION) {
        o.violation = true;
        o.kind      = r.kind;
        o.msg       = r.msg;
        o.hash      = 0;
        return o;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) {
        fprintf(stderr, "simulator failure in child\n");
        exit(4);
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
        o.timeout = true;
        o.kind    = "hang-wallclock";
        o.msg     = "operation " + std::to_string(r.last_op) + " did not return within " + std::to_string(g_alarm) + " s";
        return o;
    }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { // out of memory or killed from outside: no verdict
        o.timeout = true;
        o.kind    = "killed";
        return o;
    }
    o.violation = true;
    if (WIFSIGNALED(st)) {
        o.kind = std::string("crash-signal-") + std::to_string(WTERMSIG(st));
    } else {
        o.kind = "crash-exit-" + std::to_string(WEXITSTATUS(st)); // sanitizer report: 99
        if (WEXITSTATUS(st) == 99) o.kind = "memory-error";
        if (WEXITSTATUS(st) == 66) o.kind = "data-race";
    }
    uint32_t code = r.last_op < plan.ops.size() ? plan.ops[r.last_op].code : 0;
    o.msg         = "process died in operation " + std::to_string(r.last_op) + " ("
            + (code < g_scenario->op_names.size() ? g_scenario->op_names[code] : "?") + ")";
    return o;
}

static bool excused(const Plan& p, int slot)
{
    if (!g_scenario->baseline) return false;
    RunOut r = run_plan(g_scenario->baseline(p), slot);
    return r.violation || r.timeout;
}

// ------------------------------------------------------------------ generation
// The plan is run once without faults, noting from which places in the library resources are requested;
// places are then chosen with a preference for those few operations reach.
static uint32_t site_freq(uint32_t site)
{
    size_t h = site % kFreq;
    for (size_t i = 0; i < 32; i++, h = (h + 1) % kFreq) {
        if (g_sh->freq_site[h] == site) return g_sh->freq_n[h];
        if (!g_sh->freq_site[h]) return 0;
    }
    return 0;
}
static void count_sites(int slot)
{
    for (const SiteRec& x : g_sh->sites[slot].rec) {
        if (!x.count) continue;
        size_t h = x.site % kFreq;
        for (size_t i = 0; i < 32; i++, h = (h + 1) % kFreq) {
            uint32_t z = 0;
            if (g_sh->freq_site[h] == x.site || __atomic_compare_exchange_n(&g_sh->freq_site[h], &z, x.site, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) || z == x.site) {
                __atomic_fetch_add(&g_sh->freq_n[h], 1, __ATOMIC_SEQ_CST);
                break;
            }
        }
    }
}
static bool dry_run(const Plan& p, int slot)
{
    Plan q = p;
    q.faults.clear();
    memset(g_sh->sites[slot].rec, 0, sizeof g_sh->sites[slot].rec);
    g_sh->sites[slot].recording = 1;
    RunOut o = run_plan(q, slot);
    g_sh->sites[slot].recording = 0;
    return !o.violation && !o.timeout;
}
static bool attach_site_faults(Rng& r, Plan& p, int slot)
{
    if (!dry_run(p, slot)) return true; // fails without any fault: the run itself will show it
    std::vector<SiteRec> v;
    for (const SiteRec& x : g_sh->sites[slot].rec)
        if (x.count && x.op < p.ops.size()) v.push_back(x);
    if (v.empty()) return false;
    std::sort(v.begin(), v.end(), [](const SiteRec& a, const SiteRec& b) { return std::make_tuple(a.op, a.kind, a.first) < std::make_tuple(b.op, b.kind, b.first); });
    std::vector<uint64_t> cum;
    uint64_t              tot = 0;
    for (auto& x : v) cum.push_back(tot += 1 + 1000000 / (1 + uint64_t(site_freq(x.site))));
    unsigned nf = 1 + (unsigned)r.below(3);
    for (unsigned i = 0; i < nf; i++) {
        size_t at = size_t(std::upper_bound(cum.begin(), cum.end(), r.below(tot)) - cum.begin());
        if (r.chance(1, 2)) { // every call the library makes directly weighs the same, however much happens below it
            size_t lv = r.below(3);
            std::vector<std::pair<uint32_t, uint32_t>> gs;
            for (auto& x : v) gs.emplace_back(x.op, x.group[lv]);
            std::vector<std::pair<uint32_t, uint32_t>> u = gs;
            std::sort(u.begin(), u.end());
            u.erase(std::unique(u.begin(), u.end()), u.end());
            auto   g = u[r.below(u.size())];
            size_t n = size_t(std::count(gs.begin(), gs.end(), g)), k = r.below(n);
            for (at = 0; gs[at] != g || k--; at++) {}
        }
        const SiteRec& x = v[at];
        Fault          f;
        f.op   = x.op;
        f.kind = (uint8_t)x.kind;
        f.k    = r.chance(1, 2) ? x.first : r.chance(1, 2) ? x.last : x.first + (uint32_t)r.below(x.last - x.first + 1);
        f.n    = r.chance(5, 6) ? 1 : r.chance(1, 2) ? 2 + (uint32_t)r.below(3) : 1u << 30;
        p.faults.push_back(f);
    }
    return true;
}
static void attach_faults(Rng& r, Plan& p)
{
    if (p.ops.empty()) return;
    unsigned nf = 1 + (unsigned)r.below(3);
    for (unsigned i = 0; i < nf; i++) {
        uint32_t op   = 0;
        uint32_t code = 0;
        for (int tries = 0; tries < 8; tries++) {
            op   = (uint32_t)r.below(p.ops.size());
            code = p.ops[op].code;
            uint32_t tot = 0;
            if (code < 64)
                for (unsigned k = 0; k < F_KINDS; k++) tot += g_evmax[code][k];
            if (tot) break;
        }
        std::vector<uint8_t> kinds;
        uint32_t             any = 0;
        if (code < 64) {
            for (uint8_t k = 0; k < F_ENOSYS; k++)
                if (g_evmax[code][k]) {
                    kinds.push_back(k);
                    any += g_evmax[code][k];
                }
        }
        if (kinds.empty()) continue;
        kinds.push_back(F_ANY);
        Fault f;
        f.op         = op;
        f.kind       = kinds[r.below(kinds.size())];
        uint32_t max = f.kind == F_ANY ? any : g_evmax[code][f.kind];
        f.k          = (uint32_t)(r.chance(1, 3) ? r.below(4) : r.below(max + 1));
        f.n          = r.chance(4, 5) ? 1 : r.chance(1, 2) ? 2 + (uint32_t)r.below(3) : 1u << 30;
        p.faults.push_back(f);
    }
}
static GenCtx g_ctx;
static Plan   make_plan(uint64_t seed, uint64_t run, int slot)
{
    Plan   p;
    Rng    r(mix(mix(seed, 0xc0ffee), run));
    GenCtx c    = g_ctx;
    c.run       = run;
    p.data_seed = r.u64();
    c.faulty    = r.below(1000) < g_scenario->fault_permille;
    g_scenario->gen(r, c, p);
    if (c.faulty && !(r.chance(1, 2) && attach_site_faults(r, p, slot))) attach_faults(r, p);
    return p;
}

// ------------------------------------------------------------------ replay files
static std::string g_variant;
static bool        write_replay(const std::string& path, const Plan& p, const RunOut& o, uint64_t seed, uint64_t run)
{
    std::ofstream f(path);
    f << "# replay of a simulated run; run: /verif/check.py replay <this file>\n";
    f << "property " << g_scenario->name << "\nvariant " << g_variant << "\nseed " << seed << " run " << run << "\n";
    f << "kind " << o.kind << "\n# " << o.msg << "\n";
    f << "cfg " << p.cfg << "\ndata_seed " << p.data_seed << "\n";
    for (size_t i = 0; i < p.ops.size(); i++) {
        const Op& x = p.ops[i];
        f << "op " << x.code << " " << x.t;
        for (uint64_t a : x.a) f << " " << a;
        f << "   # " << i << " " << (x.code < g_scenario->op_names.size() ? g_scenario->op_names[x.code] : "?") << "\n";
    }
    for (const Fault& x : p.faults) f << "fault " << x.op << " " << unsigned(x.kind) << " " << x.k << " " << x.n << "   # " << kFaultNames[x.kind] << "\n";
    for (const Preempt& x : p.sched) f << "preempt " << x.step << " " << x.to << "\n";
    return bool(f);
}
static bool read_replay(const std::string& path, Plan& p, std::string& kind)
{
    std::ifstream f(path);
    if (!f) return false;
    std::string line;
    while (std::getline(f, line)) {
        size_t h = line.find("   #");
        if (h != std::string::npos) line.resize(h);
        std::istringstream is(line);
        std::string        w;
        is >> w;
        if (w == "kind") is >> kind;
        else if (w == "cfg") is >> p.cfg;
        else if (w == "data_seed") is >> p.data_seed;
        else if (w == "op") {
            Op o;
            is >> o.code >> o.t;
            for (auto& a : o.a) is >> a;
            p.ops.push_back(o);
        } else if (w == "fault") {
            Fault    x;
            unsigned k;
            is >> x.op >> k >> x.k >> x.n;
            x.kind = (uint8_t)k;
            p.faults.push_back(x);
        } else if (w == "preempt") {
            Preempt x;
            is >> x.step >> x.to;
            p.sched.push_back(x);
        }
    }
    return true;
}

// ------------------------------------------------------------------ minimisation
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}
static Plan without_ops(const Plan& p, size_t from, size_t n)
{
    Plan q = p;
    q.ops.erase(q.ops.begin() + (long)from, q.ops.begin() + (long)(from + n));
    q.faults.clear();
    for (Fault f : p.faults) {
        if (f.op >= from && f.op < from + n) continue;
        if (f.op >= from + n) f.op -= (uint32_t)n;
        q.faults.push_back(f);
    }
    return q;
}
static Plan minimise(Plan p, const RunOut& o, int slot, double limit)
{
    double t0  = now();
    int    cnt = 0;
    auto   bad = [&](const Plan& q) {
        if (now() - t0 > limit) return false;
        cnt++;
        RunOut r = run_plan(q, slot);
        return r.violation && r.kind == o.kind && !excused(q, slot);
    };
    if (o.last_op + 1 < p.ops.size()) { // nothing after the failing op matters, usually
        Plan q = without_ops(p, o.last_op + 1, p.ops.size() - o.last_op - 1);
        if (bad(q)) p = q;
    }
    bool changed = true;
    while (changed && now() - t0 < limit) {
        changed = false;
        for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + chunk <= p.ops.size();) {
                Plan q = without_ops(p, i, chunk);
                if (bad(q)) {
                    p       = q;
                    changed = true;
                } else {
                    i += chunk;
                }
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < p.faults.size();) {
            Plan q = p;
            q.faults.erase(q.faults.begin() + (long)i);
            if (bad(q)) {
                p       = q;
                changed = true;
            } else i++;
        }
        for (size_t chunk = std::max<size_t>(1, p.sched.size() / 2); chunk >= 1 && !p.sched.empty(); chunk /= 2) {
            for (size_t i = 0; i + chunk <= p.sched.size();) {
                Plan q = p;
                q.sched.erase(q.sched.begin() + (long)i, q.sched.begin() + (long)(i + chunk));
                if (bad(q)) {
                    p       = q;
                    changed = true;
                } else i += chunk;
            }
            if (chunk == 1) break;
        }
    }
    // simplify arguments
    for (size_t i = 0; i < p.ops.size(); i++)
        for (int k = 0; k < 6; k++) {
            for (int step = 0; step < 3 && p.ops[i].a[k] > 0; step++) {
                Plan q = p;
                if (step == 0) q.ops[i].a[k] = 0;
                else if (step == 1) q.ops[i].a[k] &= 0xffff;
                else q.ops[i].a[k] /= 2;
                if (q.ops[i].a[k] == p.ops[i].a[k]) continue;
                if (bad(q)) {
                    p = q;
                    if (step == 2) step = 1;
                }
            }
        }
    for (auto& f : p.faults)
        if (f.n != 1) {
            uint32_t s = f.n;
            f.n        = 1;
            if (!bad(p)) f.n = s;
        }
    return p;
}

// ------------------------------------------------------------------ search
struct Agg
{
    uint64_t                        runs{0}, ops{0}, steps{0}, switches{0}, rng{0}, events{0}, resev{0}, faulted{0}, timeouts{0};
    uint64_t                        nontrivial{0}, dchecks{0}, dmismatch{0}, known{0};
    uint64_t                        fault_fired[F_KINDS]{};
    std::map<std::string, uint64_t> probes, evs;
    std::set<uint64_t>              traces, states, inter;
    std::vector<uint8_t>            edges;
    std::map<std::string, uint64_t> known_hits;
    std::map<uint32_t, uint64_t>    opcount;
    std::vector<std::pair<uint64_t, std::string>> bad; // candidate violations (run, kind)
    uint64_t                        last_run{0};
};
static void absorb(Agg& a, const Result_& r, const Plan& p)
{
    a.runs++;
    a.ops += p.ops.size();
    for (const Op& o : p.ops) a.opcount[o.code]++;
    a.steps += r.steps;
    a.switches += r.switches;
    a.rng += r.rng_bytes;
    a.events += r.n_events;
    a.resev += r.res_events;
    uint64_t ff = 0;
    for (unsigned k = 0; k < F_KINDS; k++) {
        a.fault_fired[k] += r.fault_fired[k];
        ff += r.fault_fired[k];
    }
    if (ff) a.faulted++;
    for (auto& c : r.probes)
        if (c.name[0]) a.probes[c.name] += c.n;
    for (auto& c : r.events)
        if (c.name[0]) a.evs[c.name] += c.n;
    bool nontriv = ff || r.n_events || r.switches;
    if (nontriv && a.traces.insert(mix(r.trace_hash, r.ihash)).second) a.nontrivial++;
    if (r.switches) a.inter.insert(r.ihash);
    for (uint32_t i = 0; i < r.n_states; i++)
        if (a.states.size() < 2000000) a.states.insert(r.states[i]);
    for (size_t i = 0; i < kEdges; i++) a.edges[i] |= r.edges[i];
}
static void put(FILE* f, const void* p, size_t n) { if (fwrite(p, 1, n, f) != n) exit(4); }
static void get(FILE* f, void* p, size_t n) { if (fread(p, 1, n, f) != n) exit(4); }
static void puts_(FILE* f, const std::string& s) { uint64_t n = s.size(); put(f, &n, 8); put(f, s.data(), n); }
static std::string gets_(FILE* f) { uint64_t n; get(f, &n, 8); std::string s(n, 0); if (n) get(f, &s[0], n); return s; }
static void dump(const Agg& a, const std::string& path)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) exit(4);
    uint64_t h[] = {a.runs, a.ops, a.steps, a.switches, a.rng, a.events, a.resev, a.faulted, a.timeouts, a.dchecks, a.dmismatch, a.known, a.last_run};
    put(f, h, sizeof h);
    put(f, a.fault_fired, sizeof a.fault_fired);
    auto pm = [&](const std::map<std::string, uint64_t>& m) { uint64_t n = m.size(); put(f, &n, 8); for (auto& k : m) { puts_(f, k.first); put(f, &k.second, 8); } };
    auto ps = [&](const std::set<uint64_t>& m) { uint64_t n = m.size(); put(f, &n, 8); for (auto& k : m) put(f, &k, 8); };
    pm(a.probes); pm(a.evs); pm(a.known_hits);
    ps(a.traces); ps(a.states); ps(a.inter);
    put(f, a.edges.data(), kEdges);
    uint64_t n = a.opcount.size(); put(f, &n, 8);
    for (auto& k : a.opcount) { put(f, &k.first, 4); put(f, &k.second, 8); }
    n = a.bad.size(); put(f, &n, 8);
    for (auto& b : a.bad) { put(f, &b.first, 8); puts_(f, b.second); }
    fclose(f);
}
static void merge(Agg& a, const std::string& path)
{
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) exit(4);
    uint64_t h[13];
    get(f, h, sizeof h);
    a.runs += h[0]; a.ops += h[1]; a.steps += h[2]; a.switches += h[3]; a.rng += h[4]; a.events += h[5]; a.resev += h[6]; a.faulted += h[7];
    a.timeouts += h[8]; a.dchecks += h[9]; a.dmismatch += h[10]; a.known += h[11]; a.last_run = std::max(a.last_run, h[12]);
    uint64_t ff[F_KINDS];
    get(f, ff, sizeof ff);
    for (unsigned k = 0; k < F_KINDS; k++) a.fault_fired[k] += ff[k];
    auto gm = [&](std::map<std::string, uint64_t>& m) { uint64_t n; get(f, &n, 8); while (n--) { std::string s = gets_(f); uint64_t v; get(f, &v, 8); m[s] += v; } };
    auto gs = [&](std::set<uint64_t>& m) { uint64_t n; get(f, &n, 8); while (n--) { uint64_t v; get(f, &v, 8); m.insert(v); } };
    gm(a.probes); gm(a.evs); gm(a.known_hits);
    gs(a.traces); gs(a.states); gs(a.inter);
    std::vector<uint8_t> e(kEdges);
    get(f, e.data(), kEdges);
    for (size_t i = 0; i < kEdges; i++) a.edges[i] |= e[i];
    uint64_t n;
    get(f, &n, 8);
    while (n--) { uint32_t c; uint64_t v; get(f, &c, 4); get(f, &v, 8); a.opcount[c] += v; }
    get(f, &n, 8);
    while (n--) { uint64_t v; get(f, &v, 8); a.bad.emplace_back(v, gets_(f)); }
    fclose(f);
}
static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) o += ' ';
        else if ((unsigned char)c > 126) o += '?';
        else o += c;
    }
    return o + "\"";
}
static std::string plan_str(const Plan& p)
{
    std::string s;
    for (size_t i = 0; i < p.ops.size() && i < 12; i++) {
        const Op& o = p.ops[i];
        if (i) s += "; ";
        s += (o.code < g_scenario->op_names.size() ? g_scenario->op_names[o.code] : "?") + "(";
        for (int k = 0; k < 4; k++) s += (k ? "," : "") + std::to_string(o.a[k]);
        s += ")";
        if (o.t) s += "@" + std::to_string(o.t);
    }
    if (p.ops.size() > 12) s += "; ... " + std::to_string(p.ops.size()) + " ops";
    for (auto& f : p.faults) s += " | fault " + std::string(kFaultNames[f.kind]) + "@op" + std::to_string(f.op) + "#" + std::to_string(f.k) + "x" + std::to_string(f.n);
    if (!p.sched.empty()) s += " | " + std::to_string(p.sched.size()) + " preemptions";
    return s;
}

static int cmd_search(std::map<std::string, std::string>& o, const char* self)
{
    uint64_t    seed    = strtoull(o["seed"].c_str(), nullptr, 10);
    uint64_t    runs    = strtoull(o["runs"].c_str(), nullptr, 10);
    double      maxs    = atof(o["max-seconds"].c_str());
    int         jobs    = o.count("jobs") ? atoi(o["jobs"].c_str()) : 8;
    std::string outdir  = o["out"];
    std::string rpath   = o["replay"];
    g_ctx.thorough      = o.count("thorough") && o["thorough"] == "1";
    std::set<std::string> known;
    {
        std::istringstream is(o["known"]);
        std::string        k;
        while (std::getline(is, k, ',')) if (!k.empty()) known.insert(k);
    }
    double t0 = now();
    // deterministic profiling pass: dictionary of compared constants, resource requests per operation
    g_sh->harvest = 1;
    uint64_t prof = o.count("profile") ? strtoull(o["profile"].c_str(), nullptr, 10) : 160;
    {
        unsigned save = g_scenario->fault_permille, salarm = g_alarm;
        g_scenario->fault_permille = 0;
        g_alarm = std::min(g_alarm, 10u); // what hangs here hangs again in the search, where it is reported
        std::vector<pid_t> ps;
        for (int w = 0; w < jobs; w++) {
            pid_t pid = fork();
            if (pid == 0) {
                for (uint64_t i = (uint64_t)w; i < prof; i += (uint64_t)jobs) {
                    if (now() - t0 > maxs * 0.3) break;
                    Plan p = make_plan(mix(seed, 0x9f0f), i, w);
                    dry_run(p, w);
                    count_sites(w);
                }
                _exit(0);
            }
            ps.push_back(pid);
        }
        for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "profiling worker died\n"); return 4; } }
        g_scenario->fault_permille = save;
        g_alarm = salarm;
    }
    g_sh->harvest = 0;
    for (size_t i = 0; i < kDict; i++)
        if (g_sh->dict[i]) g_ctx.dict.push_back(g_sh->dict[i]);
    std::sort(g_ctx.dict.begin(), g_ctx.dict.end());
    for (unsigned c = 0; c < 64; c++)
        for (unsigned k = 0; k < F_KINDS; k++) g_evmax[c][k] = g_sh->evmax[c * F_KINDS + k];
    double tprof = now() - t0;
    t0 += std::max(0.0, tprof - maxs * 0.4); // the search keeps most of its time whatever the profiling pass met

    g_sh->min_violation = ~0ULL;
    std::set<uint64_t> skip; // candidate runs which did not pass the gate
    Agg                total;
    total.edges.resize(kEdges);
    uint64_t    start = 0, unstable = 0;
    int         rc = 0;
    std::string vkind, vmsg;
    uint64_t    vrun = 0;
    std::string vplan;
    std::vector<std::string> samples;
    for (;;) {
        g_sh->min_violation = ~0ULL;
        std::vector<pid_t> ps;
        for (int w = 0; w < jobs; w++) {
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); return 4; }
            if (pid == 0) {
                Agg a;
                a.edges.resize(kEdges);
                for (uint64_t i = start + (uint64_t)w; i < runs; i += (uint64_t)jobs) {
                    if (now() - t0 > maxs) break;
                    if (i > g_sh->min_violation) break;
                    if (skip.count(i)) continue;
                    Plan   p = make_plan(seed, i, w);
                    RunOut r = run_plan(p, w);
                    a.last_run = i;
                    if (r.timeout) { a.timeouts++; if (r.kind == "killed") continue; }
                    absorb(a, g_sh->res[w], p);
                    if (r.violation || r.timeout) {
                        if (known.count(r.kind)) {
                            a.known++;
                            a.known_hits[r.kind]++;
                            continue;
                        }
                        a.bad.emplace_back(i, r.kind);
                        uint64_t m = g_sh->min_violation;
                        while (i < m && !__sync_bool_compare_and_swap(&g_sh->min_violation, m, i)) m = g_sh->min_violation;
                        break;
                    }
                    if (i % 61 == 0) { // determinism sample: same run again
                        a.dchecks++;
                        RunOut r2 = run_plan(p, w);
                        if (r2.violation || r2.hash != r.hash || r2.steps != r.steps) a.dmismatch++;
                    }
                }
                dump(a, outdir + "/worker" + std::to_string(w));
                _exit(0);
            }
            ps.push_back(pid);
        }
        for (pid_t p : ps) {
            int st;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "worker died (status %d)\n", st); return 4; }
        }
        Agg round;
        round.edges.resize(kEdges);
        for (int w = 0; w < jobs; w++) {
            merge(total, outdir + "/worker" + std::to_string(w));
            merge(round, outdir + "/worker" + std::to_string(w));
        }
        if (round.bad.empty()) break;
        std::sort(round.bad.begin(), round.bad.end());
        bool confirmed = false;
        for (auto& cand : round.bad) {
            // gate: the same plan must fail the same way twice more, and in a fresh process
            Plan   p  = make_plan(seed, cand.first, 0);
            RunOut r1 = run_plan(p, 0), r2 = run_plan(p, 0);
            bool   ok = (r1.violation || r1.timeout) && (r2.violation || r2.timeout) && r1.kind == cand.second && r2.kind == cand.second;
            if (ok && excused(p, 0)) {
                fprintf(stderr, "run %llu: candidate %s also occurs in the baseline run, not a violation of this property\n", (unsigned long long)cand.first, cand.second.c_str());
                unstable++;
                skip.insert(cand.first);
                continue;
            }
            if (!ok) {
                fprintf(stderr, "run %llu: candidate %s did not reproduce (%s/%s), discarded\n", (unsigned long long)cand.first, cand.second.c_str(), r1.kind.c_str(), r2.kind.c_str());
                unstable++;
                skip.insert(cand.first);
                continue;
            }
            Plan m = r1.timeout ? p : minimise(p, r1, 0, 25);
            RunOut rm = run_plan(m, 0);
            if (!((rm.violation || rm.timeout) && rm.kind == r1.kind)) { m = p; rm = r1; }
            if (!write_replay(rpath, m, rm, seed, cand.first)) return 4;
            std::string cmd = std::string(self) + " replay --file " + rpath + " >/dev/null 2>&1";
            int         s   = system(cmd.c_str());
            if (!WIFEXITED(s) || WEXITSTATUS(s) != 3) {
                write_replay(rpath, p, r1, seed, cand.first); // try the unminimised plan
                m  = p;
                rm = r1;
                s = system(cmd.c_str());
            }
            if (!WIFEXITED(s) || WEXITSTATUS(s) != 3) {
                fprintf(stderr, "run %llu: %s not reproduced in a fresh process, discarded\n", (unsigned long long)cand.first, cand.second.c_str());
                unstable++;
                skip.insert(cand.first);
                continue;
            }
            confirmed = true;
            vkind     = rm.kind;
            vmsg      = rm.msg;
            vrun      = cand.first;
            vplan     = plan_str(m);
            rc        = 1;
            break;
        }
        if (confirmed || unstable > 12 || now() - t0 > maxs * 1.5) break;
        uint64_t lo = round.bad.front().first; // resume after the discarded candidate
        start = lo;
    }
    for (uint64_t i = 0; i < 3; i++) samples.push_back(plan_str(make_plan(seed, i * 7 + 1, 0)));
    double wall = now() - t0;
    uint64_t ne = 0;
    for (size_t i = 0; i < kEdges; i++) ne += total.edges[i];
    FILE* f = fopen((outdir + "/stats.json").c_str(), "w");
    if (!f) return 4;
    fprintf(f, "{\"variant\":%s,\"runs\":%" PRIu64 ",\"ops\":%" PRIu64 ",\"steps\":%" PRIu64 ",\"preemptions\":%" PRIu64 ",\"rng_bytes\":%" PRIu64
               ",\"scenario_events\":%" PRIu64 ",\"resource_requests\":%" PRIu64 ",\"runs_with_resource_fault\":%" PRIu64 ",\"timeouts\":%" PRIu64
               ",\"determinism_rechecked\":%" PRIu64 ",\"determinism_mismatches\":%" PRIu64 ",\"known_hits\":%" PRIu64 ",\"unstable_candidates\":%" PRIu64
               ",\"distinct_nontrivial_traces\":%zu,\"distinct_states\":%zu,\"distinct_interleavings\":%zu,\"edges_covered\":%" PRIu64
               ",\"edges_total\":%u,\"dictionary\":%zu,\"wall_s\":%.2f,\"profile_s\":%.2f,\"seeds_per_hour\":%.0f",
            jstr(g_variant).c_str(), total.runs, total.ops, total.steps, total.switches, total.rng, total.events, total.resev, total.faulted, total.timeouts,
            total.dchecks, total.dmismatch, total.known, unstable, total.traces.size(), total.states.size(), total.inter.size(), ne, edge_count(), g_ctx.dict.size(), wall, tprof,
            wall > 0 ? double(total.runs) * 3600.0 / wall : 0.0);
    fprintf(f, ",\"faults_fired\":{");
    bool first = true;
    for (unsigned k = 0; k < F_KINDS; k++)
        if (total.fault_fired[k]) { fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(kFaultNames[k]).c_str(), total.fault_fired[k]); first = false; }
    for (auto& e : total.evs) { fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(e.first).c_str(), e.second); first = false; }
    fprintf(f, "},\"probes\":{");
    first = true;
    for (auto& e : total.probes) { fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(e.first).c_str(), e.second); first = false; }
    fprintf(f, "},\"op_counts\":{");
    first = true;
    for (auto& e : total.opcount) {
        fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(e.first < g_scenario->op_names.size() ? g_scenario->op_names[e.first] : std::to_string(e.first)).c_str(), e.second);
        first = false;
    }
    fprintf(f, "},\"known_kinds\":{");
    first = true;
    for (auto& e : total.known_hits) { fprintf(f, "%s%s:%" PRIu64, first ? "" : ",", jstr(e.first).c_str(), e.second); first = false; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(samples[i]).c_str());
    fprintf(f, "]");
    if (rc == 1) fprintf(f, ",\"violation\":{\"run\":%" PRIu64 ",\"kind\":%s,\"message\":%s,\"minimised\":%s}", vrun, jstr(vkind).c_str(), jstr(vmsg).c_str(), jstr(vplan).c_str());
    fprintf(f, "}\n");
    fclose(f);
    return rc;
}


} // namespace sim

using namespace sim;

extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:handle_abort=0:"
           "quarantine_size_mb=4:max_malloc_fill_size=0:detect_odr_violation=0:symbolize=0";
}
extern "C" const char* __tsan_default_options()
{
    return "exitcode=66:halt_on_error=1:report_bugs=1:report_signal_unsafe=0:die_after_fork=0:symbolize=0:atexit_sleep_ms=0";
}

int main(int argc, char** argv)
{
    std::map<std::string, std::string> o;
    std::string                        cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
    // one address-space layout for every run of every process
    if (!getenv("SIM_NOASLR")) {
        int pers = personality(0xffffffff);
        if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOASLR", "1", 1);
            setenv("LD_BIND_NOW", "1", 1); // lazy binding saves vector registers on the stack
            execv("/proc/self/exe", argv);
        }
    }
    g_variant = SIM_VARIANT;
    rt_init();
    g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (!g_scenario) return 4;
    g_run.slot = 63;
    install_rng();
    if (o.count("alarm")) g_alarm = (unsigned)atoi(o["alarm"].c_str());
    {
        // set-up runs library code: if it crashes, that is itself reported (in a child first)
        Result_& r = g_sh->res[63];
        memset(&r, 0, sizeof r);
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            alarm(120);
            g_scenario->setup();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            fprintf(stderr, "set-up failed: %s %s\n", r.kind, r.msg);
            if (cmd == "search") {
                Plan   p;
                RunOut ro;
                ro.kind = r.verdict == V_VIOLATION ? r.kind : "setup-crash";
                ro.msg  = r.verdict == V_VIOLATION ? r.msg : "the library crashed while the scenario was set up";
                write_replay(o["replay"], p, ro, 0, 0);
                FILE* f = fopen((o["out"] + "/stats.json").c_str(), "w");
                if (f) {
                    fprintf(f, "{\"variant\":%s,\"runs\":1,\"ops\":0,\"steps\":0,\"wall_s\":0.1,\"violation\":{\"run\":0,\"kind\":%s,\"message\":%s,\"minimised\":\"set-up\"}}\n",
                            jstr(g_variant).c_str(), jstr(ro.kind).c_str(), jstr(ro.msg).c_str());
                    fclose(f);
                }
                return 1;
            }
            return 3;
        }
        memset(&r, 0, sizeof r);
    }
    g_scenario->setup();
    tls().inlib = 0;
    if (cmd == "search") return cmd_search(o, (std::string("/proc/") + std::to_string(getpid()) + "/exe").c_str());
    if (cmd == "replay") {
        Plan        p;
        std::string kind;
        g_verbose = true;
        if (!read_replay(o["file"], p, kind)) return 4;
        RunOut r = run_plan(p, 0);
        if (r.violation || r.timeout) {
            printf("reproduced kind=%s expected=%s: %s\n", r.kind.c_str(), kind.c_str(), r.msg.c_str());
            return r.kind == kind ? 3 : 5;
        }
        printf("no violation (trace %016" PRIx64 ")\n", r.hash);
        return 0;
    }
    if (cmd == "hashes") { // determinism proof: prints the trace hash of every run
        uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10), n = strtoull(o["runs"].c_str(), nullptr, 10);
        // fixed resource-request profile, so that the plans do not depend on the profiling pass
        for (auto& c : g_evmax)
            for (unsigned k = 0; k < F_ENOSYS; k++) c[k] = 6;
        for (uint64_t i = 0; i < n; i++) {
            Plan   p = make_plan(seed, i, 0);
            RunOut r = run_plan(p, 0);
            printf("%" PRIu64 " %016" PRIx64 " %" PRIu64 " %016" PRIx64 " %s\n", i, r.hash, r.steps, g_sh->res[0].ihash, r.kind.c_str());
        }
        return 0;
    }
    if (cmd == "one") { // one generated run, verbose
        uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10), i = strtoull(o["run"].c_str(), nullptr, 10);
        for (auto& c : g_evmax)
            for (unsigned k = 0; k < F_ENOSYS; k++) c[k] = 6;
        g_verbose = true;
        Plan   p  = make_plan(seed, i, 0);
        RunOut r  = run_plan(p, 0);
        printf("%s\n%s %s\n", plan_str(p).c_str(), r.kind.c_str(), r.msg.c_str());
        for (auto& c : g_sh->res[0].probes)
            if (c.name[0]) printf("  %s=%llu\n", c.name, (unsigned long long)c.n);
        return r.violation ? 3 : 0;
    }
    return 4;
}
