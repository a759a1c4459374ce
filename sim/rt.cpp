// Runtime seams of the simulator: allocator, page protection, randomness, coverage steps, threads.
// Compiled without instrumentation.
#include "rt.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <new>
#include <stdexcept>
#include <linux/futex.h>
#include <pthread.h>
#include <sodium.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include <sched.h>

#ifndef SIM_TSAN
#define NO_SAN
#else
#define NO_SAN __attribute__((no_sanitize("thread")))
#endif

extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void  __real_free(void*);
void* __real_sodium_malloc(size_t);
void* __real_sodium_allocarray(size_t, size_t);
void  __real_sodium_free(void*);
int   __real_sodium_mprotect_noaccess(void*);
int   __real_sodium_mprotect_readonly(void*);
int   __real_sodium_mprotect_readwrite(void*);
int   __real_sodium_runtime_has_aesni(void);
int   __real_pthread_mutex_lock(pthread_mutex_t*);
int   __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int   __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int   __real_pthread_spin_lock(pthread_spinlock_t*);
int   __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int   __real_sched_yield(void);
int   __real_pthread_once(pthread_once_t*, void (*)(void));
int   __real___cxa_guard_acquire(uint64_t*);
#ifdef SIM_TSAN
void __tsan_write_range(void*, unsigned long);
void AnnotateIgnoreReadsBegin(const char*, int);
void AnnotateIgnoreReadsEnd(const char*, int);
void AnnotateIgnoreWritesBegin(const char*, int);
void AnnotateIgnoreWritesEnd(const char*, int);
void AnnotateHappensBefore(const char*, int, void*);
void AnnotateHappensAfter(const char*, int, void*);
#endif
}

namespace sim {

const char* const kFaultNames[F_KINDS] = {"new_bad_alloc", "malloc_null", "sodium_malloc_null", "mprotect_noaccess_fails",
                                          "mprotect_readonly_fails", "mprotect_readwrite_fails", "mprotect_enosys", "any_request_fails"};

Shared*  g_sh   = nullptr;
static thread_local TlState tl;
TlState& tls() { return tl; }

RunState g_run;

// ------------------------------------------------------------------ reporting
void fail(const char* kind, const char* fmt, ...)
{
    tl.inlib = 0;
    if (g_sh) {
        Result_& r = g_sh->res[g_run.slot];
        if (r.verdict == V_RUNNING) {
            va_list ap;
            va_start(ap, fmt);
            snprintf(r.kind, sizeof r.kind, "%s", kind);
            vsnprintf(r.msg, sizeof r.msg, fmt, ap);
            va_end(ap);
            r.last_op = g_run.cur_op_global;
            r.verdict = V_VIOLATION;
        }
    }
    _exit(3);
}

// ------------------------------------------------------------------ steps and preemption
static void hand_over();
[[noreturn]] static void budget_exceeded()
{
    fail("hang", "no completion within %llu steps", (unsigned long long)g_run.step_budget);
}
static inline void step()
{
    if (__builtin_expect(tl.inlib <= 0, 1)) return;
    uint64_t s = ++g_run.steps;
    if (__builtin_expect(s >= g_run.next_stop, 0)) {
        if (s >= g_run.step_budget) budget_exceeded();
        if (g_run.threads) {
            hand_over();
        } else {
            g_run.next_stop = g_run.step_budget;
        }
    }
}
uint64_t steps() { return g_run.steps; }

// ------------------------------------------------------------------ threads (baton passing)
static int      g_baton = 0;
static long     futex(int* addr, int op, int val) { return syscall(SYS_futex, addr, op, val, nullptr, nullptr, 0); }
static void     wait_for_baton(int me)
{
    for (;;) {
        int c = __atomic_load_n(&g_baton, __ATOMIC_SEQ_CST);
        if (c == me) return;
        futex(&g_baton, FUTEX_WAIT_PRIVATE, c);
    }
}
struct Errno // switching threads is invisible to the code which is switched
{
    int e;
    Errno() : e(errno) {}
    ~Errno() { errno = e; }
};
static void give_baton(int to)
{
    __atomic_store_n(&g_baton, to, __ATOMIC_SEQ_CST);
    futex(&g_baton, FUTEX_WAKE_PRIVATE, 1 << 30);
}
struct Thr
{
    const std::function<void()>* body;
    int                          id;
    bool                         done;
};
static const int kMaxThr = 16;
static Thr       g_thr[kMaxThr];
static int       g_nthr;
static void      set_next_stop()
{
    uint64_t n = g_run.step_budget;
    if (g_run.sched_pos < g_run.sched_n) n = g_run.sched[g_run.sched_pos].step;
    uint64_t forced = g_run.last_switch + 20000000ULL; // keeps spin locks live
    if (forced < n) n = forced;
    if (n <= g_run.steps) n = g_run.steps + 1;
    g_run.next_stop = n;
}
// the calling thread cannot go on: somebody else runs. False: nobody else can
static uint64_t g_spin_steps, g_spins;
static int      next_runnable(int me, uint32_t to);
static bool     yield_blocked()
{
    Errno keep;
    if (g_run.steps != g_spin_steps) {
        g_spin_steps = g_run.steps;
        g_spins      = 0;
    }
    int nxt = next_runnable(tl.tid, (uint32_t)mix(g_run.steps, g_spins));
    if (nxt < 0 || ++g_spins > 2000) return false;
    g_run.last_switch = g_run.steps;
    set_next_stop();
    g_run.switches++;
    give_baton(nxt);
    wait_for_baton(tl.tid);
    return true;
}
static int next_runnable(int me, uint32_t to)
{
    int alive = 0;
    for (int i = 0; i < g_nthr; i++)
        if (!g_thr[i].done && i != me) alive++;
    if (!alive) return -1;
    int k = int(to % (uint32_t)alive);
    for (int i = 0; i < g_nthr; i++)
        if (!g_thr[i].done && i != me && k-- == 0) return i;
    return -1;
}
static void hand_over()
{
    Errno    keep;
    uint32_t to = 0;
    if (g_run.nopreempt > 0) { // inside a critical section: try again a little later
        g_run.next_stop = g_run.steps + 1;
        return;
    }
    while (g_run.sched_pos < g_run.sched_n && g_run.sched[g_run.sched_pos].step <= g_run.steps) {
        to = g_run.sched[g_run.sched_pos].to;
        g_run.sched_pos++;
    }
    g_run.last_switch = g_run.steps;
    set_next_stop();
    int nxt = next_runnable(tl.tid, to);
    if (nxt < 0) return;
    g_run.switches++;
    g_run.ihash = mix(g_run.ihash, mix(tl.last_edge, (uint64_t(tl.tid) << 8) | (unsigned)nxt));
    give_baton(nxt);
    wait_for_baton(tl.tid);
}
// data races are looked for in library code only
static inline void tsan_ignore(bool on)
{
#ifdef SIM_TSAN
    if (on) {
        AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
        AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
    } else {
        AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
        AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
    }
#else
    (void)on;
#endif
}
void passed_on(void* p)
{
#ifdef SIM_TSAN
    AnnotateHappensBefore(__FILE__, __LINE__, p);
#else
    (void)p;
#endif
}
void received(void* p)
{
#ifdef SIM_TSAN
    AnnotateHappensAfter(__FILE__, __LINE__, p);
#else
    (void)p;
#endif
}
static int   g_finished, g_next;
static void* thr_main(void* p)
{
    Thr* t    = static_cast<Thr*>(p);
    tl        = TlState();
    tl.simthr = true;
    tsan_ignore(true);
    tl.tid    = t->id;
    tl.seed   = mix(g_run.data_seed, 0x7700 + (unsigned)t->id);
    wait_for_baton(t->id);
    (*t->body)();
    t->done           = true;
    tl.inlib          = 0;
    g_run.last_switch = g_run.steps;
    uint32_t to       = (uint32_t)mix(g_run.data_seed, (uint64_t)t->id);
    int      nxt      = next_runnable(t->id, to);
    g_run.ihash       = mix(g_run.ihash, 0x100 + (unsigned)t->id);
    set_next_stop();
    g_finished = t->id;
    g_next     = nxt;
    tsan_ignore(false);
    give_baton(1000);
    return nullptr;
}
void run_threads(const Plan& plan, const std::vector<std::function<void()>>& bodies)
{
    g_nthr            = (int)bodies.size();
    g_run.threads     = true;
    g_run.sched       = plan.sched.data();
    g_run.sched_n     = plan.sched.size();
    g_run.sched_pos   = 0;
    g_run.last_switch = g_run.steps;
    pthread_t th[kMaxThr];
    __atomic_store_n(&g_baton, -1, __ATOMIC_SEQ_CST);
    for (int i = 0; i < g_nthr; i++) {
        g_thr[i] = Thr{&bodies[(size_t)i], i, false};
        if (pthread_create(&th[i], nullptr, thr_main, &g_thr[i]) != 0) {
            fprintf(stderr, "pthread_create failed\n");
            _exit(4);
        }
    }
    set_next_stop();
    give_baton(int(mix(g_run.data_seed, 0x5a) % (uint64_t)g_nthr));
    for (;;) {
        wait_for_baton(1000);
        pthread_join(th[g_finished], nullptr); // its thread-local destructors have run
        if (g_next < 0) break;
        give_baton(g_next);
    }
    g_run.threads   = false;
    g_run.next_stop = g_run.step_budget;
}
uint64_t interleaving_hash() { return g_run.ihash; }
uint32_t thread_id() { return (uint32_t)tl.tid; }

// ------------------------------------------------------------------ ops and faults
void begin_op(size_t i)
{
    tl.op      = (uint32_t)i;
    tl.nf      = 0;
    tl.any_ev  = 0;
    tl.fired   = 0;
    tl.armed   = false;
    for (unsigned k = 0; k < F_KINDS; k++) tl.ev[k] = 0;
    if (g_run.plan) {
        for (const Fault& f : g_run.plan->faults)
            if (f.op == i && tl.nf < 4) {
                tl.f[tl.nf++] = f;
                tl.armed      = true;
            }
    }
    g_run.cur_op_global = (uint32_t)i;
    if (g_sh) g_sh->res[g_run.slot].last_op = (uint32_t)i;
    tl.inop = true;
}
void end_op()
{
    if (g_sh && g_sh->harvest && g_run.plan && tl.op < g_run.plan->ops.size()) {
        uint32_t c = g_run.plan->ops[tl.op].code;
        if (c < 64)
            for (unsigned k = 0; k < F_KINDS; k++) {
                uint32_t* m = &g_sh->evmax[c * F_KINDS + k];
                uint32_t  o = __atomic_load_n(m, __ATOMIC_RELAXED);
                while (tl.ev[k] > o && !__atomic_compare_exchange_n(m, &o, tl.ev[k], true, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {}
            }
    }
    tl.inop  = false;
    tl.nf    = 0;
    tl.armed = false;
}
void set_protection_unsupported(bool on) { g_run.enosys_always = on; }
bool fault_fired() { return tl.fired != 0; }
bool fault_fired_kind(FaultKind k) { return (tl.fired >> k) & 1; }
bool fault_armed() { return tl.armed; }

// the place a request comes from: return addresses inside this program, up to the entry into the library
extern "C" char __executable_start, etext;
static __attribute__((noinline)) uint32_t site_of(uint32_t group[3])
{
    uintptr_t lo = (uintptr_t)&__executable_start, hi = (uintptr_t)&etext, fp = (uintptr_t)__builtin_frame_address(0);
    uintptr_t ras[64];
    unsigned  n = 0;
    while (n < 64 && fp < tl.base && !(fp & 7)) {
        uintptr_t next = ((uintptr_t*)fp)[0], ra = ((uintptr_t*)fp)[1];
        if (ra >= lo && ra < hi) ras[n++] = ra - lo;
        if (next <= fp) break;
        fp = next;
    }
    uint64_t h = 0x517e, g = 0x9209;
    for (unsigned i = 0; i < n && i < 14; i++) h = mix(h, ras[i]);
    for (unsigned i = 0, j = 0; i < 7; i++) {
        if (i < n) g = mix(g, ras[n - 1 - i]);
        if (i == 2 || i == 4 || i == 6) group[j++] = (uint32_t)(g >> 32);
    }
    return (uint32_t)(h >> 32) | 1;
}
static void record_site(FaultKind kind, uint32_t e)
{
    SiteRec* t = g_sh->sites[g_run.slot].rec;
    SiteRec  n{tl.op, 0, kind, e, e, 1, {0, 0, 0}};
    uint32_t s = n.site = site_of(n.group);
    size_t   h = mix(mix(tl.op, s), kind) % kSites;
    for (size_t i = 0; i < 24; i++, h = (h + 1) % kSites) {
        if (t[h].count == 0) { t[h] = n; return; }
        if (t[h].op == tl.op && t[h].site == s && t[h].kind == (uint32_t)kind) { t[h].last = e; t[h].count++; return; }
    }
}

// the k-th event of `kind`: should it fail? returns errno-ish code, 0 = no
static int fire(FaultKind kind)
{
    bool prot = kind == F_NOACCESS || kind == F_READONLY || kind == F_READWRITE;
    if (prot && g_run.enosys_always) { // platform without page protection: not a failure
        if (g_sh) g_sh->res[g_run.slot].fault_fired[F_ENOSYS]++;
        return ENOSYS;
    }
    if (tl.inlib <= 0) return 0;
    step();
    uint32_t e = tl.ev[kind]++;
    uint32_t a = tl.any_ev++;
    if (g_sh) g_sh->res[g_run.slot].res_events++;
    if (!tl.inop) return 0;
    if (g_sh && g_sh->sites[g_run.slot].recording) record_site(kind, e);
    for (unsigned i = 0; i < tl.nf; i++) {
        const Fault& f = tl.f[i];
        bool hit = (f.kind == kind && e >= f.k && e < f.k + f.n) || (f.kind == F_ANY && a >= f.k && a < f.k + f.n);
        if (hit) {
            tl.fired |= 1u << kind;
            if (g_sh) g_sh->res[g_run.slot].fault_fired[kind]++;
            return ENOMEM;
        }
    }
    return 0;
}

Lib::Lib()
{
    if (tl.inlib == 0) tl.base = (uintptr_t)__builtin_frame_address(0);
    if (tl.inlib++ == 0 && tl.simthr) tsan_ignore(false);
}
Lib::~Lib()
{
    if (--tl.inlib == 0 && tl.simthr) tsan_ignore(true);
}
Unlib::Unlib() : saved(tl.inlib)
{
    if (saved > 0 && tl.simthr) tsan_ignore(true);
    tl.inlib = 0;
}
Unlib::~Unlib()
{
    tl.inlib = saved;
    if (saved > 0 && tl.simthr) tsan_ignore(false);
}

// ------------------------------------------------------------------ notes
void note_u64(uint64_t v) { g_run.thash = mix(g_run.thash, v); }
void note(const void* p, size_t n)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    uint64_t       h = 0xcbf29ce484222325ULL ^ n;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
    note_u64(h);
}
static void named(const char* name, uint64_t n, NamedCounter* tab, int max)
{
    for (int i = 0; i < max; i++) {
        if (tab[i].name[0] == 0) snprintf(tab[i].name, sizeof tab[i].name, "%s", name);
        if (strncmp(tab[i].name, name, sizeof tab[i].name - 1) == 0) {
            tab[i].n += n;
            return;
        }
    }
}
void probe(const char* name, uint64_t n)
{
    if (g_sh) named(name, n, g_sh->res[g_run.slot].probes, kProbes);
}
void event(const char* name)
{
    if (g_sh) {
        named(name, 1, g_sh->res[g_run.slot].events, kEvents);
        g_sh->res[g_run.slot].n_events++;
    }
    note_u64(mix(0xe7e7, strlen(name) * 131 + (unsigned char)name[0]));
}
void state_seen(uint64_t h)
{
    g_run.thash = mix(g_run.thash, h);
    if (g_sh) {
        Result_& r = g_sh->res[g_run.slot];
        if (r.n_states < kStates) r.states[r.n_states++] = h;
    }
}

// ------------------------------------------------------------------ randomness
void rng_seed(uint64_t seed)
{
    tl.seed = seed;
    tl.pos  = 0;
    tl.flip_mask = 0;
}
uint64_t rng_consumed() { return tl.pos; }
void     rng_rewind(uint64_t pos) { tl.pos = pos; }
void     rng_flip(uint64_t idx, uint8_t mask)
{
    tl.flip_idx  = idx;
    tl.flip_mask = mask;
}
std::string rng_peek(size_t n)
{
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++) s[i] = char(mix(tl.seed, (tl.pos + i) >> 3) >> (8 * ((tl.pos + i) & 7)));
    return s;
}
static void rnd_buf(void* const buf, const size_t n)
{
    uint8_t* o = static_cast<uint8_t*>(buf);
#ifdef SIM_TSAN
    if (n) __tsan_write_range(buf, n);
#endif
    int saved = tl.inlib; tl.inlib = 0;
    for (size_t i = 0; i < n; i++) {
        uint64_t idx = tl.pos + i;
        uint64_t w   = mix(tl.seed, idx >> 3);
        o[i]         = uint8_t(w >> (8 * (idx & 7)));
        if (tl.flip_mask && idx == tl.flip_idx) o[i] ^= tl.flip_mask;
    }
    tl.pos += n;
    tl.inlib = saved;
    if (g_sh) g_sh->res[g_run.slot].rng_bytes += n;
    step();
}
static uint32_t rnd_u32()
{
    uint32_t v;
    rnd_buf(&v, 4);
    return v;
}
static const char* rnd_name() { return "sim"; }
static int         rnd_close() { return 0; }
static struct randombytes_implementation g_rnd_impl = {rnd_name, rnd_u32, nullptr, nullptr, rnd_buf, rnd_close};
void install_rng() { randombytes_set_implementation(&g_rnd_impl); }

// ------------------------------------------------------------------ memory
struct HeapEnt
{
    uint8_t* p;
    size_t   n;
    uint64_t id;
};
static const size_t kHeapCap = 1u << 16;
static HeapEnt*     g_heap; // open addressing
static size_t       g_heap_used, g_heap_dropped;
static bool         g_track_heap;
static uint64_t     g_next_id = 1;
static Prot*        g_prot;
static size_t       g_prot_n;
static const size_t kProtCap = 1u << 14;

void rt_init()
{
    g_heap = static_cast<HeapEnt*>(mmap(nullptr, kHeapCap * sizeof(HeapEnt), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    g_prot = static_cast<Prot*>(mmap(nullptr, kProtCap * sizeof(Prot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
}
static size_t heap_slot(const void* p) { return (mix((uint64_t)(uintptr_t)p, 7)) & (kHeapCap - 1); }
static void   heap_add(void* p, size_t n)
{
    if (!g_track_heap || !g_heap || !p) return;
    if (g_heap_used * 2 > kHeapCap) {
        g_heap_dropped++;
        return;
    }
    size_t i = heap_slot(p);
    while (g_heap[i].p != nullptr) i = (i + 1) & (kHeapCap - 1);
    g_heap[i] = HeapEnt{static_cast<uint8_t*>(p), n, g_next_id++};
    g_heap_used++;
}
static size_t heap_remove(void* p)
{
    if (!g_heap || !p || g_heap_used == 0) return 0;
    size_t i = heap_slot(p);
    while (g_heap[i].p != nullptr) {
        if (g_heap[i].p == p) {
            size_t n = g_heap[i].n ? g_heap[i].n : 1;
            // backward-shift deletion
            size_t j = i;
            for (;;) {
                j = (j + 1) & (kHeapCap - 1);
                if (g_heap[j].p == nullptr) break;
                size_t h = heap_slot(g_heap[j].p);
                if ((i <= j) ? (i < h && h <= j) : (i < h || h <= j)) continue;
                g_heap[i] = g_heap[j];
                i         = j;
            }
            g_heap[i] = HeapEnt{nullptr, 0, 0};
            g_heap_used--;
            return n;
        }
        i = (i + 1) & (kHeapCap - 1);
    }
    return 0;
}
void              track_heap(bool on) { g_track_heap = on; }
size_t            live_heap_count() { return g_heap_used; }
std::vector<Heap> live_heap()
{
    std::vector<Heap> v;
    for (size_t i = 0; i < kHeapCap; i++)
        if (g_heap[i].p) v.push_back(Heap{g_heap[i].p, g_heap[i].n, g_heap[i].id});
    return v;
}
std::vector<Prot> live_protected() { return std::vector<Prot>(g_prot, g_prot + g_prot_n); }
size_t            live_protected_count() { return g_prot_n; }

// secrets
struct Secret
{
    uint8_t b[64];
    size_t  n;
    char    what[40];
};
static const size_t kSecCap = 2048;
static Secret*      g_sec;
static size_t       g_sec_n;
static bool         g_check_rel;
static char         g_dirty[160];
static uint8_t      g_first[8192]; // two-byte prefixes of all 16-byte pieces of the secrets
static inline void  mark_first(const uint8_t* b) { unsigned x = b[0] | b[1] << 8; g_first[x >> 3] = uint8_t(g_first[x >> 3] | 1 << (x & 7)); }
static inline bool  is_first(const uint8_t* b) { unsigned x = b[0] | b[1] << 8; return g_first[x >> 3] >> (x & 7) & 1; }
// offsets of the 16-byte pieces looked for in released memory: every 8 bytes, and the end
static inline size_t piece(size_t j, size_t n) { return j * 8 + 16 <= n ? j * 8 : n - 16; }
static inline size_t pieces(size_t n) { return (n - 16 + 7) / 8 + 1; }
void                secret_add(const void* p, size_t n, const char* what)
{
    if (!g_sec) g_sec = static_cast<Secret*>(mmap(nullptr, kSecCap * sizeof(Secret), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (g_sec_n >= kSecCap || n < 16) return;
    if (n > 64) n = 64;
    Secret& s = g_sec[g_sec_n++];
    memcpy(s.b, p, n);
    s.n = n;
    for (size_t j = 0; j < pieces(n); j++) mark_first(s.b + piece(j, n));
    snprintf(s.what, sizeof s.what, "%s", what);
}
size_t secrets_mark() { return g_sec_n; }
void   secrets_reset(size_t mark) { if (mark < g_sec_n) g_sec_n = mark; }
void secrets_clear()
{
    g_sec_n    = 0;
    g_dirty[0] = 0;
    memset(g_first, 0, sizeof g_first);
}
bool secret_find(const void* p, size_t n, std::string* what)
{
    const uint8_t* b = static_cast<const uint8_t*>(p);
    if (n < 16) return false;
    for (size_t i = 0; i + 16 <= n; i++) {
        if (!is_first(b + i)) continue;
        for (size_t k = 0; k < g_sec_n; k++) {
            const Secret& s = g_sec[k];
            if (b[i] != s.b[0] || i + s.n > n) continue;
            if (memcmp(b + i, s.b, s.n) == 0) {
                if (what) *what = s.what;
                return true;
            }
        }
    }
    return false;
}
void check_released(bool on) { g_check_rel = on; }
bool dirty_release(std::string* what)
{
    if (!g_dirty[0]) return false;
    if (what) *what = g_dirty;
    return true;
}
static void releasing(void* p, size_t n)
{
    if (!g_check_rel || g_dirty[0] || n == 0 || g_sec_n == 0) return;
    // plain loop, no std::string: may run inside the library's release paths
    const uint8_t* b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i + 16 <= n; i++) {
        if (!is_first(b + i)) continue;
        for (size_t k = 0; k < g_sec_n; k++) {
            const Secret& s = g_sec[k];
            for (size_t j = 0; j < pieces(s.n); j++) {
                size_t o = piece(j, s.n);
                if (memcmp(b + i, s.b + o, 16) == 0) {
                    snprintf(g_dirty, sizeof g_dirty, "%s (from its byte %zu on) found in a released %zu-byte heap block at offset %zu", s.what, o, n, i);
                    return;
                }
            }
        }
    }
}

static int g_pipe[2] = {-1, -1};
bool       readable(const void* p)
{
    if (g_pipe[0] < 0) {
        if (pipe2(g_pipe, O_NONBLOCK | O_CLOEXEC) != 0) _exit(4);
    }
    long r = syscall(SYS_write, g_pipe[1], p, 1);
    if (r == 1) {
        char c;
        syscall(SYS_read, g_pipe[0], &c, 1);
        return true;
    }
    return false;
}

static bool g_aes = true;
void        set_aes_available(bool on) { g_aes = on; }

static void fill(void* p, size_t n)
{
    if (p) {
        uint8_t* b = static_cast<uint8_t*>(p);
        for (size_t i = 0; i < n && i < 65536; i++) b[i] = 0xA5;
    }
}

extern bool g_scrub;
bool run_on_painted_stack(const std::function<void()>& f, std::string* what)
{
    static const size_t kSz  = 1 << 19;
    static uint8_t*     base = nullptr;
    static size_t       low  = 0; // everything below is still painted
    static ucontext_t   back, ctx;
    static const std::function<void()>* fn;
    if (!base) {
        base = static_cast<uint8_t*>(mmap(nullptr, kSz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        low  = 0;
    }
    memset(base + low, 0x5C, kSz - low);
    fn = &f;
    getcontext(&ctx);
    ctx.uc_stack.ss_sp   = base;
    ctx.uc_stack.ss_size = kSz;
    ctx.uc_link          = &back;
    makecontext(&ctx, reinterpret_cast<void (*)()>(+[]() { (*fn)(); }), 0);
    g_scrub = true;
    asm volatile("pxor %%xmm0,%%xmm0;pxor %%xmm1,%%xmm1;pxor %%xmm2,%%xmm2;pxor %%xmm3,%%xmm3;pxor %%xmm4,%%xmm4;pxor %%xmm5,%%xmm5;"
                 "pxor %%xmm6,%%xmm6;pxor %%xmm7,%%xmm7;pxor %%xmm8,%%xmm8;pxor %%xmm9,%%xmm9;pxor %%xmm10,%%xmm10;pxor %%xmm11,%%xmm11;"
                 "pxor %%xmm12,%%xmm12;pxor %%xmm13,%%xmm13;pxor %%xmm14,%%xmm14;pxor %%xmm15,%%xmm15"
                 : : : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
    swapcontext(&back, &ctx);
    g_scrub = false;
    uint64_t paint;
    memset(&paint, 0x5C, 8);
    low = 0;
    while (low + 8 <= kSz && memcmp(base + low, &paint, 8) == 0) low += 8;
    if (g_sh) named("stack-bytes-searched", kSz - low, g_sh->res[g_run.slot].probes, kProbes);
    return secret_find(base + low, kSz - low, what);
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ interposed symbols
static void* do_new(size_t n, bool nothrow, size_t align)
{
    if (tl.inlib > 0 && fire(F_NEW)) {
        if (nothrow) return nullptr;
        tl.inlib_saved = tl.inlib;
        throw std::bad_alloc();
    }
    void* p;
    if (align > 16) {
        if (posix_memalign(&p, align, n ? n : 1) != 0) p = nullptr;
    } else {
        p = __real_malloc(n ? n : 1);
    }
    if (!p) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (tl.inlib > 0) {
        fill(p, n);
        heap_add(p, n);
    }
    return p;
}
static void do_delete(void* p)
{
    if (!p) return;
    size_t n = heap_remove(p);
    if (n) releasing(p, n);
    __real_free(p);
}
void* operator new(size_t n) { return do_new(n, false, 0); }
void* operator new[](size_t n) { return do_new(n, false, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, true, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, true, 0); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, false, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, false, (size_t)a); }
void  operator delete(void* p) noexcept { do_delete(p); }
void  operator delete[](void* p) noexcept { do_delete(p); }
void  operator delete(void* p, size_t) noexcept { do_delete(p); }
void  operator delete[](void* p, size_t) noexcept { do_delete(p); }
void  operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void  operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void  operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void  operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void  operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void  operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }

extern "C" {

void* __wrap_malloc(size_t n)
{
    if (tl.inlib <= 0) return __real_malloc(n);
    if (fire(F_MALLOC)) { errno = ENOMEM; return nullptr; }
    void* p = __real_malloc(n ? n : 1);
    fill(p, n);
    heap_add(p, n);
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (tl.inlib <= 0) return __real_calloc(a, b);
    if (fire(F_MALLOC)) { errno = ENOMEM; return nullptr; }
    void* p = __real_calloc(a, b);
    heap_add(p, a * b);
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    if (tl.inlib <= 0) return __real_realloc(q, n);
    if (fire(F_MALLOC)) { errno = ENOMEM; return nullptr; }
    size_t old = heap_remove(q);
    if (old) releasing(q, old);
    void* p = __real_realloc(q, n);
    heap_add(p, n);
    return p;
}
void __wrap_free(void* p)
{
    if (p) {
        size_t n = heap_remove(p);
        if (n) releasing(p, n);
    }
    __real_free(p);
}

static void* prot_add(void* p, size_t n)
{
    if (p && g_prot && g_prot_n < kProtCap) g_prot[g_prot_n++] = Prot{static_cast<uint8_t*>(p), n, g_next_id++, false, (uint32_t)tl.tid};
    return p;
}
static Prot* prot_get(void* p)
{
    for (size_t i = g_prot_n; i-- > 0;)
        if (g_prot[i].p == p) return &g_prot[i];
    return nullptr;
}
void* __wrap_sodium_malloc(size_t n)
{
    if (fire(F_SMALLOC)) { errno = ENOMEM; return nullptr; }
    return prot_add(__real_sodium_malloc(n), n);
}
void* __wrap_sodium_allocarray(size_t c, size_t n)
{
    if (fire(F_SMALLOC)) { errno = ENOMEM; return nullptr; }
    return prot_add(__real_sodium_allocarray(c, n), c * n);
}
void __wrap_sodium_free(void* p)
{
    step();
    if (p) {
        Prot* q = prot_get(p);
        if (q) {
            *q = g_prot[g_prot_n - 1];
            g_prot_n--;
        }
    }
    __real_sodium_free(p);
}
static int prot_call(void* p, FaultKind k, int (*real)(void*))
{
    int   e = fire(k);
    Prot* q = prot_get(p);
    if (e) {
        if (q && k == F_NOACCESS) q->relock_refused = true;
        errno = e;
        return -1;
    }
    if (q && k == F_NOACCESS) q->relock_refused = false;
    return real(p);
}
int __wrap_sodium_mprotect_noaccess(void* p) { return prot_call(p, F_NOACCESS, __real_sodium_mprotect_noaccess); }
int __wrap_sodium_mprotect_readonly(void* p) { return prot_call(p, F_READONLY, __real_sodium_mprotect_readonly); }
int __wrap_sodium_mprotect_readwrite(void* p) { return prot_call(p, F_READWRITE, __real_sodium_mprotect_readwrite); }
int __wrap_sodium_runtime_has_aesni(void) { return g_aes ? __real_sodium_runtime_has_aesni() : 0; }

// Blocking primitives: a simulated thread never blocks in the kernel, it lets the others run.
#define BLOCKING(TRY, REAL)                                                                        \
    if (!(g_run.threads && tl.simthr)) return REAL;                                                \
    for (;;) {                                                                                     \
        int r_ = TRY;                                                                              \
        if (r_ != EBUSY && r_ != EAGAIN) return r_;                                                \
        if (!yield_blocked()) fail("deadlock", "every thread waits for a lock");                   \
    }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { BLOCKING(pthread_mutex_trylock(m), __real_pthread_mutex_lock(m)) }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { BLOCKING(pthread_rwlock_tryrdlock(m), __real_pthread_rwlock_rdlock(m)) }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { BLOCKING(pthread_rwlock_trywrlock(m), __real_pthread_rwlock_wrlock(m)) }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { BLOCKING(pthread_spin_trylock(m), __real_pthread_spin_lock(m)) }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!(g_run.threads && tl.simthr)) return __real_pthread_cond_wait(c, m);
    pthread_mutex_unlock(m); // a spurious wake-up
    if (!yield_blocked()) fail("deadlock", "every thread waits for a lock");
    return __wrap_pthread_mutex_lock(m);
}
int __wrap_sched_yield(void)
{
    if (g_run.threads && tl.simthr) { yield_blocked(); return 0; }
    return __real_sched_yield();
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (tl.inlib > 0) g_run.nopreempt++;
    int r = __real_pthread_once(o, f);
    if (tl.inlib > 0 && g_run.nopreempt > 0) g_run.nopreempt--;
    return r;
}
int __wrap___cxa_guard_acquire(uint64_t* g)
{
    if (g_run.threads && tl.simthr)
        while ((*(volatile uint64_t*)g & 0x1) == 0 && (*(volatile uint64_t*)g & 0xff00) != 0)
            if (!yield_blocked()) fail("deadlock", "every thread waits for a lock");
    return __real___cxa_guard_acquire(g);
}

// ------------------------------------------------------------------ coverage callbacks
static uint32_t g_guards;
void            __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++g_guards;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    if (__builtin_expect(tl.inlib <= 0, 1)) return;
    uint32_t id  = *g;
    tl.last_edge = id;
    if (g_sh && id < kEdges) g_sh->res[g_run.slot].edges[id] = 1;
    step();
}
void __sanitizer_cov_trace_pc() // gcc fallback
{
    if (__builtin_expect(tl.inlib <= 0, 1)) return;
    uint64_t pc  = (uint64_t)(uintptr_t)__builtin_return_address(0);
    tl.last_edge = pc & 0xffffff;
    if (g_sh) g_sh->res[g_run.slot].edges[mix(pc, 3) % kEdges] = 1;
    step();
}
static inline void cmpc(uint64_t c)
{
    if (tl.inlib > 0 && g_sh && g_sh->harvest) {
        if (c < 3 || c == ~0ULL) return;
        uint64_t* d = g_sh->dict;
        size_t    i = mix(c, 11) % kDict;
        for (int k = 0; k < 64; k++) {
            if (d[i] == c) return;
            if (d[i] == 0) {
                d[i] = c;
                return;
            }
            i = (i + 1) % kDict;
        }
    }
}
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t) { cmpc(a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t) { cmpc(a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t) { cmpc(a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t) { cmpc(a); }
void __sanitizer_cov_trace_cmp1(uint8_t, uint8_t) {}
void __sanitizer_cov_trace_cmp2(uint16_t, uint16_t) {}
void __sanitizer_cov_trace_cmp4(uint32_t, uint32_t) {}
void __sanitizer_cov_trace_cmp8(uint64_t, uint64_t) {}
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_div4(uint32_t) {}
void __sanitizer_cov_trace_div8(uint64_t) {}
void __sanitizer_cov_trace_gep(uintptr_t) {}
void __sanitizer_cov_trace_switch(uint64_t, uint64_t* c)
{
    for (uint64_t i = 0; i < c[0]; i++) cmpc(c[2 + i]);
}
void __sanitizer_cov_load1(uint8_t*) { step(); }
void __sanitizer_cov_load2(uint16_t*) { step(); }
void __sanitizer_cov_load4(uint32_t*) { step(); }
void __sanitizer_cov_load8(uint64_t*) { step(); }
void __sanitizer_cov_load16(void*) { step(); }
void __sanitizer_cov_store1(uint8_t*) { step(); }
void __sanitizer_cov_store2(uint16_t*) { step(); }
void __sanitizer_cov_store4(uint32_t*) { step(); }
void __sanitizer_cov_store8(uint64_t*) { step(); }
void __sanitizer_cov_store16(void*) { step(); }
}
namespace sim {
uint32_t edge_count() { return g_guards; }
uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x632be59bd9b4e019ULL;
    z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
} // namespace sim
