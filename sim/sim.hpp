// Deterministic simulator for the sse::crypto library: public interface used by the scenarios.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <functional>
#include <new>
#include <stdexcept>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t u64()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z          = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z          = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool     chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
uint64_t    mix(uint64_t a, uint64_t b);
std::string bytes_of(uint64_t seed, size_t len);       // deterministic data of that length
std::string hex(const void* p, size_t n);
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }

// ---------------------------------------------------------------- plans
enum FaultKind : uint8_t {
    F_NEW = 0,      // operator new throws std::bad_alloc
    F_MALLOC,       // malloc/calloc/realloc return NULL
    F_SMALLOC,      // sodium_malloc / sodium_allocarray return NULL
    F_NOACCESS,     // sodium_mprotect_noaccess fails (ENOMEM)
    F_READONLY,     // sodium_mprotect_readonly fails (ENOMEM)
    F_READWRITE,    // sodium_mprotect_readwrite fails (ENOMEM)
    F_ENOSYS,       // platform without page protection (ENOSYS), whole run
    F_ANY,          // k-th resource request of any kind fails
    F_KINDS
};
extern const char* const kFaultNames[F_KINDS];

struct Op
{
    uint32_t code{0};
    uint32_t t{0};        // task / thread the operation belongs to
    uint64_t a[6]{0, 0, 0, 0, 0, 0};
};
struct Fault
{
    uint32_t op{0};   // index of the operation
    uint8_t  kind{0};
    uint32_t k{0};    // fires at the k-th event of that kind inside the op ...
    uint32_t n{1};    // ... and at the following n-1 ones
};
struct Preempt
{
    uint64_t step;    // global step number
    uint32_t to;      // who runs next (index into the runnable threads, modulo)
};
struct Plan
{
    uint64_t             data_seed{0};
    uint32_t             cfg{0};
    std::vector<Op>      ops;
    std::vector<Fault>   faults;
    std::vector<Preempt> sched;
};

struct GenCtx
{
    std::vector<uint64_t> dict;     // constants the library compares against (harvested)
    bool                  thorough{false};
    uint64_t              run{0};
    bool                  faulty{false}; // this run may contain resource faults
    // boundary-biased length
    size_t length(Rng& r, size_t max) const;
    // arbitrary 64-bit value, boundary/dictionary biased
    uint64_t value(Rng& r) const;
    uint64_t count(Rng& r, uint64_t typical, uint64_t max) const;
};

struct Scenario
{
    const char*              name;       // "C01"
    std::vector<std::string> op_names;
    std::function<void()>    setup;      // once, before any run
    std::function<void(Rng&, const GenCtx&, Plan&)> gen;
    std::function<void(const Plan&)>                run; // executes one run (in a child process)
    unsigned fault_permille{500};        // share of runs which get resource faults attached
    uint64_t step_budget{400000000ULL};
    // when set, a violation counts only if the plan made by this function does not violate anything
    std::function<Plan(const Plan&)> baseline;
};
extern Scenario* g_scenario;

// ---------------------------------------------------------------- executing a run
// Reports a violation and ends the run. `kind` identifies the violation class.
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, kind, ...)                                                                 \
    do {                                                                                           \
        if (!(cond)) ::sim::fail(kind, __VA_ARGS__);                                               \
    } while (0)

void note(const void* p, size_t n);                 // mixes into the trace hash
inline void note(const std::string& s) { note(s.data(), s.size()); }
void note_u64(uint64_t v);
void probe(const char* name, uint64_t n = 1);       // named counter ("this happened")
void event(const char* fault_name);                 // scenario-level fault (channel, disk, crash) fired
void state_seen(uint64_t h);                        // abstract state reached

// Begin operation number `i` of the plan: faults attached to it are armed.
void begin_op(size_t i);
void end_op();
bool fault_fired();       // did a resource fault fire inside the current op (since begin_op)
bool fault_fired_kind(FaultKind k);
bool fault_armed();       // the current op has a resource fault attached
uint64_t steps();
void     set_protection_unsupported(bool on); // page protection answers ENOSYS

// Scope in which library code runs: only there faults fire, steps are counted, preemption happens.
struct Lib
{
    Lib();
    ~Lib();
};
// Suspends a Lib scope (callbacks from the library into the harness).
struct Unlib
{
    int saved;
    Unlib();
    ~Unlib();
};

enum class Out { ok, threw };
// Runs f inside a Lib scope; any std::exception is caught (message in what()).
struct Result
{
    bool        threw{false};
    bool        bad_alloc{false};
    bool        invalid_argument{false};
    bool        out_of_range{false};
    std::string what;
};
template<class F> Result call(F&& f)
{
    Result r;
    try {
        Lib l;
        f();
    } catch (const std::bad_alloc& e) {
        r.threw = r.bad_alloc = true;
        r.what                = e.what();
    } catch (const std::invalid_argument& e) {
        r.threw = r.invalid_argument = true;
        r.what                       = e.what();
    } catch (const std::out_of_range& e) {
        r.threw = r.out_of_range = true;
        r.what                   = e.what();
    } catch (const std::exception& e) {
        r.threw = true;
        r.what  = e.what();
    } catch (...) {
        fail("nonstandard-exception", "library threw something that is not a std::exception");
    }
    return r;
}

// ---------------------------------------------------------------- randomness seam
// All library randomness comes from a per-thread deterministic stream.
void     rng_seed(uint64_t seed);             // (re)seeds the stream of the calling thread
std::string rng_peek(size_t n);                // the next n bytes of the stream
void     rng_rewind(uint64_t pos);            // back (or on) to a position of the calling thread's stream
uint64_t rng_consumed();                      // bytes handed out to the calling thread so far
void     rng_flip(uint64_t absolute_index, uint8_t mask); // flips one byte of the stream (0 mask: none)

// ---------------------------------------------------------------- memory seam
struct Prot
{
    uint8_t* p;
    size_t   n;
    uint64_t id;
    bool     relock_refused; // the last noaccess request on it was failed by the simulator
    uint32_t thread;
};
std::vector<Prot> live_protected();           // protected allocations currently alive
size_t            live_protected_count();
bool              readable(const void* p);    // asks the kernel
struct Heap
{
    uint8_t* p;
    size_t   n;
    uint64_t id;
};
std::vector<Heap> live_heap();                // live heap blocks allocated by library code
size_t            live_heap_count();
void              track_heap(bool on);
// secrets that must not be found in memory released by the library
void   secret_add(const void* p, size_t n, const char* what);
void   secrets_clear();
size_t secrets_mark();
void   secrets_reset(size_t mark); // forgets the secrets added since
bool   secret_find(const void* p, size_t n, std::string* what);
// releases seen with a secret inside
bool   dirty_release(std::string* what);
void   set_aes_available(bool on);
void   check_released(bool on); // look for secrets in released heap blocks

// Runs f on a freshly painted private stack (in the current thread) and reports whether a secret is
// left in it afterwards.
bool run_on_painted_stack(const std::function<void()>& f, std::string* what);

// ---------------------------------------------------------------- threads
// Runs the bodies as simulated threads: exactly one runs at a time, the plan decides who and when.
void run_threads(const Plan& plan, const std::vector<std::function<void()>>& bodies);
void passed_on(void* p); // an object is given to ...
void received(void* p);  // ... and taken over by another thread
uint64_t interleaving_hash();
uint32_t thread_id();

} // namespace sim
