// Internal interface between the runtime seams and the search engine.
#pragma once
#include "sim.hpp"

namespace sim {

enum Verdict : uint32_t { V_RUNNING = 0, V_OK, V_VIOLATION };
static const int    kProbes = 48, kEvents = 32;
static const size_t kStates = 256, kEdges = 1 << 15, kDict = 1 << 13;

struct NamedCounter
{
    char     name[40];
    uint64_t n;
};
struct Result_
{
    uint32_t     verdict;
    uint32_t     last_op;
    char         kind[64];
    char         msg[700];
    uint64_t     trace_hash, ihash, steps, switches, rng_bytes, res_events, n_events;
    uint64_t     fault_fired[F_KINDS];
    NamedCounter probes[kProbes];
    NamedCounter events[kEvents];
    uint64_t     states[kStates];
    uint32_t     n_states;
    uint8_t      edges[kEdges];
};
// a place in the library from which a resource was requested during one operation (dry run)
struct SiteRec
{
    uint32_t op, site, kind, first, last, count;
    uint32_t group[3]; // the calls from the outside in: the first 3, 5 and 7
};
static const size_t kSites = 1 << 12, kFreq = 1 << 14;
struct Sites
{
    volatile uint32_t recording;
    SiteRec           rec[kSites];
};
struct Shared
{
    volatile uint64_t min_violation;
    volatile uint32_t harvest;
    uint64_t          dict[kDict];
    uint32_t          evmax[64 * F_KINDS]; // most resource requests seen inside one operation of each kind
    Result_           res[64]; // one slot per worker
    Sites             sites[64];
    uint32_t          freq_site[kFreq], freq_n[kFreq]; // how many operations of the profiling pass reached a place
};
extern Shared* g_sh;

struct TlState
{
    int      inlib{0};
    int      inlib_saved{0};
    int      tid{0};
    bool     simthr{false}; // one of the simulated threads
    bool     inop{false};
    bool     armed{false};
    uint32_t op{0};
    unsigned nf{0};
    Fault    f[4];
    uint32_t ev[F_KINDS]{};
    uint32_t any_ev{0};
    uint32_t fired{0};
    uint64_t seed{1}, pos{0}, flip_idx{0};
    uint8_t  flip_mask{0};
    uint64_t last_edge{0};
    uintptr_t base{0}; // frame from which the library was entered
};
TlState& tls();

struct RunState
{
    int            slot{0};
    const Plan*    plan{nullptr};
    uint64_t       data_seed{0};
    uint64_t       steps{0}, next_stop{~0ULL}, step_budget{~0ULL};
    uint64_t       thash{0}, ihash{0}, switches{0};
    uint32_t       cur_op_global{0};
    bool           threads{false};
    bool           enosys_always{false};
    int            nopreempt{0};
    const Preempt* sched{nullptr};
    size_t         sched_n{0}, sched_pos{0};
    uint64_t       last_switch{0};
};
extern RunState g_run;
void     rt_init();
void     install_rng();
uint32_t edge_count();
} // namespace sim
