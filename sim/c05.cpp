// C05: between two calls, no key of a live object is readable.
#include "world.hpp"
using namespace zoo;
namespace {
World* g_world;
bool   g_no_excuse;
void look()
{
    for (const Prot& p : live_protected()) {
        if (p.relock_refused && !g_no_excuse) { probe("excused-key"); continue; }
        SIM_CHECK(!readable(p.p), "key-readable", "a %zu-byte protected allocation is readable although no library call is running", p.n);
    }
    std::string what;
    for (const Heap& h : live_heap())
        if (secret_find(h.p, h.n, &what)) fail("key-in-heap", "%s lies readable in a live %zu-byte heap block while no library call is running", what.c_str(), h.n);
    probe("looks");
}
void derived(const std::string& k) { if (k.size() >= 16) secret_add(k.data(), k.size(), "a derived key"); }
void run(const Plan& plan)
{
    secrets_clear();
    track_heap(true);
    World w;
    g_world      = &w;
    w.helper.reset(new Wrapper(mk<32>(rnd(plan.data_seed, 32))));
    obj::g_after = look;
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        if (op.code == O_CREATE) { std::string k = key_of(unsigned(op.a[1]), op.a[2]); secret_add(k.data(), k.size(), "a key"); }
        if (op.code == O_STATIC) { std::string k = rnd(op.a[3], 32); secret_add(k.data(), 32, "a key"); }
        begin_op(i);
        w.step(op);
        end_op();
        state_seen(mix(w.hash(), op.code));
    }
    // faults are over: after one more use of each object nothing is excused any more
    obj::g_after = nullptr;
    begin_op(plan.ops.size());
    for (auto& o : w.objs) o->touch(*w.helper);
    end_op();
    g_no_excuse = true;
    look();
}
Scenario S{"C05", op_names(), obj::setup, zoo::gen, run, 650};
} // namespace
Scenario* sim::g_scenario = &S;
