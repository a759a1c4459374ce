// C07: a failed allocation or protection change gives the correct result or an exception, and leaves
// every object usable.
#include "world.hpp"
using namespace zoo;
namespace {
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w;
    begin_op(plan.ops.size());
    w.helper.reset(new Wrapper(mk<32>(rnd(plan.data_seed, 32))));
    end_op();
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        w.step(op);
        bool fired = fault_fired();
        end_op();
        if (fired && op.code != O_DESTROY && op.code != O_MOVE) { // failures are over: the same call must succeed
            begin_op(plan.ops.size());
            probe("repeated-after-fault");
            // what the faulted call made or used: fully usable, or it would not be there
            for (auto& o : w.objs) o->touch(*w.helper);
            for (auto& o : w.tdps) o->touch(*w.helper);
            if (op.code != O_TACT || op.a[3] % 16 > 1) w.step(op);
            end_op();
        }
        state_seen(mix(w.hash(), op.code));
    }
    begin_op(plan.ops.size());
    for (auto& o : w.objs) o->touch(*w.helper);
    for (auto& o : w.tdps) o->touch(*w.helper);
    w.objs.clear();
    w.tdps.clear();
    end_op();
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    if (r.chance(1, 3)) gen_tdp(r, c, p);
    else zoo::gen(r, c, p);
}
Scenario S{"C07", op_names(), obj::setup, gen, run, 900};
} // namespace
Scenario* sim::g_scenario = &S;
