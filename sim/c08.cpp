// C08: threads using different objects never disturb each other.
#include "world.hpp"
using namespace zoo;
namespace {
enum { O_GIVE = O_NCODES, O_TAKE, O_INIT };
const uint32_t kSolo = 1u << 31; // the threads run one after the other
struct Mail { std::unique_ptr<Obj> o; bool tdp; };

void run(const Plan& plan)
{
    obj::g_redraw = true;
    if (plan.cfg % 16 == 15) set_protection_unsupported(true);
    unsigned                           nthr = 2 + plan.cfg / 64 % 3;
    std::vector<Mail>                  mail;
    std::vector<std::function<void()>> bodies;
    for (unsigned t = 0; t < nthr; t++)
        bodies.push_back([&, t] {
            World w;
            for (size_t i = 0; i < plan.ops.size(); i++) {
                const Op& op = plan.ops[i];
                if (op.a[5] % nthr != t) continue;
                begin_op(i);
                switch (op.code) {
                case O_GIVE: // an object changes hands: its next user is another thread
                    if (!(op.a[1] & 1) && !w.objs.empty()) { size_t k = op.a[0] % w.objs.size(); mail.push_back({std::move(w.objs[k]), false}); w.objs.erase(w.objs.begin() + long(k)); passed_on(mail.back().o.get()); event("hand-over"); }
                    else if (!w.tdps.empty()) { size_t k = op.a[0] % w.tdps.size(); mail.push_back({std::move(w.tdps[k]), true}); w.tdps.erase(w.tdps.begin() + long(k)); passed_on(mail.back().o.get()); event("hand-over"); }
                    break;
                case O_TAKE:
                    if (!mail.empty()) {
                        size_t k = op.a[0] % mail.size();
                        Mail   m = std::move(mail[k]);
                        mail.erase(mail.begin() + long(k));
                        received(m.o.get());
                        probe("took-over");
                        if (m.tdp) w.add_tdp(std::move(m.o)); else w.add(std::move(m.o));
                    }
                    break;
                default: w.step(op); break;
                }
                end_op();
                state_seen(mix(mix(w.hash(), op.code), interleaving_hash() & 0xff));
            }
            begin_op(plan.ops.size());
            Lib l; // destructors are library calls too
            w.objs.clear();
            w.tdps.clear();
            end_op();
        });
    if (plan.cfg & kSolo) {
        for (auto& b : bodies) run_threads(plan, {b});
    } else {
        run_threads(plan, bodies);
    }
    note_u64(interleaving_hash());
    mail.clear();
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    bool tdp = r.chance(1, 6);
    if (tdp) gen_tdp(r, c, p);
    else zoo::gen(r, c, p);
    p.cfg         = uint32_t(r.below(64 * 3));
    unsigned nthr = 2 + p.cfg / 64 % 3;
    // threads doing the same thing to objects of the same kind at the same time
    if (r.chance(2, 3)) {
        std::vector<Op> ops;
        for (auto& o : p.ops) {
            if (ops.size() > 40) break;
            for (unsigned t = 0; t < nthr; t++) {
                Op q = o;
                q.a[5] = t;
                if (r.chance(1, 2)) { q.a[2] = r.u64(); q.a[3] = r.u64(); }
                if (r.chance(1, 6)) q.a[1] = r.below(64);
                ops.push_back(q);
            }
        }
        p.ops = ops;
    } else {
        for (auto& o : p.ops) o.a[5] = r.below(nthr);
    }
    if (r.chance(1, 3)) {
        unsigned n = 1 + unsigned(r.below(4));
        for (unsigned i = 0; i < n; i++)
            for (uint32_t code : {uint32_t(O_GIVE), uint32_t(O_TAKE)}) {
                Op o;
                o.code = code;
                o.a[0] = r.below(8);
                o.a[1] = r.u64();
                o.a[5] = r.below(nthr);
                p.ops.insert(p.ops.begin() + long(r.below(p.ops.size() + 1)), o);
            }
    }
    // the schedule: a few preemptions anywhere, or many at one of several densities
    uint64_t span = tdp ? 30000000 : 40000;
    unsigned mode = unsigned(r.below(4));
    if (mode == 0) {
        std::set<uint64_t> at;
        unsigned           n = 1 + unsigned(r.below(6));
        uint64_t           m = r.chance(1, 2) ? span : 1 + span / (1 + r.below(64));
        for (unsigned i = 0; i < n; i++) at.insert(1 + r.below(m));
        for (uint64_t s : at) p.sched.push_back({s, uint32_t(r.below(4))});
    } else {
        uint64_t s = r.below(2000), gap = mode == 1 ? 3 : 1ULL << (1 + r.below(tdp ? 20 : 11));
        unsigned n = 20 + unsigned(r.below(mode == 1 ? 1500 : 400));
        if (mode == 1 && tdp) s = r.below(span);
        for (unsigned i = 0; i < n; i++) {
            s += 1 + r.below(2 * gap);
            p.sched.push_back({s, uint32_t(r.below(4))});
        }
    }
}
std::vector<std::string> names()
{
    auto n = op_names();
    n.push_back("hand-over");
    n.push_back("take-over");
    return n;
}
Plan solo(const Plan& p)
{
    Plan q = p;
    q.cfg |= kSolo;
    q.sched.clear();
    return q;
}
Scenario S{"C08", names(), obj::setup, gen, run, 300, 3000000000ULL, solo};
} // namespace
Scenario* sim::g_scenario = &S;
