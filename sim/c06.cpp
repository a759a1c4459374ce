// C06: temporary copies of keys are erased before their memory is released, and nothing is left behind.
#include "world.hpp"
using namespace zoo;
namespace {
std::string sxor(std::string s, char c)
{
    for (auto& x : s) x = char(x ^ c);
    return s;
}
void secret(const std::string& k, const char* what)
{
    if (k.size() < 16) return;
    if (k.size() > 64) return secret(k.substr(0, 64), what), secret(k.substr(64), what);
    secret_add(k.data(), k.size(), what);
    std::string i = sxor(k, 0x36), o = sxor(k, 0x5c);
    secret_add(i.data(), i.size(), "a key (masked with the inner HMAC pad)");
    secret_add(o.data(), o.size(), "a key (masked with the outer HMAC pad)");
}
void derived(const std::string& k) { secret(k, "a derived key"); }
void look()
{
    std::string what;
    if (dirty_release(&what)) fail("secret-released", "%s", what.c_str());
    probe("looks");
}
void pass(const Plan& plan, bool silent)
{
    (void)silent;
    World w;
    w.helper.reset(new Wrapper(mk<32>(rnd(plan.data_seed, 32))));
    obj::g_after = look;
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        if (op.code == O_CREATE) {
            std::string k = key_of(unsigned(op.a[1]), op.a[2]);
            // compilers may spill the round keys of AEZ: its key is not looked for on the stack
            if (!(obj::g_paint && op.a[1] % Z_KINDS == Z_PRP)) secret(k, "a key");
            if (op.a[1] % Z_KINDS == Z_WRAPPER) {
                secret(ref::prf(k, 32, std::string(1, 1)), "the tag key of a wrapper");
                secret(ref::prf(k, 32, std::string(1, 2)), "the encryption key of a wrapper");
            }
        }
        if ((op.code == O_TCREATE && op.a[1] % 3 == T_INV) || op.code == O_TBAD) {
            unsigned k = unsigned(op.a[2] % PubObj::g_nrsa());
            for (const std::string& x : ref::rsa_secrets(obj::g_rsa[k])) {
                std::string y(x.rbegin(), x.rend());
                for (size_t at = 0; at < x.size(); at += 64) {
                    secret_add(x.data() + at, std::min<size_t>(64, x.size() - at), "a component of a private key");
                    secret_add(y.data() + at, std::min<size_t>(64, x.size() - at), "a component of a private key");
                }
            }
            // the lines of the stored key that hold private components only
            std::string pem = kRsa2048[k].sk, line;
            for (size_t i = 0, n = 0; i < pem.size(); i += line.size() + 1, n++) {
                line = pem.substr(i, pem.find('\n', i) - i);
                if (n > 8 && line.size() == 64) secret_add(line.data(), line.size(), "a line of a private key file");
            }
        }
        if (op.code == O_STATIC) secret(rnd(op.a[3], 32), "a key");
        size_t mark = secrets_mark();
        begin_op(i);
        w.step(op);
        end_op();
        secrets_reset(mark); // bytes of a derived key may be asked for as ordinary output later
        state_seen(mix(w.hash(), op.code));
    }
    // destroy everything, in an order of the plan's choosing
    while (!w.objs.empty()) w.objs.erase(w.objs.begin() + long(mix(plan.data_seed, w.objs.size()) % w.objs.size()));
    while (!w.tdps.empty()) w.tdps.erase(w.tdps.begin() + long(mix(plan.data_seed, w.tdps.size()) % w.tdps.size()));
    w.helper.reset();
    look();
}
void run(const Plan& plan)
{
    secrets_clear();
    track_heap(true);
    check_released(true);
    g_expect_key = derived;
    if (std::string(SIM_VARIANT) == "plain") obj::g_paint = true;
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    std::set<const void*> before, heap_before;
    for (unsigned round = 0; round < 2; round++) {
        pass(plan, round > 0);
        size_t      p = 0, h = 0;
        std::string first;
        for (const Prot& x : live_protected())
            if (!before.count(x.p)) { p++; if (first.empty()) first = "a protected allocation of " + std::to_string(x.n) + " bytes"; }
        for (const Heap& x : live_heap())
            if (!heap_before.count(x.p)) { h++; if (first.empty()) first = "a heap block of " + std::to_string(x.n) + " bytes"; }
        if (!p && !h) break;
        // blocks kept for good by a first use are not a leak: only what a repetition adds is
        if (round == 1) fail("left-behind", "%zu protected and %zu heap allocations remain after every object was destroyed (%s)", p, h, first.c_str());
        for (const Prot& x : live_protected()) before.insert(x.p);
        for (const Heap& x : live_heap()) heap_before.insert(x.p);
        probe("repeated-pass");
    }
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    if (r.chance(1, 5)) gen_tdp(r, c, p);
    else zoo::gen(r, c, p);
}
Scenario S{"C06", op_names(), obj::setup, gen, run, 650};
} // namespace
Scenario* sim::g_scenario = &S;
