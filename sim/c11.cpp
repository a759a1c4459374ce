// C11: populations of public, private and pool objects of several key pairs, which cache state across
// calls; every object of a pair agrees with every other, with the arithmetic of the key, and survives
// export, import, wrapping, copies, restarts and failures.
#include "world.hpp"
using namespace zoo;
namespace {
enum { TCREATE, TACT, TBAD, IMPORT, CHAIN, CROSS, RESTART, GENKEY, WRAPLOAD, NOPS };
struct Stored { int rsa; bool priv; std::string pem; };

std::unique_ptr<Obj> load(int rsa, unsigned kind, uint64_t hh, const std::string& pem, const char* what)
{
    switch (kind % 3) {
    case T_PUB: { std::unique_ptr<PubObj> p(new PubObj(rsa)); if (ok(what, [&] { p->o.emplace(pem); })) return std::unique_ptr<Obj>(p.release()); break; }
    case T_INV: { std::unique_ptr<InvObj> p(new InvObj(rsa)); if (ok(what, [&] { p->o.emplace(pem); })) return std::unique_ptr<Obj>(p.release()); break; }
    default: { unsigned n = pool_size(rsa, hh); std::unique_ptr<PoolObj> p(new PoolObj(rsa, n)); if (ok(what, [&] { p->o.emplace(pem, uint8_t(n)); })) return std::unique_ptr<Obj>(p.release()); break; }
    }
    return nullptr;
}
int kind_of(Obj& o) { return o.name == std::string("Tdp") ? T_PUB : o.name == std::string("TdpInverse") ? T_INV : T_POOL; }
int rsa_of(Obj& o) { switch (kind_of(o)) { case T_PUB: return static_cast<PubObj&>(o).rsa; case T_INV: return static_cast<InvObj&>(o).rsa; default: return static_cast<PoolObj&>(o).rsa; } }
bool ev(Obj& o, const std::string& x, std::string& y)
{
    switch (kind_of(o)) {
    case T_PUB: return ok("Tdp::eval", [&] { y = static_cast<PubObj&>(o).o->eval(x); });
    case T_INV: return ok("TdpInverse::eval", [&] { y = static_cast<InvObj&>(o).o->eval(x); });
    default: return ok("TdpMultPool::eval", [&] { y = static_cast<PoolObj&>(o).o->eval(x); });
    }
}
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    g_generated.clear();
    size_t base_rsa = obj::g_rsa.size();
    World               w;
    std::vector<Stored> disk;
    begin_op(plan.ops.size());
    w.helper.reset(new Wrapper(mk<32>(rnd(plan.data_seed, 32))));
    end_op();
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        Obj*     o = w.tdps.empty() ? nullptr : w.tdps[op.a[0] % w.tdps.size()].get();
        uint64_t s = op.a[2];
        switch (op.code) {
        case TCREATE: case TACT: case TBAD: {
            Op q   = op;
            q.code = op.code == TCREATE ? O_TCREATE : op.code == TACT ? O_TACT : O_TBAD;
            w.step(q);
            break;
        }
        case IMPORT: { // exported, stored, loaded by another process
            if (!o) break;
            std::string pem;
            int         r = rsa_of(*o);
            bool        priv = kind_of(*o) == T_INV && (s & 1);
            if (priv) { if (!ok("private_key", [&] { pem = static_cast<InvObj&>(*o).o->private_key(); })) break; }
            else if (kind_of(*o) == T_PUB) { if (!ok("public_key", [&] { pem = static_cast<PubObj&>(*o).o->public_key(); })) break; }
            else if (kind_of(*o) == T_INV) { if (!ok("public_key", [&] { pem = static_cast<InvObj&>(*o).o->public_key(); })) break; }
            else { if (!ok("public_key", [&] { pem = static_cast<PoolObj&>(*o).o->public_key(); })) break; }
            disk.push_back({r, priv, pem});
            if (disk.size() > 6) disk.erase(disk.begin());
            event("export");
            w.add_tdp(load(r, priv ? unsigned(T_INV) : (s & 2 ? unsigned(T_PUB) : unsigned(T_POOL)), op.a[3], pem, "import of an exported key"));
            break;
        }
        case RESTART: // only the stored keys survive
            event("crash-restart");
            w.tdps.clear();
            for (size_t k = 0; k < disk.size() && k < 3; k++) {
                auto& d = disk[(op.a[1] + k) % disk.size()];
                w.add_tdp(load(d.rsa, d.priv ? unsigned(T_INV) : ((s >> k) & 2 ? unsigned(T_PUB) : unsigned(T_POOL)), op.a[3], d.pem, "import after a restart"));
            }
            break;
        case CHAIN: { // n steps one way, n steps back, through different objects
            if (!o) break;
            int         r = rsa_of(*o), h = obj::g_rsa[size_t(r)];
            unsigned    n = 1 + unsigned(s >> 8) % 6;
            std::string x = element(h, s >> 16, true), y = x, z;
            bool        good = true;
            for (unsigned k = 0; k < n && good; k++) { good = ev(*o, y, z); y = z; }
            if (!good) break;
            EQ(y, ref::rsa_eval(h, x, n), "repeated evaluation");
            for (auto& q : w.tdps) {
                if (rsa_of(*q) != r) continue;
                if (kind_of(*q) == T_INV) {
                    auto& inv = *static_cast<InvObj&>(*q).o;
                    if (ok("invert_mult", [&] { z = inv.invert_mult(y, n); })) EQ(z, x, "inverting n evaluations at once");
                    z = y;
                    for (unsigned k = 0; k < n && good; k++) good = ok("invert", [&] { z = inv.invert(z); });
                    if (good) EQ(z, x, "inverting n evaluations one by one");
                    good = true;
                    probe("round-trip");
                } else if (kind_of(*q) == T_POOL && static_cast<PoolObj&>(*q).size >= n) {
                    if (ok("TdpMultPool::eval", [&] { z = static_cast<PoolObj&>(*q).o->eval(x, uint8_t(n)); })) EQ(z, y, "pool evaluation against single evaluations");
                    probe("pool-agrees");
                }
            }
            break;
        }
        case CROSS: { // inversion first, then evaluation
            if (!o || kind_of(*o) != T_INV) break;
            int         r = rsa_of(*o), h = obj::g_rsa[size_t(r)];
            std::string x = element(h, s >> 16, true), y, z;
            auto&       inv = *static_cast<InvObj&>(*o).o;
            if (!ok("invert", [&] { y = inv.invert(x); })) break;
            for (auto& q : w.tdps)
                if (rsa_of(*q) == r && ev(*q, y, z)) EQ(z, x, "evaluating an inverted element");
            break;
        }
        case GENKEY: { // a new key pair
            std::unique_ptr<InvObj> p(new InvObj(0));
            if (!ok("TdpInverse()", [&] { p->o.emplace(); })) break;
            Generated g;
            if (!ok("private_key", [&] { g.sk = p->o->private_key(); }) || !ok("public_key", [&] { g.pk = p->o->public_key(); })) break;
            int h = ref::rsa_load(g.sk), q = ref::rsa_load_pub(g.pk);
            SIM_CHECK(h >= 0 && q >= 0 && ref::rsa_same_public(h, q), "wrong-value", "the exports of a new key pair do not belong together");
            SIM_CHECK(ref::rsa_consistent(h), "wrong-value", "a generated key pair is not an RSA key pair");
            SIM_CHECK(uint8_t(ref::rsa_modulus(h)[0]) >= 0x80, "wrong-value", "the modulus of a generated key pair is shorter than 2048 bits");
            obj::g_rsa.push_back(h);
            g.rsa  = int(obj::g_rsa.size()) - 1;
            p->rsa = g.rsa;
            g_generated.push_back(g);
            w.add_tdp(std::move(p));
            probe("generated-key-pair");
            break;
        }
        case WRAPLOAD: { // wrapped by one process, unwrapped by another
            if (!o || kind_of(*o) != T_INV) break;
            std::vector<uint8_t>    b;
            std::unique_ptr<InvObj> c(new InvObj(rsa_of(*o)));
            if (ok("wrap", [&] { b = w.helper->wrap(*static_cast<InvObj&>(*o).o); }) && ok("unwrap", [&] { c->o.emplace(w.helper->unwrap<TdpInverse>(b)); })) w.add_tdp(std::move(c));
            break;
        }
        }
        end_op();
        uint64_t hh = op.code;
        for (auto& q : w.tdps) hh = mix(hh, uint64_t(kind_of(*q)) * 64 + uint64_t(rsa_of(*q)));
        state_seen(hh);
    }
    begin_op(plan.ops.size());
    for (auto& o : w.tdps) o->touch(*w.helper);
    w.tdps.clear();
    end_op();
    obj::g_rsa.resize(base_rsa);
    g_generated.clear();
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    p.cfg        = uint32_t(r.below(64));
    unsigned n   = 3 + unsigned(r.below(14));
    unsigned fav = unsigned(r.below(4));
    uint64_t key = r.u64();
    bool     newkey = r.chance(1, c.thorough ? 12 : 40);
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {TCREATE, TCREATE, TCREATE, TACT, TACT, TACT, TACT, TACT, TACT, TACT, TACT, TBAD, IMPORT, IMPORT, CHAIN, CHAIN, CROSS, RESTART, WRAPLOAD};
        o.code = i == 0 ? uint32_t(TCREATE) : tab[r.below(sizeof tab)];
        if (i == 1) o.code = TCREATE;
        if (newkey && i == 2) o.code = GENKEY;
        for (auto& a : o.a) a = r.u64();
        o.a[0] = r.below(5);
        o.a[1] = r.chance(1, 2) ? 14 + r.below(10) : r.below(24);
        if (o.code == TCREATE) { o.a[1] = r.chance(1, 2) && fav < 3 ? fav : r.below(3); if (r.chance(2, 3)) o.a[2] = key; }
        p.ops.push_back(o);
    }
}
Scenario S{"C11", {"create", "call", "bad-key", "export-import", "chain", "cross", "crash-restart", "new-key-pair", "wrap-unwrap"}, obj::setup, gen, run, 350, 6000000000ULL};
} // namespace
Scenario* sim::g_scenario = &S;
