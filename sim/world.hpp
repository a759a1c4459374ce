// Plans over the zoo: shared by the memory-protection, erasure and resource-failure checks.
#pragma once
#include "tdpzoo.hpp"

namespace zoo {
enum Code { O_CREATE, O_ACT, O_DESTROY, O_MOVE, O_STATIC, O_RANDOM, O_TCREATE, O_TACT, O_TBAD, O_NCODES };
inline std::vector<std::string> op_names() { return {"create", "call", "destroy", "move", "consume-key", "random-object", "create-tdp", "call-tdp", "bad-tdp-key"}; }

struct World
{
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::unique_ptr<Obj>> tdps; // trapdoor permutation objects
    std::unique_ptr<Wrapper>          helper;
    void add(std::unique_ptr<Obj> o)
    {
        if (!o) return;
        objs.push_back(std::move(o));
        if (objs.size() > 8) objs.erase(objs.begin());
    }
    void add_tdp(std::unique_ptr<Obj> o)
    {
        if (!o) return;
        tdps.push_back(std::move(o));
        if (tdps.size() > 5) tdps.erase(tdps.begin());
    }
    void step(const Op& op)
    {
        Obj* o = objs.empty() ? nullptr : objs[op.a[0] % objs.size()].get();
        switch (op.code) {
        case O_CREATE: add(create(unsigned(op.a[1]), op.a[2], op.a[3])); break;
        case O_ACT: if (o) o->act(unsigned(op.a[1]), op.a[2]); break;
        case O_DESTROY: if (o) { objs.erase(objs.begin() + long(op.a[0] % objs.size())); event("destroy"); } break;
        case O_MOVE: if (o) { objs[op.a[0] % objs.size()] = o->moved(); event("move"); } break;
        case O_STATIC: prg_static(unsigned(op.a[1]), op.a[2], rnd(op.a[3], 32)); break;
        case O_RANDOM: random_objects(op.a[2]); break;
        case O_TCREATE: add_tdp(create_tdp(unsigned(op.a[1]), op.a[2], op.a[3])); break;
        case O_TACT:
            if (tdps.empty()) break;
            o = tdps[op.a[0] % tdps.size()].get();
            if (op.a[3] % 16 == 0) { tdps[op.a[0] % tdps.size()] = o->moved(); event("move"); }
            else if (op.a[3] % 16 == 1) { tdps.erase(tdps.begin() + long(op.a[0] % tdps.size())); event("destroy"); }
            else o->act(unsigned(op.a[1]), op.a[2]);
            break;
        case O_TBAD: tdp_bad_construction(op.a[2]); break;
        }
        for (auto& n : g_spawn) { if (n->name[0] == 'T') add_tdp(std::move(n)); else add(std::move(n)); }
        g_spawn.clear();
        if (obj::g_after) obj::g_after();
    }
    uint64_t hash() const
    {
        uint64_t h = 5;
        for (auto& q : tdps) h = mix(h, uint64_t(q->name[3]));
        for (auto& q : objs) h = mix(h, uint64_t(q->name[0]) * 256 + uint64_t(q->name[1]) + uint64_t(q->name[2]) * 65536);
        return h;
    }
};
inline void gen(Rng& r, const GenCtx&, Plan& p)
{
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 4 + unsigned(r.below(30));
    unsigned fav = unsigned(r.below(Z_KINDS));
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {O_CREATE, O_CREATE, O_CREATE, O_ACT, O_ACT, O_ACT, O_ACT, O_ACT, O_ACT, O_ACT, O_ACT, O_ACT, O_ACT, O_DESTROY, O_MOVE, O_STATIC, O_STATIC, O_RANDOM};
        o.code = i == 0 ? uint32_t(O_CREATE) : tab[r.below(sizeof tab)];
        o.a[0] = r.below(8);
        o.a[1] = r.below(64);
        o.a[2] = r.u64();
        o.a[3] = r.u64();
        if (o.code == O_CREATE) o.a[1] = r.chance(1, 2) ? fav : r.below(Z_KINDS);
        p.ops.push_back(o);
    }
}
// plans with trapdoor permutation objects
inline void gen_tdp(Rng& r, const GenCtx&, Plan& p)
{
    p.cfg        = uint32_t(r.below(64));
    unsigned n   = 2 + unsigned(r.below(8));
    unsigned fav = unsigned(r.below(3));
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {O_TCREATE, O_TCREATE, O_TACT, O_TACT, O_TACT, O_TACT, O_TACT, O_TACT, O_TACT, O_TBAD};
        o.code = i == 0 ? uint32_t(O_TCREATE) : tab[r.below(sizeof tab)];
        o.a[0] = r.below(8);
        o.a[1] = r.below(24);
        if (r.chance(1, 2)) o.a[1] = 14 + r.below(10);
        o.a[2] = r.u64();
        o.a[3] = r.u64();
        if (o.code == O_TCREATE) o.a[1] = r.chance(1, 2) ? fav : r.below(3);
        p.ops.push_back(o);
    }
}
} // namespace zoo
