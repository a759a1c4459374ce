// C03: objects wrapped to disk, process restarts, unwrapped again, for many generations.
#include "objects.hpp"
using namespace obj;
namespace {
enum { CREATE, WRAP, UNWRAP, USE, RESTART, CONSTRAIN, MOVE, PEERWRAP, BADUNWRAP, EMPTY, NOPS };
struct Stored
{
    unsigned             wk;
    Model                m;
    std::vector<uint8_t> blob;
};
struct World
{
    std::string                        wkey[2];
    std::unique_ptr<Wrapper>           w[2];
    std::vector<std::unique_ptr<Base>> objs;
    std::vector<Stored>                disk;
};
void add(World& w, std::unique_ptr<Base> o)
{
    w.objs.push_back(std::move(o));
    if (w.objs.size() > 5) w.objs.erase(w.objs.begin());
}
void check_wrap(World& w, unsigned k, Base& o, const std::vector<uint8_t>& b)
{
    size_t ser = serialized_size(o.m.kind);
    if (class_of(o.m.kind) == TDP) {
        std::string pem;
        if (!call([&] { pem = static_cast<Box<TdpInverse>&>(o).o.private_key(); }).threw) ser = pem.size();
    }
    if (ser) SIM_CHECK(b.size() == ser + 28, "blob-size", "%s: blob of %zu bytes for a serialization of %zu", name_of(o.m.kind), b.size(), ser);
    w.disk.push_back({k, o.m, b});
    if (w.disk.size() > 12) w.disk.erase(w.disk.begin());
}
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w;
    for (unsigned k = 0; k < 2; k++) { w.wkey[k] = rnd(mix(plan.data_seed, k), 32); w.w[k].reset(new Wrapper(mk<32>(w.wkey[k]))); }
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        unsigned k = unsigned(op.a[1] % 2);
        Base*    o = w.objs.empty() ? nullptr : w.objs[op.a[0] % w.objs.size()].get();
        Stored*  d = w.disk.empty() ? nullptr : &w.disk[op.a[0] % w.disk.size()];
        switch (op.code) {
        case CREATE: add(w, build(model(unsigned(op.a[0]), op.a[2], op.a[3]))); break;
        case WRAP: {
            if (!o) break;
            std::vector<uint8_t> b;
            if (ok("wrap", [&] { b = o->wrap(*w.w[k]); })) check_wrap(w, k, *o, b);
            o->use_it(op.a[2]); // the original stays usable and unchanged
            break;
        }
        case PEERWRAP: { // written by another build of the library
            Model   m = model(unsigned(op.a[0] % kRc0), op.a[2], op.a[3]);
            Class   c = class_of(m.kind);
            std::string ser = m.key, ctx;
            if (c == PRP) break;
            if (c == TDP) ser = kRsa2048[m.rsa].sk;
            if (c == PRF) { ctx += char(size_of(m.kind) >> 8); ctx += char(size_of(m.kind)); }
            uint8_t t = c == CIPHER ? 1 : c == PRF ? 2 : c == PRG ? 3 : 7;
            std::string b = ref::wrap_blob(w.wkey[k], t, ctx, ser, rnd(op.a[4], 16));
            w.disk.push_back({k, m, std::vector<uint8_t>(b.begin(), b.end())});
            event("blob-of-another-build");
            break;
        }
        case UNWRAP: {
            if (!d) break;
            std::vector<uint8_t>  b = d->blob;
            std::unique_ptr<Base> n;
            Result r = call([&] { n = unwrap(d->m.kind, *w.w[d->wk], b); });
            if (r.threw) {
                SIM_CHECK(fault_fired(), "unwrap-refused", "%s: a blob made under the same key for the same kind was refused: %s", name_of(d->m.kind), r.what.c_str());
                SIM_CHECK(b == d->blob, "blob-destroyed", "%s: unwrapping failed and still changed the blob", name_of(d->m.kind));
                break;
            }
            SIM_CHECK(b.size() == d->blob.size() || b.empty(), "blob-resized", "unwrapping resized the blob to %zu", b.size());
            for (uint8_t x : b) SIM_CHECK(x == 0, "blob-not-erased", "%s: the blob was not erased by a successful unwrap", name_of(d->m.kind));
            n->m = d->m;
            probe("unwrapped");
            n->use_it(op.a[2]);
            add(w, std::move(n));
            break;
        }
        case BADUNWRAP: { // damaged copy: refused, nothing else happens
            if (!d) break;
            std::vector<uint8_t> b = d->blob;
            b[op.a[2] % b.size()] ^= uint8_t(1 + op.a[3] % 255);
            Result r = call([&] { unwrap(d->m.kind, *w.w[d->wk], b); });
            SIM_CHECK(r.threw, "damaged-accepted", "a damaged blob was accepted");
            event("damaged-blob");
            break;
        }
        case EMPTY: RcSizes::with(op.a[2] % 2, [&](auto S) { // a constrained PRF without any leaf
            using C = ConstrainedRCPrf<decltype(S)::value>;
            C c((std::vector<std::unique_ptr<ConstrainedRCPrfElement<decltype(S)::value>>>()));
            std::vector<uint8_t> b;
            if (!ok("wrap", [&] { b = w.w[k]->wrap(c); })) return;
            ok("unwrap of an empty constrained PRF", [&] {
                C d = w.w[k]->template unwrap<C>(b);
                Unlib u;
                SIM_CHECK(d.is_empty(), "wrong-value", "an empty constrained PRF came back with leaves");
            });
            probe("empty-constrained");
        }); break;
        case USE: if (o) o->use_it(op.a[2]); break;
        case RESTART: // the process dies: only the disk survives
            event("crash-restart");
            w.objs.clear();
            for (unsigned q = 0; q < 2; q++) {
                w.w[q].reset();
                std::array<uint8_t, 32> kb;
                memcpy(kb.data(), w.wkey[q].data(), 32);
                if (!ok("Wrapper()", [&] { w.w[q].reset(new Wrapper(Key<32>(kb.data()))); })) w.w[q].reset(new Wrapper(mk<32>(w.wkey[q])));
            }
            break;
        case CONSTRAIN: {
            if (!o || class_of(o->m.kind) < RCPRF || class_of(o->m.kind) > CRCPRF) break;
            uint64_t lo = leaf_in(op.a[2], o->m.min, o->m.max), hi = leaf_in(op.a[3], lo, o->m.max);
            if (class_of(o->m.kind) == RCPRF && lo == 0 && hi == o->m.max) break;
            std::unique_ptr<Base> n;
            if (ok("constrain", [&] { n = o->constrained(lo, hi); })) add(w, std::move(n));
            break;
        }
        case MOVE:
            if (o) { auto n = o->moved(); w.objs[op.a[0] % w.objs.size()] = std::move(n); event("move"); }
            if (op.a[2] & 1) { std::unique_ptr<Wrapper> n(new Wrapper(std::move(*w.w[k]))); w.w[k] = std::move(n); }
            break;
        }
        end_op();
        uint64_t h = op.code;
        for (auto& q : w.objs) h = mix(h, q->m.kind);
        state_seen(mix(h, w.disk.size()));
        note_u64(h);
    }
    // everything still on the disk can be recovered
    for (auto& d : w.disk) {
        std::vector<uint8_t>  b = d.blob;
        std::unique_ptr<Base> n;
        Result r = call([&] { n = unwrap(d.m.kind, *w.w[d.wk], b); });
        SIM_CHECK(!r.threw, "unwrap-refused", "%s: a stored blob cannot be recovered: %s", name_of(d.m.kind), r.what.c_str());
        n->m = d.m;
        n->use_it(plan.data_seed);
    }
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    (void)c;
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 4 + unsigned(r.below(26));
    bool     rsa = r.chance(1, 6);
    unsigned fav = unsigned(r.below(kKinds));
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {CREATE, CREATE, CREATE, WRAP, WRAP, WRAP, WRAP, UNWRAP, UNWRAP, UNWRAP, UNWRAP, USE, USE, RESTART, CONSTRAIN, CONSTRAIN, MOVE, PEERWRAP, BADUNWRAP, EMPTY};
        o.code = i == 0 ? CREATE : i == 1 ? WRAP : tab[r.below(sizeof tab)];
        o.a[0] = r.below(64); o.a[1] = r.below(2); o.a[2] = r.u64(); o.a[3] = r.u64(); o.a[4] = r.u64();
        if (o.code == CREATE) {
            if (r.chance(1, 2)) o.a[0] = fav;
            else { o.a[0] = r.below(kKinds); if (r.chance(1, 3)) o.a[0] = kRc0 + r.below(kKinds - kRc0); else if (r.chance(1, 3)) o.a[0] = r.below(3); }
            if (o.a[0] == 3 && !rsa) o.a[0] = kPrf0;
        }
        if (o.code == PEERWRAP) { o.a[0] = r.below(kRc0); if (o.a[0] == 3 && !rsa) o.a[0] = 0; }
        p.ops.push_back(o);
    }
}
Scenario S{"C03", {"create", "wrap", "unwrap", "use", "crash-restart", "constrain", "move", "peer-wrap", "bad-unwrap", "empty-constrained"}, obj::setup, gen, run, 350};
} // namespace
Scenario* sim::g_scenario = &S;
