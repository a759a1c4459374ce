// C13: the format-preserving permutation is a stable bijection.
#include "zoo.hpp"
#include <sse/crypto/utils.hpp>
using obj::ok;
using obj::refused;
namespace {
enum { CRYPT, ROUND, NUM, ALL1, CREATE, RANDOM, MOVE, RESTART, STORE, LOAD, AESOFF, AESON, HUGE_, NOPS };
const unsigned kKeys = 3;
struct P
{
    std::unique_ptr<Prp> o;
    std::string          key; // empty: drawn by the object itself
};
struct World
{
    const Plan&              p;
    std::vector<P>           objs;
    std::unique_ptr<Wrapper> w;
    bool                     aes{true};
    struct D { std::string key; std::vector<uint8_t> b; };
    std::vector<D>           disk;
    explicit World(const Plan& q) : p(q) { w.reset(new Wrapper(mk<32>(rnd(q.data_seed, 32)))); }
    std::string key(unsigned i) const
    {
        std::string k = rnd(mix(p.data_seed, 0x6b65), 48); // related keys
        if (i) k[mix(p.data_seed, i) % 48] ^= char(1 + mix(p.data_seed, 77 + i) % 255);
        if (p.cfg % 4 == 3 && i == 2) k = std::string(48, 0);
        return k;
    }
    void add(P&& x)
    {
        objs.push_back(std::move(x));
        if (objs.size() > 6) objs.erase(objs.begin());
    }
    void create(unsigned k)
    {
        Slot<Prp>     x;
        Slot<Key<48>> kk;
        kk.emplace(mk<48>(key(k)));
        if (!aes) { refused("Prp(key) without AES instructions", [&] { x.emplace(std::move(*kk)); }); return; }
        if (ok("Prp(key)", [&] { x.emplace(std::move(*kk)); })) add({std::unique_ptr<Prp>(new Prp(std::move(*x))), key(k)});
    }
    P* get(uint64_t i)
    {
        if (objs.empty()) create(unsigned(i % kKeys));
        return objs.empty() ? nullptr : &objs[i % objs.size()];
    }
};
std::string input(const Plan& p, uint64_t s, size_t len)
{
    std::string in = bytes_of(mix(p.data_seed, s % 3) * 11 + 4 + (s >> 2) % 7, len);
    unsigned    m  = unsigned(s >> 8) % 8;
    if (len && m == 1) in[len - 1] ^= char(1 << ((s >> 16) % 8));
    if (len && m == 2) in[0] ^= char(1 << ((s >> 16) % 8));
    if (len && m == 3) in[(s >> 24) % len] ^= char(1 + (s >> 16) % 255);
    if (len && m == 5) std::fill(in.begin(), in.end(), 0);
    return in;
}
// one call of one overload; the output is empty if it threw
std::string crypt(Prp& o, bool e, unsigned w, const std::string& in, bool must_refuse)
{
    std::string out, big;
    const char* what = e ? "Prp::encrypt" : "Prp::decrypt";
    unsigned    len = unsigned(in.size()), sh = (w >> 3) % 16;
    auto        go   = [&](obj::Fn f) {
        if (!must_refuse) return ok(what, f);
        refused("a permutation without AES instructions", f);
        return false;
    };
    const std::string guard(24, '\x22');
    switch (w % 6) {
    case 0: out = w & 64 ? std::string("old content") : std::string(); { std::string old = out; bool g = go([&] { if (e) o.encrypt(in, out); else o.decrypt(in, out); }); if (must_refuse) EQ(out, old, "output of a refused permutation"); if (!g) return ""; } return out;
    case 1: if (!go([&] { out = e ? o.encrypt(in) : o.decrypt(in); })) return ""; return out;
    case 2: { // string onto itself
        out = in;
        bool g = go([&] { if (e) o.encrypt(out, out); else o.decrypt(out, out); });
        if (must_refuse) EQ(out, in, "output of a refused permutation");
        return g ? out : std::string();
    }
    case 3: case 4: { // buffers, at any alignment
        std::string src = std::string(16 - sh, 'x') + in;
        big             = guard + std::string(len, '\x33') + guard;
        bool g = go([&] { if (e) o.encrypt(U(src) + 16 - sh, len, U(big) + 24); else o.decrypt(U(src) + 16 - sh, len, U(big) + 24); });
        EQ(src, std::string(16 - sh, 'x') + in, "input of a permutation");
        if (must_refuse) EQ(big, guard + std::string(len, '\x33') + guard, "output of a refused permutation");
        if (!g) return "";
        EQ(big.substr(0, 24) + big.substr(24 + len), guard + guard, "bytes around the output of a permutation");
        return big.substr(24, len);
    }
    default: { // in place
        big = std::string(sh, '\x22') + in + guard;
        bool g = go([&] { if (e) o.encrypt(U(big) + sh, len, U(big) + sh); else o.decrypt(U(big) + sh, len, U(big) + sh); });
        if (must_refuse) EQ(big, std::string(sh, '\x22') + in + guard, "output of a refused permutation");
        if (!g) return "";
        EQ(big.substr(0, sh) + big.substr(sh + len), std::string(sh, '\x22') + guard, "bytes around the output of a permutation");
        return big.substr(sh, len);
    }
    }
}
void numbers(const P& p, uint64_t x, unsigned w, bool must_refuse)
{
    Prp& o = *p.o;
    bool e = w & 1;
    if (w & 2) {
        uint32_t a = uint32_t(x), b = 0, c = 0;
        if (must_refuse) { refused("a permutation without AES instructions", [&] { b = e ? o.encrypt(a) : o.decrypt(a); }); return; }
        if (!ok("Prp (32-bit)", [&] { b = e ? o.encrypt(a) : o.decrypt(a); })) return;
        if (!p.key.empty()) EQ(std::string((char*)&b, 4), ref::aez(p.key, std::string((char*)&a, 4), e), "Prp (32-bit)");
        if (ok("Prp (32-bit)", [&] { c = e ? o.decrypt(b) : o.encrypt(b); })) SIM_CHECK(c == a, "not-undone", "32-bit permutation of %08x gives %08x, whose inverse is %08x", a, b, c);
    } else {
        uint64_t a = x, b = 0, c = 0;
        if (must_refuse) { refused("a permutation without AES instructions", [&] { b = e ? o.encrypt_64(a) : o.decrypt_64(a); }); return; }
        if (!ok("Prp (64-bit)", [&] { b = e ? o.encrypt_64(a) : o.decrypt_64(a); })) return;
        if (!p.key.empty()) EQ(std::string((char*)&b, 8), ref::aez(p.key, std::string((char*)&a, 8), e), "Prp (64-bit)");
        if (ok("Prp (64-bit)", [&] { c = e ? o.decrypt_64(b) : o.encrypt_64(b); })) SIM_CHECK(c == a, "not-undone", "64-bit permutation of %016llx gives %016llx, whose inverse is %016llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
    }
}
void reinit(World& w, bool on, bool full)
{
    set_aes_available(on);
    w.aes = on;
    if (full) cleanup_crypto_lib();
    init_crypto_lib();
}
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w(plan);
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op  = plan.ops[i];
        size_t    len = size_t(op.a[3]);
        bool      e   = op.a[5] & 1;
        begin_op(i);
        switch (op.code) {
        case CRYPT: case ROUND: {
            P* p = w.get(op.a[0]);
            if (!p) break;
            std::string in = input(plan, op.a[2], len), out = crypt(*p->o, e, unsigned(op.a[4]), in, !w.aes);
            if (!w.aes) { event("refused-call"); break; }
            if (fault_fired() && out.empty()) break;
            SIM_CHECK(out.size() == len, "length-changed", "a permutation of %zu bytes has %zu bytes", len, out.size());
            if (!p->key.empty()) EQ(out, ref::aez(p->key, in, e), e ? "Prp::encrypt" : "Prp::decrypt");
            if (op.code == ROUND) { // undone by any object of the same key and any overload
                P*          q = p;
                for (auto& x : w.objs) if (!p->key.empty() && x.key == p->key && (op.a[1] >> (&x - &w.objs[0])) % 2) q = &x;
                std::string back = crypt(*q->o, !e, unsigned(op.a[4] >> 7), out, false);
                if (fault_fired() && back.empty()) break;
                SIM_CHECK(back == in, "not-undone", "the %zu bytes %s become %s and then %s", len, hex(in).c_str(), hex(out).c_str(), hex(back).c_str());
            }
            break;
        }
        case NUM: if (P* p = w.get(op.a[0])) numbers(*p, op.a[2], unsigned(op.a[4]), !w.aes); break;
        case ALL1: { // all values of one byte
            P* p = w.get(op.a[0]);
            if (!p || !w.aes) break;
            std::set<std::string> s;
            bool                  all = true;
            for (unsigned x = 0; x < 256; x++) { std::string y = crypt(*p->o, e, unsigned(op.a[4]), std::string(1, char(x)), false); all &= !y.empty(); s.insert(y); }
            if (all) SIM_CHECK(s.size() == 256, "not-a-bijection", "the permutation of one byte takes %zu values", s.size());
            break;
        }
        case CREATE: w.create(unsigned(op.a[1] % kKeys)); break;
        case RANDOM: {
            Slot<Prp> x;
            if (!w.aes) { refused("Prp() without AES instructions", [&] { x.emplace(); }); break; }
            if (ok("Prp()", [&] { x.emplace(); })) w.add({std::unique_ptr<Prp>(new Prp(std::move(*x))), std::string()});
            break;
        }
        case MOVE:
            event("move");
            for (auto& p : w.objs) if ((op.a[0] + uint64_t(&p - &w.objs[0])) % 2) {
                std::unique_ptr<Prp> n(new Prp(std::move(*p.o)));
                p.o = std::move(n);
            }
            break;
        case RESTART: event("crash-restart"); w.objs.clear(); w.w.reset(new Wrapper(mk<32>(rnd(plan.data_seed, 32)))); break;
        case STORE: {
            P* p = w.get(op.a[0]);
            if (!p || p->key.empty()) break;
            World::D d;
            d.key = p->key;
            if (!w.aes) { refused("wrapping a Prp without AES instructions", [&] { d.b = w.w->wrap(*p->o); }); break; }
            if (!ok("wrap", [&] { d.b = w.w->wrap(*p->o); })) break;
            w.disk.push_back(std::move(d));
            if (w.disk.size() > 4) w.disk.erase(w.disk.begin());
            break;
        }
        case LOAD: {
            if (w.disk.empty()) break;
            auto&                d = w.disk[op.a[0] % w.disk.size()];
            std::vector<uint8_t> b = d.b;
            Slot<Prp>            x;
            if (!w.aes) { refused("unwrapping a Prp without AES instructions", [&] { x.emplace(w.w->unwrap<Prp>(b)); }); break; }
            if (ok("unwrap", [&] { x.emplace(w.w->unwrap<Prp>(b)); })) w.add({std::unique_ptr<Prp>(new Prp(std::move(*x))), d.key});
            break;
        }
        case AESOFF: if (w.aes) { event("processor-without-aes"); reinit(w, false, op.a[0] & 1); SIM_CHECK(!Prp::is_available(), "availability", "the permutation claims to be available on a processor without AES instructions"); } break;
        case AESON: if (!w.aes) { event("processor-with-aes"); reinit(w, true, op.a[0] & 1); SIM_CHECK(Prp::is_available(), "availability", "the permutation claims to be unavailable on a processor with AES instructions"); } break;
        case HUGE_: { // a length which does not fit the 32-bit length of the construction
            P* p = w.get(op.a[0]);
            if (!p || !w.aes) break;
            probe("huge-input");
            std::string in((1ULL << 32) + size_t(op.a[2] % 40), 'h'), out;
            if (e) refused("an input of 4 GiB", [&] { p->o->encrypt(in, out); });
            else refused("an input of 4 GiB", [&] { p->o->decrypt(in, out); });
            SIM_CHECK(out.empty(), "wrong-value", "a refused permutation produced output");
            break;
        }
        }
        end_op();
        state_seen(mix(mix(op.code, w.objs.size()), mix(w.aes, w.disk.size())));
        note_u64(mix(op.a[2], mix(op.a[3], op.a[4])));
    }
    if (!w.aes) reinit(w, true, false);
    begin_op(plan.ops.size());
    for (auto& p : w.objs) numbers(p, plan.data_seed, 1, false);
    end_op();
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 3 + unsigned(r.below(18));
    size_t   favl = c.length(r, 300);
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {CRYPT, CRYPT, CRYPT, CRYPT, ROUND, ROUND, ROUND, ROUND, NUM, NUM, CREATE, CREATE, RANDOM, MOVE, RESTART, STORE, LOAD, AESOFF, AESON, AESON};
        o.code = tab[r.below(sizeof tab)];
        if (r.chance(1, 60)) o.code = ALL1;
        for (auto& a : o.a) a = r.u64();
        o.a[0] = r.below(64);
        o.a[1] = r.below(64);
        o.a[2] = r.chance(1, 4) ? c.value(r) : r.u64();
        o.a[3] = r.chance(1, 80) ? r.below(300000) : r.chance(1, 3) ? favl + r.below(3) : r.chance(1, 2) ? r.below(70) : c.length(r, 4200);
        if (r.chance(1, 1500)) o.a[3] = (1ULL << (18 + r.below(7))) + r.below(1ULL << 18) - 5; // up to 16 MiB
        o.a[4] = r.below(1 << 14);
        p.ops.push_back(o);
    }
    if (!strcmp(SIM_VARIANT, "plain") && (c.run == 11 || c.run == 23)) { // two runs only: each needs many gigabytes
        p.ops.clear();
        Op o;
        o.code = HUGE_;
        o.a[2] = r.below(40);
        o.a[5] = c.run == 11;
        p.ops.push_back(o);
    }
}
Scenario S{"C13", {"crypt", "round-trip", "integer", "all-bytes", "create", "random-object", "move", "crash-restart", "store", "load", "aes-off", "aes-on", "huge"}, obj::setup, gen, run, 300};
} // namespace
Scenario* sim::g_scenario = &S;
