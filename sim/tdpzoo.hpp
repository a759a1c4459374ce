// Trapdoor-permutation objects of the population: public, private and pool objects of known key pairs.
#pragma once
#include "zoo.hpp"

namespace zoo {
// key pairs made by the library itself during a run (numbered after the stored ones)
struct Generated { int rsa; std::string sk, pk; };
inline std::vector<Generated> g_generated;
inline std::string sk_of(int rsa) { for (auto& g : g_generated) if (g.rsa == rsa) return g.sk; return kRsa2048[rsa].sk; }
inline std::string pk_of(int rsa) { for (auto& g : g_generated) if (g.rsa == rsa) return g.pk; return kRsa2048[rsa].pk; }
constexpr size_t kM = Tdp::kMessageSize;
inline std::array<uint8_t, kM> arr(const std::string& s)
{
    std::array<uint8_t, kM> a;
    memcpy(a.data(), s.data(), kM);
    return a;
}
// elements, boundary-biased; below_n: only values smaller than the modulus
inline std::string element(int h, uint64_t s, bool below_n)
{
    std::string n = ref::rsa_modulus(h), x(kM, 0);
    auto minus = [&](unsigned k) { std::string y = n; int c = int(k); for (size_t i = kM; i-- > 0 && c;) { int v = int(uint8_t(y[i])) - (c & 255); c = (c >> 8) + (v < 0); y[i] = char(v & 255); } return y; };
    switch (s % 12) {
    case 0: return x;                                        // 0
    case 1: x[kM - 1] = char(1 + (s >> 8) % 9); return x;    // small
    case 2: return minus(1 + (s >> 8) % 9);                  // just below N
    case 3: x[kM - 1 - (s >> 8) % 256] = char(1); return x[0] ? rnd(s, kM).replace(0, 1, 1, '\0') : x; // a power of 256
    case 4: if (!below_n) { if ((s >> 8) & 1) return n; return std::string(kM, '\xff'); } // N and above
    // fallthrough
    default: return ref::rsa_reduce(h, rnd(s, kM));
    }
}
enum { T_PUB, T_INV, T_POOL };

template<class T> struct TdpCommon : Obj
{
    int          rsa{0};
    int          h() const { return obj::g_rsa[size_t(rsa)]; }
    std::string  eval_ref(const std::string& x, unsigned n) { return ref::rsa_eval(h(), x, n); }
    // calls shared by the three classes
    void common(T& o, unsigned w, uint64_t s, const char* cls)
    {
        std::string x = element(h(), s, false), y, seed = bytes_of(s, (s >> 9) % 80), k = rnd(mix(s, 5), 32), name_;
        auto        nm = [&](const char* f) { name_ = std::string(cls) + "::" + f; return name_.c_str(); };
        switch (w % 14) {
        case 0: case 1: if (ok(nm("eval(string)"), [&] { y = o.eval(x); })) EQ(y, eval_ref(x, 1), name_.c_str()); break;
        case 2: if (ok(nm("eval(string, string)"), [&] { o.eval(x, y); })) EQ(y, eval_ref(x, 1), name_.c_str()); break;
        case 3: { auto a = arr(x); if (ok(nm("eval(array)"), [&] { auto b = o.eval(a); Unlib u; y = str(b); })) EQ(y, eval_ref(x, 1), name_.c_str()); break; }
        case 4: case 5: {
            auto draw = [&] { return ok(nm(w % 14 == 4 ? "sample" : "sample_array"), [&] { if (w % 14 == 4) y = o.sample(); else { auto b = o.sample_array(); Unlib u; y = str(b); } }); };
            uint64_t p0 = rng_consumed();
            if (!draw()) break;
            SIM_CHECK(ref::rsa_is_element(h(), y), "wrong-value", "a sampled element is not below the modulus");
            if (!obj::g_redraw || fault_fired()) break;
            std::string first = y;
            uint64_t    p1    = rng_consumed();
            rng_rewind(p0); // the same randomness again
            if (draw()) EQ(y, first, name_.c_str());
            rng_rewind(p1);
            break;
        }
        case 6: case 7: {
            Slot<Key<32>> key; key.emplace(mk<32>(k));
            std::string want = ref::rsa_reduce(h(), ref::prf(k, Tdp::kRSAPrfSize, seed));
            bool good = w % 14 == 6 ? ok(nm("generate(key)"), [&] { y = o.generate(std::move(*key), seed); }) : ok(nm("generate_array(key)"), [&] { auto b = o.generate_array(std::move(*key), seed); Unlib u; y = str(b); });
            if (good) EQ(y, want, name_.c_str());
            break;
        }
        case 8: case 9: {
            Prf<Tdp::kRSAPrfSize> p(mk<32>(k));
            std::string want = ref::rsa_reduce(h(), ref::prf(k, Tdp::kRSAPrfSize, seed));
            bool good = w % 14 == 8 ? ok(nm("generate(prf)"), [&] { y = o.generate(p, seed); }) : ok(nm("generate_array(prf)"), [&] { auto b = o.generate_array(p, seed); Unlib u; y = str(b); });
            if (good) EQ(y, want, name_.c_str());
            break;
        }
        case 10: case 11:
            if (ok(nm("public_key"), [&] { y = o.public_key(); })) { int g = ref::rsa_load_pub(y); SIM_CHECK(g >= 0 && ref::rsa_same_public(h(), g), "wrong-value", "the exported public key is another key"); EQ(y, pk_of(rsa), "the exported public key"); }
            break;
        case 12: case 13: { // an input of another size
            size_t n = (s >> 9) % 3 == 0 ? (s >> 11) % kM : (s >> 9) % 3 == 1 ? kM + 1 + (s >> 11) % 300 : ((s >> 11) & 1 ? kM - 1 : kM + 1);
            std::string z = rnd(s, n), out = "untouched";
            refused(nm("eval of an input of another size"), [&] { o.eval(z, out); });
            EQ(out, std::string("untouched"), "output of a refused evaluation");
            break;
        }
        }
    }
};
struct PubObj : TdpCommon<Tdp>
{
    Slot<Tdp> o;
    PubObj(int r) { rsa = r; name = "Tdp"; }
    void act(unsigned w, uint64_t s) override
    {
        if (w % 16 < 14) return common(*o, w, s, "Tdp");
        if (w % 16 == 14) { // a copy
            std::unique_ptr<PubObj> n(new PubObj(rsa));
            if (ok("Tdp(const Tdp&)", [&] { n->o.emplace(*o); })) g_spawn.push_back(std::move(n));
            return;
        }
        // assignment over an object of another key, and self-assignment
        Tdp other(kRsa2048[(unsigned(rsa) + 1 + s % 3) % g_nrsa()].pk);
        if (s & 16) { if (ok("Tdp self-assignment", [&] { *o = *o; })) {} return; }
        if (ok("Tdp::operator=", [&] { other = *o; })) { std::string y, x = element(h(), mix(s, 1), false); if (ok("Tdp::eval of an assigned object", [&] { y = other.eval(x); })) EQ(y, eval_ref(x, 1), "Tdp::eval of an assigned object"); }
    }
    static unsigned g_nrsa() { return unsigned(sizeof kRsa2048 / sizeof *kRsa2048); }
    void touch(const Wrapper&) override { act(0, 77); }
    std::unique_ptr<Obj> moved() override
    {
        std::unique_ptr<PubObj> n(new PubObj(rsa));
        n->o.emplace(*o); // Tdp has no move constructor: a move copies
        return std::unique_ptr<Obj>(n.release());
    }
};
struct InvObj : TdpCommon<TdpInverse>
{
    Slot<TdpInverse> o;
    InvObj(int r) { rsa = r; name = "TdpInverse"; }
    void act(unsigned w, uint64_t s) override
    {
        std::string x = element(h(), s, true), y;
        uint32_t    n = (s >> 52) % 6 == 0 ? (1u << (s >> 24) % 32) * uint32_t(1 + (s >> 30) % 3) + uint32_t((s >> 34) % 3) - 1 : (s >> 20) % 3 == 0 ? uint32_t(s >> 24) % 6 : (s >> 20) % 3 == 1 ? uint32_t(s >> 24) % 300 : uint32_t(s >> 30);
        switch (w % 24) {
        default: return common(*o, w % 24, s, "TdpInverse");
        case 14: case 15: if (ok("TdpInverse::invert(string)", [&] { y = o->invert(x); })) EQ(y, ref::rsa_invert(h(), x, 1), "TdpInverse::invert(string)"); break;
        case 16: if (ok("TdpInverse::invert(string, string)", [&] { o->invert(x, y); })) EQ(y, ref::rsa_invert(h(), x, 1), "TdpInverse::invert(string, string)"); break;
        case 17: { auto a = arr(x); if (ok("TdpInverse::invert(array)", [&] { auto b = o->invert(a); Unlib u; y = str(b); })) EQ(y, ref::rsa_invert(h(), x, 1), "TdpInverse::invert(array)"); break; }
        case 18: if (ok("TdpInverse::invert_mult(string)", [&] { y = o->invert_mult(x, n); })) EQ(y, ref::rsa_invert(h(), x, n), "TdpInverse::invert_mult(string)"); break;
        case 19: if (ok("TdpInverse::invert_mult(string, string)", [&] { o->invert_mult(x, y, n); })) EQ(y, ref::rsa_invert(h(), x, n), "TdpInverse::invert_mult(string, string)"); break;
        case 20: { auto a = arr(x); if (ok("TdpInverse::invert_mult(array)", [&] { auto b = o->invert_mult(a, n); Unlib u; y = str(b); })) EQ(y, ref::rsa_invert(h(), x, n), "TdpInverse::invert_mult(array)"); break; }
        case 22: { // wrapped and unwrapped again
            Wrapper              wr(mk<32>(rnd(s, 32)));
            std::vector<uint8_t> b;
            std::unique_ptr<InvObj> c(new InvObj(rsa));
            if (ok("wrap", [&] { b = wr.wrap(*o); }) && ok("unwrap", [&] { c->o.emplace(wr.unwrap<TdpInverse>(b)); })) g_spawn.push_back(std::move(c));
            break;
        }
        case 21: if (ok("TdpInverse::private_key", [&] { y = o->private_key(); })) { int g = ref::rsa_load(y); SIM_CHECK(g >= 0 && ref::rsa_same_private(h(), g), "wrong-value", "the exported private key is another key"); memset(&y[0], 0, y.size()); } break; // the caller owns the export
        case 23: {
            size_t      l = (s >> 9) % 3 == 0 ? (s >> 11) % kM : (s >> 9) % 3 == 1 ? kM + 1 + (s >> 11) % 300 : ((s >> 11) & 1 ? kM - 1 : kM + 1);
            std::string z = rnd(s, l), out = "untouched";
            if (s & 32) refused("TdpInverse::invert of an input of another size", [&] { o->invert(z, out); });
            else refused("TdpInverse::invert_mult of an input of another size", [&] { o->invert_mult(z, out, n); });
            EQ(out, std::string("untouched"), "output of a refused inversion");
            break;
        }
        }
    }
    void touch(const Wrapper& w) override
    {
        act(14, 77); act(18, 77 | 5ULL << 20 | 5ULL << 24 | 1ULL << 52); act(0, 77);
        ok("wrap", [&] { w.wrap(*o); });
    }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<InvObj> n(new InvObj(rsa)); n->o.emplace(std::move(*o)); return std::unique_ptr<Obj>(n.release()); }
};
struct PoolObj : TdpCommon<TdpMultPool>
{
    Slot<TdpMultPool> o;
    unsigned          size;
    PoolObj(int r, unsigned n) : size(n) { rsa = r; name = "TdpMultPool"; }
    void act(unsigned w, uint64_t s) override
    {
        std::string x = element(h(), s, false), y;
        uint8_t     n = uint8_t(1 + (s >> 20) % size);
        if ((s >> 40) % 4 == 0) n = uint8_t(size);
        switch (w % 23) {
        default: return common(*o, w % 23, s, "TdpMultPool");
        case 14: case 15: if (ok("TdpMultPool::eval(string, order)", [&] { y = o->eval(x, n); })) EQ(y, eval_ref(x, n), "TdpMultPool::eval(string, order)"); break;
        case 16: if (ok("TdpMultPool::eval(string, string, order)", [&] { o->eval(x, y, n); })) EQ(y, eval_ref(x, n), "TdpMultPool::eval(string, string, order)"); break;
        case 17: { auto a = arr(x); if (ok("TdpMultPool::eval(array, order)", [&] { auto b = o->eval(a, n); Unlib u; y = str(b); })) EQ(y, eval_ref(x, n), "TdpMultPool::eval(array, order)"); break; }
        case 18: { std::unique_ptr<PoolObj> c(new PoolObj(rsa, size)); if (ok("TdpMultPool(const TdpMultPool&)", [&] { c->o.emplace(*o); })) g_spawn.push_back(std::move(c)); break; }
        case 19: {
            if (s & 16) { ok("TdpMultPool self-assignment", [&] { *o = *o; }); break; }
            TdpMultPool other(kRsa2048[(unsigned(rsa) + 1 + s % 3) % PubObj::g_nrsa()].pk, uint8_t(1 + (s >> 33) % 5));
            if (ok("TdpMultPool::operator=", [&] { other = *o; })) {
                SIM_CHECK(other.maximum_order() == size, "wrong-value", "an assigned pool has order %u instead of %u", unsigned(other.maximum_order()), size);
                if (ok("TdpMultPool::eval of an assigned object", [&] { y = other.eval(x, n); })) EQ(y, eval_ref(x, n), "TdpMultPool::eval of an assigned object");
            }
            break;
        }
        case 20: { uint8_t bad = (s & 16) || size == 255 ? 0 : uint8_t(size + 1 + (s >> 24) % (255 - size)); std::string out = "untouched"; refused("a pool order out of range", [&] { o->eval(x, out, bad); }); EQ(out, std::string("untouched"), "output of a refused pool evaluation"); break; }
        case 21: { uint8_t m = 0; ok("TdpMultPool::maximum_order", [&] { m = o->maximum_order(); }); SIM_CHECK(m == size, "wrong-value", "maximum_order is %u instead of %u", unsigned(m), size); break; }
        case 22: { std::string z = rnd(s, (s >> 9) % 600), out = "untouched"; if (z.size() == kM) z += 'x'; refused("TdpMultPool::eval of an input of another size", [&] { o->eval(z, out, n); }); EQ(out, std::string("untouched"), "output of a refused pool evaluation"); break; }
        }
    }
    void touch(const Wrapper&) override { act(0, 77); act(14, 77 | 1ULL << 40); act(14, 77 | 5ULL << 20 | 1ULL << 40); }
    std::unique_ptr<Obj> moved() override
    {
        std::unique_ptr<PoolObj> n(new PoolObj(rsa, size));
        n->o.emplace(*o);
        return std::unique_ptr<Obj>(n.release());
    }
};
// creation of a trapdoor-permutation object from a stored key; may be faulted
inline unsigned pool_size(int rsa, uint64_t h)
{
    unsigned n = (h & 3) == 0 ? 1 + unsigned(h >> 8) % 2 : (h & 15) == 1 ? 1 + unsigned(h >> 8) % 255 : 1 + unsigned(h >> 8) % 8;
    while (n > 1 && !ref::rsa_pool_ok(obj::g_rsa[size_t(rsa)], n)) n = n / 2 + n / 4;
    return n;
}
inline std::unique_ptr<Obj> create_tdp(unsigned kind, uint64_t seed, uint64_t hh)
{
    int rsa = int(seed % PubObj::g_nrsa());
    std::string pk = kRsa2048[rsa].pk, sk = kRsa2048[rsa].sk;
    switch (kind % 3) {
    case T_PUB: { std::unique_ptr<PubObj> p(new PubObj(rsa)); if (ok("Tdp(public key)", [&] { p->o.emplace(pk); })) return std::unique_ptr<Obj>(p.release()); break; }
    case T_INV: { std::unique_ptr<InvObj> p(new InvObj(rsa)); if (ok("TdpInverse(private key)", [&] { p->o.emplace(sk); })) return std::unique_ptr<Obj>(p.release()); break; }
    default: { unsigned n = pool_size(rsa, hh); std::unique_ptr<PoolObj> p(new PoolObj(rsa, n)); if (ok("TdpMultPool(public key, size)", [&] { p->o.emplace(pk, uint8_t(n)); })) return std::unique_ptr<Obj>(p.release()); break; }
    }
    return nullptr;
}
inline void tdp_bad_construction(uint64_t s)
{
    int rsa = int(s % PubObj::g_nrsa());
    std::string pk = kRsa2048[rsa].pk, sk = kRsa2048[rsa].sk;
    switch ((s >> 4) % 9) {
    case 6: case 7: case 8: { // a damaged private key
        size_t l = sk.rfind('\n', sk.rfind("-----END") - 2); // start of the last line
        switch ((s >> 8) % 4) {
        case 0: { size_t i = l - 3 - (s >> 16) % 60; sk[i] = sk[i] == 'A' ? 'B' : 'A'; break; } // another component
        case 1: sk.erase(l - 64, 64); break;                                                    // cut
        case 2: sk[l - 3 - (s >> 16) % 60] = '!'; break;                                        // not even text
        default: { size_t i = 65 * (2 + (s >> 16) % 20) + (s >> 24) % 60; sk[i] = sk[i] == 'A' ? 'B' : 'A'; break; }
        }
        refused("a damaged private key", [&] { TdpInverse p(sk); });
        break;
    }
    case 0: refused("a pool of size 0", [&] { TdpMultPool p(pk, 0); }); break;
    case 1: refused("a public key as private key", [&] { TdpInverse p(pk); }); break;
    case 2: refused("a private key as public key", [&] { Tdp p(sk); }); break;
    case 3: refused("an empty key", [&] { Tdp p((std::string())); }); break;
    case 4: refused("an empty private key", [&] { TdpInverse p((std::string())); }); break;
    case 5: if (!ref::rsa_pool_ok(obj::g_rsa[size_t(rsa)], 255)) refused("a pool whose exponents exceed the modulus", [&] { TdpMultPool p(pk, 255); }); break;
    }
}
} // namespace zoo
