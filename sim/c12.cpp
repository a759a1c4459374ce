// C12: keyed derivations and hashes are fixed functions of key and arguments, whatever the overload,
// the instance and the history.
#include "zoo.hpp"
#include <sse/crypto/hash.hpp>
using obj::ok;
using obj::refused;
typedef unsigned long long ull;

// reads the bytes of a derived key through the friend declared by Key for the unit tests
namespace tests {
thread_local const void* g_read_key = nullptr;
thread_local std::string g_key_bytes;
template<size_t K> void prg_test_key_derivation_consistency()
{
    const Key<K>& k = *static_cast<const Key<K>*>(g_read_key);
    g_key_bytes.assign(reinterpret_cast<const char*>(k.unlock_get()), K);
    k.lock();
}
} // namespace tests

namespace {
enum { PRF, HMAC, HASH, PRGM, PRGS, PKEY, PKEYS, BAD, MOVE, RESTART, STORE, LOAD, BIG, NOPS };
template<size_t K> std::string bytes(const Key<K>& k)
{
    tests::g_read_key = &k;
    tests::prg_test_key_derivation_consistency<K>();
    return tests::g_key_bytes;
}
template<size_t K> void same_key(const Key<K>& k, const std::string& want, const char* what) { EQ(bytes<K>(k), want, what); }

using PSizes = Sizes<1, 12, 16, 20, 32, 63, 64, 65, 96, 127, 128, 129, 192, 200, 264, 300, 512, 1024, 2000>;
using KSizes = Sizes<1, 10, 15, 16, 18, 32, 33, 48, 63, 64, 65, 100, 128, 200, 1000>;
using HSizes = Sizes<16, 17, 25, 32, 48, 63, 64, 65, 100, 127, 128>;

// what the plan says about an input: variations of a few messages
std::string input(const Plan& p, uint64_t s, size_t len)
{
    std::string in = bytes_of(mix(p.data_seed, s % 3) * 11 + 4 + (s >> 2) % 7, len);
    unsigned    m  = unsigned(s >> 8) % 8;
    if (len && m == 1) in[len - 1] ^= char(1 << ((s >> 16) % 8));
    if (len && m == 2) in[0] ^= char(1 << ((s >> 16) % 8));
    if (len && m == 3) in[(s >> 24) % len] ^= char(1 + (s >> 16) % 255);
    if (len && m == 4) in[len - 1] = 0;
    if (len && m == 5) std::fill(in.begin(), in.end(), 0);
    return in;
}
struct AnyPrf
{
    size_t kind;
    virtual ~AnyPrf() {}
    virtual void                    eval(unsigned overload, const std::string& key, const std::string& in) = 0;
    virtual std::unique_ptr<AnyPrf> moved(bool assign)                                                     = 0;
    virtual std::vector<uint8_t>    wrap(const Wrapper&)                                                   = 0;
    virtual void                    bad(unsigned, const std::string& in)                                   = 0;
};
template<size_t L, class F> void as_array(const std::string& in, F&& f)
{
    std::array<uint8_t, L> a;
    memcpy(a.data(), in.data(), L);
    f(a);
}
template<class F> bool arrays(const std::string& in, F&& f)
{
    switch (in.size()) {
    case 1: as_array<1>(in, f); return true;
    case 16: as_array<16>(in, f); return true;
    case 20: as_array<20>(in, f); return true;
    case 32: as_array<32>(in, f); return true;
    case 40: as_array<40>(in, f); return true;
    case 64: as_array<64>(in, f); return true;
    case 127: as_array<127>(in, f); return true;
    case 128: as_array<128>(in, f); return true;
    case 129: as_array<129>(in, f); return true;
    case 200: as_array<200>(in, f); return true;
    }
    return false;
}
template<uint16_t N> struct PrfI : AnyPrf
{
    Prf<N> o;
    explicit PrfI(Prf<N>&& x) : o(std::move(x)) {}
    void eval(unsigned w, const std::string& key, const std::string& in) override
    {
        std::string  want = ref::prf(key, N, in), out;
        Slot<Key<N>> k;
        switch (w % 6) {
        case 0: if (ok("Prf::prf(buffer)", [&] { auto a = o.prf(U(in), in.size()); Unlib u; out = str(a); })) EQ(out, want, "Prf::prf(buffer)"); break;
        case 1: if (ok("Prf::prf(string)", [&] { auto a = o.prf(in); Unlib u; out = str(a); })) EQ(out, want, "Prf::prf(string)"); break;
        case 2: arrays(in, [&](const auto& x) { if (ok("Prf::prf(array)", [&] { auto a = o.prf(x); Unlib u; out = str(a); })) EQ(out, want, "Prf::prf(array)"); }); break;
        case 3: if (ok("Prf::derive_key(buffer)", [&] { k.emplace(o.derive_key(U(in), in.size())); })) same_key<N>(*k, want, "Prf::derive_key(buffer)"); break;
        case 4: if (ok("Prf::derive_key(string)", [&] { k.emplace(o.derive_key(in)); })) same_key<N>(*k, want, "Prf::derive_key(string)"); break;
        case 5: arrays(in, [&](const auto& x) { if (ok("Prf::derive_key(array)", [&] { k.emplace(o.derive_key(x)); })) same_key<N>(*k, want, "Prf::derive_key(array)"); }); break;
        }
    }
    std::unique_ptr<AnyPrf> moved(bool assign) override
    {
        auto* n = new PrfI(std::move(o));
        if (assign) { Prf<N> other; other = std::move(n->o); delete n; n = new PrfI(std::move(other)); }
        n->kind = kind;
        return std::unique_ptr<AnyPrf>(n);
    }
    std::vector<uint8_t> wrap(const Wrapper& w) override { return w.wrap(o); }
    void bad(unsigned w, const std::string& in) override
    {
        if (w % 2) refused("Prf with a null input", [&] { o.prf(nullptr, in.size()); });
        else refused("Prf::derive_key with a null input", [&] { o.derive_key(nullptr, in.size()); });
    }
};
struct AnyHMac
{
    virtual ~AnyHMac() {}
    virtual void                     eval(unsigned overload, const std::string& in, size_t n, bool bad) = 0;
    virtual std::unique_ptr<AnyHMac> moved(bool assign)                                                 = 0;
    std::string                      key;
};
template<class Hs, uint16_t N> struct HMacI : AnyHMac
{
    HMac<Hs, N> o;
    explicit HMacI(HMac<Hs, N>&& x) : o(std::move(x)) {}
    void eval(unsigned w, const std::string& in, size_t n, bool bad) override
    {
        std::string want = std::is_same<Hs, Hash>::value ? ref::hmac_blake2b(key, in) : ref::hmac_sha512(key, in), out(80, '\x11');
        n %= 65;
        if (bad) {
            out.assign(400, '\x11');
            size_t too = 65 + w % 300;
            switch ((w >> 3) % 3) {
            case 0: refused("HMac with a null input", [&] { o.hmac(nullptr, in.size(), U(out), n); }); break;
            case 1: refused("HMac with a null output", [&] { o.hmac(U(in), in.size(), nullptr, n); }); break;
            case 2: refused("HMac with a too long output", [&] { o.hmac(U(in), in.size(), U(out), too); }); break;
            }
            EQ(out, std::string(400, '\x11'), "output of a refused HMac");
            return;
        }
        switch (w % 4) {
        case 0: if (ok("HMac::hmac(buffer, length)", [&] { o.hmac(U(in), in.size(), U(out), n); })) { EQ(out.substr(0, n), want.substr(0, n), "HMac::hmac(buffer, length)"); EQ(out.substr(n), std::string(80 - n, '\x11'), "bytes after the HMac output"); } break;
        case 1: if (ok("HMac::hmac(buffer)", [&] { o.hmac(U(in), in.size(), U(out)); })) { EQ(out.substr(0, 64), want, "HMac::hmac(buffer)"); EQ(out.substr(64), std::string(16, '\x11'), "bytes after the HMac output"); } break;
        case 2: if (ok("HMac::hmac(array)", [&] { auto a = o.hmac(U(in), in.size()); Unlib u; out = str(a); })) EQ(out, want, "HMac::hmac(array)"); break;
        case 3: if (ok("HMac::hmac(string)", [&] { auto a = o.hmac(in); Unlib u; out = str(a); })) EQ(out, want, "HMac::hmac(string)"); break;
        }
    }
    std::unique_ptr<AnyHMac> moved(bool assign) override
    {
        auto* n = new HMacI(std::move(o));
        if (assign) { HMac<Hs, N> other; other = std::move(n->o); delete n; n = new HMacI(std::move(other)); }
        n->key = key;
        return std::unique_ptr<AnyHMac>(n);
    }
};
const unsigned kKeys = 3;
struct World
{
    const Plan&                                        p;
    std::map<std::pair<size_t, unsigned>, std::unique_ptr<AnyPrf>>  prf;  // (size index, key)
    std::map<std::pair<size_t, unsigned>, std::unique_ptr<AnyHMac>> hmac; // (2 * size index + hash, key)
    std::map<unsigned, std::unique_ptr<Prg>>           prg;
    std::unique_ptr<Wrapper>                           w;
    struct D { size_t kind; unsigned key; std::vector<uint8_t> b; };
    std::vector<D>                                     disk; // kind 1000: Prg
    std::string key(unsigned i, size_t n = 32) const
    {
        std::string k = rnd(mix(p.data_seed, 0x6b65), n); // related keys
        if (i) k[mix(p.data_seed, i) % n] ^= char(1 + mix(p.data_seed, 77 + i) % 255);
        if (p.cfg % 4 == 3 && i == 2) k = std::string(n, 0);
        return k;
    }
    explicit World(const Plan& q) : p(q) { w.reset(new Wrapper(mk<32>(rnd(q.data_seed, 32)))); }
    AnyPrf* get_prf(size_t idx, unsigned k)
    {
        idx %= PSizes::count;
        k %= kKeys;
        auto& e = prf[{idx, k}];
        if (!e) PSizes::with(idx, [&](auto S) {
            constexpr uint16_t N = decltype(S)::value;
            Slot<Prf<N>> x;
            Slot<Key<32>> kk;
            kk.emplace(mk<32>(key(k)));
            if (ok("Prf(key)", [&] { x.emplace(std::move(*kk)); })) { e.reset(new PrfI<N>(std::move(*x))); e->kind = idx; }
        });
        return e.get();
    }
    AnyHMac* get_hmac(size_t idx, unsigned k)
    {
        k %= kKeys;
        auto& e = hmac[{idx % (2 * HSizes::count), k}];
        if (!e) HSizes::with((idx / 2) % HSizes::count, [&](auto S) {
            constexpr uint16_t N = decltype(S)::value;
            Slot<Key<N>> kk;
            kk.emplace(mk<N>(key(k, N)));
            if (idx % 2) { Slot<HMac<hash::sha512, N>> x; if (ok("HMac(key)", [&] { x.emplace(std::move(*kk)); })) e.reset(new HMacI<hash::sha512, N>(std::move(*x))); }
            else { Slot<HMac<Hash, N>> x; if (ok("HMac(key)", [&] { x.emplace(std::move(*kk)); })) e.reset(new HMacI<Hash, N>(std::move(*x))); }
            if (e) e->key = key(k, N);
        });
        return e.get();
    }
    Prg* get_prg(unsigned k)
    {
        k %= kKeys;
        auto& e = prg[k];
        if (!e) { Slot<Prg> x; Slot<Key<32>> kk; kk.emplace(mk<32>(key(k))); if (ok("Prg(key)", [&] { x.emplace(std::move(*kk)); })) e.reset(new Prg(std::move(*x))); }
        return e.get();
    }
};
void hashes(const std::string& in, unsigned w, size_t n, bool bad)
{
    std::string want = ref::blake2b(in), out(80, '\x33');
    n %= 65;
    if (bad) {
        size_t too = 65 + w % 200;
        out.assign(400, '\x33');
        std::string s = "untouched";
        switch ((w >> 3) % 6) {
        case 0: refused("Hash of a null input", [&] { Hash::hash(nullptr, in.size(), U(out)); }); break;
        case 1: refused("Hash into a null output", [&] { Hash::hash(U(in), in.size(), nullptr); }); break;
        case 2: refused("Hash of a null input", [&] { Hash::hash(nullptr, in.size(), n, U(out)); }); break;
        case 3: refused("Hash into a null output", [&] { Hash::hash(U(in), in.size(), n, nullptr); }); break;
        case 4: refused("Hash with a too long output", [&] { Hash::hash(U(in), in.size(), too, U(out)); }); break;
        case 5: refused("Hash with a too long output", [&] { Hash::hash(in, too, s); }); break;
        }
        EQ(out, std::string(400, '\x33'), "output of a refused Hash");
        return;
    }
    switch (w % 6) {
    case 0: if (ok("Hash::hash(buffer)", [&] { Hash::hash(U(in), in.size(), U(out)); })) { EQ(out.substr(0, 64), want, "Hash::hash(buffer)"); EQ(out.substr(64), std::string(16, '\x33'), "bytes after the hash"); } break;
    case 1: if (ok("Hash::hash(buffer, length)", [&] { Hash::hash(U(in), in.size(), n, U(out)); })) { EQ(out.substr(0, n), want.substr(0, n), "Hash::hash(buffer, length)"); EQ(out.substr(n), std::string(80 - n, '\x33'), "bytes after the hash"); } break;
    case 2: { std::string x = w & 64 ? in : out; if (ok("Hash::hash(string, string)", [&] { Hash::hash(w & 64 ? x : in, x); })) EQ(x, want, "Hash::hash(string, string)"); break; }
    case 3: { std::string x = w & 64 ? in : out; if (ok("Hash::hash(string, length, string)", [&] { Hash::hash(w & 64 ? x : in, n, x); })) EQ(x, want.substr(0, n), "Hash::hash(string, length, string)"); break; }
    case 4: if (ok("Hash::hash(string)", [&] { out = Hash::hash(in); })) EQ(out, want, "Hash::hash(string)"); break;
    case 5: if (ok("Hash::hash(string, length)", [&] { out = Hash::hash(in, n); })) EQ(out, want.substr(0, n), "Hash::hash(string, length)"); break;
    }
}
void prg_member(const Prg& o, const std::string& key, unsigned w, uint64_t off, size_t len)
{
    std::string out;
    switch (w % 5) {
    case 0: if (ok("Prg::derive(len, string)", [&] { o.derive(len, out); })) EQ(out, ref::prg(key, 0, len), "Prg::derive(len, string)"); break;
    case 1: if (ok("Prg::derive(len)", [&] { out = o.derive(len); })) EQ(out, ref::prg(key, 0, len), "Prg::derive(len)"); break;
    case 2: out = "old"; if (ok("Prg::derive(offset, len, string)", [&] { o.derive(off, len, out); })) SIM_CHECK(out == ref::prg(key, off, len), "wrong-value", "Prg::derive(offset %llu, len %zu, string) is not that part of the stream: %s, expected %s", (ull)off, len, hex(out).c_str(), hex(ref::prg(key, off, len)).c_str()); break;
    case 3: if (ok("Prg::derive(offset, len)", [&] { out = o.derive(off, len); })) SIM_CHECK(out == ref::prg(key, off, len), "wrong-value", "Prg::derive(offset %llu, len %zu) is not that part of the stream: %s, expected %s", (ull)off, len, hex(out).c_str(), hex(ref::prg(key, off, len)).c_str()); break;
    case 4:
        out.assign(len + 16, '\x22');
        if (ok("Prg::derive(buffer)", [&] { o.derive(off, len, U(out)); })) SIM_CHECK(out == ref::prg(key, off, len) + std::string(16, '\x22'), "wrong-value", "Prg::derive(offset %llu, len %zu, buffer) is not that part of the stream: %s, expected %s", (ull)off, len, hex(out).c_str(), hex(ref::prg(key, off, len)).c_str());
        break;
    }
}
void prg_consuming(const std::string& key, unsigned w, uint64_t off, size_t len)
{
    std::string   out;
    Slot<Key<32>> k;
    k.emplace(mk<32>(key));
    switch (w % 6) {
    case 0: if (ok("Prg::derive(key, len, string)", [&] { Prg::derive(std::move(*k), len, out); })) EQ(out, ref::prg(key, 0, len), "Prg::derive(key, len, string)"); break;
    case 1: if (ok("Prg::derive(key, len)", [&] { out = Prg::derive(std::move(*k), len); })) EQ(out, ref::prg(key, 0, len), "Prg::derive(key, len)"); break;
    case 2: if (ok("Prg::derive(key, offset, len, string)", [&] { Prg::derive(std::move(*k), off, len, out); })) SIM_CHECK(out == ref::prg(key, off, len), "wrong-value", "Prg::derive(key, offset %llu, len %zu, string) is not that part of the stream", (ull)off, len); break;
    case 3: if (ok("Prg::derive(key, offset, len)", [&] { out = Prg::derive(std::move(*k), off, len); })) SIM_CHECK(out == ref::prg(key, off, len), "wrong-value", "Prg::derive(key, offset %llu, len %zu) is not that part of the stream", (ull)off, len); break;
    case 4:
        out.assign(len + 16, '\x22');
        if (ok("Prg::derive(key, buffer)", [&] { Prg::derive(std::move(*k), off, len, U(out)); })) SIM_CHECK(out == ref::prg(key, off, len) + std::string(16, '\x22'), "wrong-value", "Prg::derive(key, offset %llu, len %zu, buffer) is not that part of the stream", (ull)off, len);
        break;
    case 5:
        KSizes::with(w >> 3, [&](auto S) {
            std::array<uint8_t, decltype(S)::value> a;
            if (ok("Prg::derive(key, array)", [&] { Prg::derive(std::move(*k), off, a); })) SIM_CHECK(str(a) == ref::prg(key, off, a.size()), "wrong-value", "Prg::derive(key, offset %llu, array of %zu) is not that part of the stream", (ull)off, a.size());
        });
        break;
    }
}
void prg_key(Prg* o, const std::string& key, unsigned w, uint16_t off, uint16_t n)
{
    KSizes::with(w >> 4, [&](auto S) {
        constexpr size_t K = decltype(S)::value;
        Slot<Key<32>>    k;
        k.emplace(mk<32>(key));
        if (n == 0xffff) {
            Slot<Key<K>> d;
            bool good = o ? ok("Prg::derive_key", [&] { d.emplace(o->derive_key<K>(off)); }) : ok("Prg::derive_key(key)", [&] { d.emplace(Prg::derive_key<K>(std::move(*k), off)); });
            if (good) SIM_CHECK(bytes<K>(*d) == ref::prg(key, uint64_t(off) * K, K), "wrong-value", "key number %u of %zu bytes derived by a Prg is not that slice of the stream", off, K);
            return;
        }
        std::vector<Key<K>> v;
        bool good = o ? ok("Prg::derive_keys", [&] { if (off == 0 && (w & 8)) v = o->derive_keys<K>(n); else v = o->derive_keys<K>(n, off); })
                      : ok("Prg::derive_keys(key)", [&] { if (off == 0 && (w & 8)) v = Prg::derive_keys<K>(std::move(*k), n); else v = Prg::derive_keys<K>(std::move(*k), n, off); });
        if (!good) return;
        SIM_CHECK(v.size() == n, "wrong-value", "%zu keys were derived instead of %u", v.size(), n);
        std::string want = ref::prg(key, uint64_t(off) * K, size_t(n) * K);
        for (size_t i = 0; i < n; i++) SIM_CHECK(bytes<K>(v[i]) == want.substr(i * K, K), "wrong-value", "key number %zu of %u keys of %zu bytes derived from number %u on is not that slice of the stream", i, n, K, off);
    });
}
// outputs beyond what one counter byte can number: no two blocks are equal, and overloads agree
template<uint16_t N> void big(const std::string& key, const std::string& in)
{
    Prf<N>      a(mk<32>(key)), b(mk<32>(key));
    std::string x, y;
    if (!ok("Prf::prf (large)", [&] { auto v = a.prf(in); Unlib u; x = str(v); }) || !ok("Prf::prf (large)", [&] { auto v = b.prf(U(in), in.size()); Unlib u; y = str(v); })) return;
    EQ(x, y, "two evaluations of a large Prf");
    std::set<std::string> s;
    for (size_t i = 0; i + 64 <= N; i += 64) SIM_CHECK(s.insert(x.substr(i, 64)).second, "repeating-output", "the %u-byte Prf output repeats at byte %zu", unsigned(N), i);
}
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w(plan);
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op  = plan.ops[i];
        unsigned  k   = unsigned(op.a[1] % kKeys);
        size_t    len = size_t(op.a[3]);
        begin_op(i);
        switch (op.code) {
        case PRF: if (auto* p = w.get_prf(op.a[0], k)) p->eval(unsigned(op.a[4]), w.key(k), input(plan, op.a[2], len)); break;
        case HMAC: if (auto* h = w.get_hmac(op.a[0], k)) h->eval(unsigned(op.a[4]), input(plan, op.a[2], len), size_t(op.a[5]), false); break;
        case HASH: hashes(input(plan, op.a[2], len), unsigned(op.a[4]), size_t(op.a[5]), false); break;
        case PRGM: if (auto* p = w.get_prg(k)) prg_member(*p, w.key(k), unsigned(op.a[4]), op.a[2], len); break;
        case PRGS: prg_consuming(w.key(k), unsigned(op.a[4]), op.a[2], len); break;
        case PKEY: prg_key(op.a[0] & 1 ? w.get_prg(k) : nullptr, w.key(k), unsigned(op.a[4]), uint16_t(op.a[2]), 0xffff); break;
        case PKEYS: prg_key(op.a[0] & 1 ? w.get_prg(k) : nullptr, w.key(k), unsigned(op.a[4]), uint16_t(op.a[2]), uint16_t(op.a[3] % 400)); break;
        case BAD: {
            std::string in = input(plan, op.a[2], 1 + len % 500);
            event("refused-call");
            switch (op.a[0] % 4) {
            case 0: if (auto* h = w.get_hmac(op.a[0] >> 2, k)) h->eval(unsigned(op.a[4]), in, size_t(op.a[5]), true); break;
            case 1: hashes(in, unsigned(op.a[4]), size_t(op.a[5]), true); break;
            case 2: if (auto* p = w.get_prf(op.a[0] >> 2, k)) p->bad(unsigned(op.a[4]), in); break;
            case 3: if (auto* p = w.get_prg(k)) refused("Prg::derive into a null buffer", [&] { p->derive(op.a[2], 1 + len, static_cast<unsigned char*>(nullptr)); }); break;
            }
            break;
        }
        case MOVE:
            event("move");
            if (op.a[0] % 3 == 0) for (auto& e : w.prf) { if (e.second) e.second = e.second->moved(op.a[2] & 1); }
            if (op.a[0] % 3 == 1) for (auto& e : w.hmac) { if (e.second) e.second = e.second->moved(op.a[2] & 1); }
            if (op.a[0] % 3 == 2) for (auto& e : w.prg) { if (e.second) e.second.reset(new Prg(std::move(*e.second))); }
            break;
        case RESTART: event("crash-restart"); w.prf.clear(); w.hmac.clear(); w.prg.clear(); w.w.reset(new Wrapper(mk<32>(rnd(plan.data_seed, 32)))); break;
        case STORE: {
            World::D d;
            d.key = k;
            if (op.a[0] & 1) { d.kind = 1000; auto* p = w.get_prg(k); if (!p || !ok("wrap", [&] { d.b = w.w->wrap(*p); })) break; }
            else { auto* p = w.get_prf(op.a[2], k); if (!p || !ok("wrap", [&] { d.b = p->wrap(*w.w); })) break; d.kind = p->kind; }
            w.disk.push_back(std::move(d));
            if (w.disk.size() > 6) w.disk.erase(w.disk.begin());
            break;
        }
        case LOAD: {
            if (w.disk.empty()) break;
            auto&                d = w.disk[op.a[0] % w.disk.size()];
            std::vector<uint8_t> b = d.b;
            if (d.kind == 1000) {
                Slot<Prg> x;
                if (ok("unwrap", [&] { x.emplace(w.w->unwrap<Prg>(b)); })) w.prg[d.key].reset(new Prg(std::move(*x)));
            } else PSizes::with(d.kind, [&](auto S) {
                constexpr uint16_t N = decltype(S)::value;
                Slot<Prf<N>>       x;
                if (ok("unwrap", [&] { x.emplace(w.w->unwrap<Prf<N>>(b)); })) { w.prf[{d.kind, d.key}].reset(new PrfI<N>(std::move(*x))); w.prf[{d.kind, d.key}]->kind = d.kind; }
            });
            break;
        }
        case BIG: probe("large-output"); if (op.a[0] % 2) big<16448>(w.key(k), input(plan, op.a[2], len % 100)); else big<65535>(w.key(k), input(plan, op.a[2], len % 100)); break;
        }
        end_op();
        state_seen(mix(mix(op.code, w.prf.size()), mix(w.hmac.size(), w.disk.size())));
        note_u64(mix(op.a[2], mix(op.a[3], op.a[4])));
    }
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 4 + unsigned(r.below(22));
    size_t   favp = r.below(PSizes::count), favl = c.length(r, 400);
    uint64_t favo = c.value(r);
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {PRF, PRF, PRF, PRF, HMAC, HMAC, HMAC, HASH, HASH, PRGM, PRGM, PRGM, PRGM, PRGS, PRGS, PRGS, PKEY, PKEY, PKEYS, PKEYS, BAD, BAD, MOVE, RESTART, STORE, LOAD};
        o.code = tab[r.below(sizeof tab)];
        if (r.chance(1, 400)) o.code = BIG;
        for (auto& a : o.a) a = r.u64();
        o.a[0] = r.below(64);
        o.a[1] = r.below(kKeys);
        o.a[4] = r.below(1 << 12);
        o.a[5] = c.length(r, 64);
        o.a[3] = r.chance(1, 1500) ? (1ULL << (18 + r.below(5))) + r.below(1ULL << 18) - 5 : r.chance(1, 60) ? r.below(200000) : r.chance(1, 3) ? favl + r.below(3) : c.length(r, 8200);
        switch (o.code) {
        case PRF: if (r.chance(1, 2)) o.a[0] = favp; if (o.a[4] % 6 % 3 == 2) { static const size_t l[] = {1, 16, 20, 32, 40, 64, 127, 128, 129, 200}; o.a[3] = l[r.below(10)]; } break;
        case PRGM: case PRGS: // offsets near each other, near boundaries, anywhere
            o.a[2] = r.chance(1, 3) ? favo + r.below(130) - 64 : r.chance(1, 2) ? c.length(r, 8200) : c.value(r);
            break;
        case PKEY: case PKEYS:
            o.a[2] = r.chance(1, 2) ? r.below(5) : r.chance(1, 2) ? r.below(70) : r.chance(1, 2) ? c.value(r) % 65536 : 65535 - r.below(4);
            o.a[3] = r.chance(3, 4) ? r.below(6) : r.chance(9, 10) ? r.below(40) : r.below(400);
            break;
        default: break;
        }
        p.ops.push_back(o);
    }
}
Scenario S{"C12", {"prf", "hmac", "hash", "prg", "prg-consume", "derive-key", "derive-keys", "refused-call", "move", "crash-restart", "store", "load", "large-prf"}, obj::setup, gen, run, 300};
} // namespace
Scenario* sim::g_scenario = &S;
