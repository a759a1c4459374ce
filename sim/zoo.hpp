// A population of objects of every class, on which one library call at a time is made, including the
// calls that must be refused; every result is compared with the reference.
#pragma once
#include "objects.hpp"
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/random.hpp>
#include <sse/crypto/set_hash.hpp>
#include <sodium.h>
#include <sstream>
#include "hash/sha512.hpp"

namespace zoo {
using obj::ok;
using obj::refused;

struct Obj
{
    std::string key;
    const char* name{"?"};
    bool        keyed{true};
    virtual ~Obj() {}
    virtual void                 act(unsigned which, uint64_t s) = 0; // one library call
    virtual void                 touch(const Wrapper& w)         = 0; // correct calls using every key of the object
    virtual std::unique_ptr<Obj> moved()                         = 0;
};
// objects created by calls on other objects
inline thread_local std::vector<std::unique_ptr<Obj>> g_spawn;
// tells the check about a derived key about to be computed
inline void (*g_expect_key)(const std::string&) = nullptr;
inline void expect_key(const std::string& k) { if (g_expect_key) g_expect_key(k); }
inline bool g_want_tdp = false;

template<size_t N> void check_key(Key<N>&& k, const std::string& want, const char* what)
{
    Key<N> mine(std::move(k));
    if constexpr (N >= 16 && N <= 128) {
        HMac<Hash, N> h(std::move(mine));
        std::string   got = str(h.hmac(std::string("probe")));
        EQ(got, ref::hmac_blake2b(want, "probe"), what);
    }
}

template<class H, uint16_t N> struct HMacObj : Obj
{
    HMac<H, N> o;
    HMacObj(HMac<H, N>&& x) : o(std::move(x)) { name = "HMac"; }
    std::string want(const std::string& m)
    {
        if (std::is_same<H, Hash>::value) return ref::hmac_blake2b(key, m);
        return ref::hmac_sha512(key, m);
    }
    void act(unsigned w, uint64_t s) override
    {
        std::string in = bytes_of(s, span(s >> 7, 300)), out(64, '\x11');
        size_t      n  = (s >> 20) % 65;
        switch (w % 9) {
        case 0: case 1:
            if (ok("HMac::hmac(buffer)", [&] { o.hmac(U(in), in.size(), U(out), n); })) { EQ(out.substr(0, n), want(in).substr(0, n), "HMac::hmac(buffer)"); EQ(out.substr(n), std::string(64 - n, '\x11'), "bytes after the HMac output"); }
            break;
        case 2: case 3:
            if (ok("HMac::hmac(array)", [&] { auto a = o.hmac(U(in), in.size()); Unlib u; out = str(a); })) EQ(out, want(in), "HMac::hmac(array)");
            break;
        case 4: case 5:
            if (ok("HMac::hmac(string)", [&] { auto a = o.hmac(in); Unlib u; out = str(a); })) EQ(out, want(in), "HMac::hmac(string)");
            break;
        case 6: refused("HMac with a null input", [&] { o.hmac(nullptr, in.size(), U(out), n); }); EQ(out, std::string(64, '\x11'), "output of a refused HMac"); break;
        case 7: refused("HMac with a null output", [&] { o.hmac(U(in), in.size(), nullptr, n); }); break;
        case 8: out.resize(200, '\x11'); refused("HMac with a too long output", [&] { o.hmac(U(in), in.size(), U(out), 65 + (s >> 40) % 100); }); EQ(out.substr(64), std::string(136, '\x11'), "output of a refused HMac"); break;
        }
    }
    void touch(const Wrapper&) override { act(4, 77); }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<Obj> n(new HMacObj(std::move(o))); n->key = key; return n; }
};
template<uint16_t N> struct PrfObj : Obj
{
    Prf<N> o;
    PrfObj(Prf<N>&& x) : o(std::move(x)) { name = "Prf"; }
    void act(unsigned w, uint64_t s) override
    {
        std::string            in = bytes_of(s, span(s >> 7, 300)), out;
        std::array<uint8_t, 40> arr;
        memcpy(arr.data(), rnd(s, 40).data(), 40);
        Slot<Key<N>> k;
        switch (w % 10) {
        case 0: if (ok("Prf::prf(buffer)", [&] { auto a = o.prf(U(in), in.size()); Unlib u; out = str(a); })) EQ(out, ref::prf(key, N, in), "Prf::prf(buffer)"); break;
        case 1: case 2: if (ok("Prf::prf(string)", [&] { auto a = o.prf(in); Unlib u; out = str(a); })) EQ(out, ref::prf(key, N, in), "Prf::prf(string)"); break;
        case 3: if (ok("Prf::prf(array)", [&] { auto a = o.prf(arr); Unlib u; out = str(a); })) EQ(out, ref::prf(key, N, str(arr)), "Prf::prf(array)"); break;
        case 4: case 5: expect_key(ref::prf(key, N, in)); if (ok("Prf::derive_key(buffer)", [&] { k.emplace(o.derive_key(U(in), in.size())); })) check_key(std::move(*k), ref::prf(key, N, in), "Prf::derive_key(buffer)"); break;
        case 6: expect_key(ref::prf(key, N, in)); if (ok("Prf::derive_key(string)", [&] { k.emplace(o.derive_key(in)); })) check_key(std::move(*k), ref::prf(key, N, in), "Prf::derive_key(string)"); break;
        case 7: expect_key(ref::prf(key, N, str(arr))); if (ok("Prf::derive_key(array)", [&] { k.emplace(o.derive_key(arr)); })) check_key(std::move(*k), ref::prf(key, N, str(arr)), "Prf::derive_key(array)"); break;
        case 8: refused("Prf with a null input", [&] { o.prf(nullptr, 1 + in.size()); }); break;
        case 9: refused("Prf::derive_key with a null input", [&] { o.derive_key(nullptr, 1 + in.size()); }); break;
        }
    }
    void touch(const Wrapper&) override { act(1, 77); }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<Obj> n(new PrfObj(std::move(o))); n->key = key; return n; }
};
template<size_t N> void check_keys(std::vector<Key<N>>& v, const std::string& key, uint64_t off, size_t n, const char* what)
{
    SIM_CHECK(v.size() == n, "wrong-value", "%s returned %zu keys instead of %zu", what, v.size(), n);
    for (size_t i = 0; i < n; i++) check_key(std::move(v[i]), ref::prg(key, (off + i) * N, N), what);
}
struct PrgObj : Obj
{
    Prg o;
    PrgObj(Prg&& x) : o(std::move(x)) { name = "Prg"; }
    void act(unsigned w, uint64_t s) override
    {
        size_t      off = span(s >> 7, 400), len = span(s >> 17, 300);
        uint16_t    ko = uint16_t((s >> 30) % 40), n = uint16_t((s >> 44) % 12 ? (s >> 40) % 6 : (s >> 48) % 90);
        std::string out;
        switch (w % 12) {
        case 0: if (ok("Prg::derive(len, string)", [&] { o.derive(len, out); })) EQ(out, ref::prg(key, 0, len), "Prg::derive(len, string)"); break;
        case 1: if (ok("Prg::derive(offset, len, string)", [&] { o.derive(off, len, out); })) EQ(out, ref::prg(key, off, len), "Prg::derive(offset, len, string)"); break;
        case 2: if (ok("Prg::derive(len)", [&] { out = o.derive(len); })) EQ(out, ref::prg(key, 0, len), "Prg::derive(len)"); break;
        case 3: if (ok("Prg::derive(offset, len)", [&] { out = o.derive(off, len); })) EQ(out, ref::prg(key, off, len), "Prg::derive(offset, len)"); break;
        case 4: out.assign(len + 1, '\x22'); if (ok("Prg::derive(buffer)", [&] { o.derive(off, len, U(out)); })) { EQ(out.substr(len), std::string(1, '\x22'), "byte after the Prg output"); out.resize(len); EQ(out, ref::prg(key, off, len), "Prg::derive(buffer)"); } break;
        case 5: if (ok("Prg::derive of nothing", [&] { unsigned char x = 9; o.derive(off, 0, &x); Unlib u; SIM_CHECK(x == 9, "wrong-value", "deriving nothing wrote a byte"); })) {} break;
        case 6: refused("Prg::derive into a null buffer", [&] { o.derive(off, len + 1, static_cast<unsigned char*>(nullptr)); }); break;
        case 7: { Slot<Key<32>> k; expect_key(ref::prg(key, ko * 32, 32)); if (ok("Prg::derive_key<32>", [&] { k.emplace(o.derive_key<32>(ko)); })) check_key(std::move(*k), ref::prg(key, ko * 32, 32), "Prg::derive_key<32>"); break; }
        case 8: { Slot<Key<16>> k; expect_key(ref::prg(key, ko * 16, 16)); if (ok("Prg::derive_key<16>", [&] { k.emplace(o.derive_key<16>(ko)); })) check_key(std::move(*k), ref::prg(key, ko * 16, 16), "Prg::derive_key<16>"); break; }
        case 9: { std::vector<Key<32>> v; for (unsigned i = 0; i < n; i++) expect_key(ref::prg(key, (ko + i) * 32, 32)); if (ok("Prg::derive_keys<32>", [&] { v = o.derive_keys<32>(n, ko); })) check_keys(v, key, ko, n, "Prg::derive_keys<32>"); break; }
        case 10: { std::vector<Key<48>> v; for (unsigned i = 0; i < n; i++) expect_key(ref::prg(key, (ko + i) * 48, 48)); if (ok("Prg::derive_keys<48>", [&] { v = o.derive_keys<48>(n, ko); })) check_keys(v, key, ko, n, "Prg::derive_keys<48>"); break; }
        case 11: { Slot<Key<100>> k; expect_key(ref::prg(key, ko * 100, 100)); if (ok("Prg::derive_key<100>", [&] { k.emplace(o.derive_key<100>(ko)); })) check_key(std::move(*k), ref::prg(key, ko * 100, 100), "Prg::derive_key<100>"); break; }
        }
    }
    void touch(const Wrapper&) override { act(3, 77ULL << 17 | 77); }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<Obj> n(new PrgObj(std::move(o))); n->key = key; return n; }
};
// derivations which consume a temporary key
inline void prg_static(unsigned w, uint64_t s, const std::string& key)
{
    size_t      off = span(s >> 7, 400), len = span(s >> 17, 300);
    uint16_t    ko = uint16_t((s >> 30) % 40), n = uint16_t((s >> 44) % 12 ? (s >> 40) % 6 : (s >> 48) % 90);
    std::string out;
    Slot<Key<32>> k;
    k.emplace(mk<32>(key));
    switch (w % 11) {
    case 0: if (ok("Prg::derive(key, len, string)", [&] { Prg::derive(std::move(*k), 1 + len, out); })) EQ(out, ref::prg(key, 0, 1 + len), "Prg::derive(key, len, string)"); break;
    case 1: if (ok("Prg::derive(key, offset, len, string)", [&] { Prg::derive(std::move(*k), off, 1 + len, out); })) EQ(out, ref::prg(key, off, 1 + len), "Prg::derive(key, offset, len, string)"); break;
    case 2: if (ok("Prg::derive(key, len)", [&] { out = Prg::derive(std::move(*k), 1 + len); })) EQ(out, ref::prg(key, 0, 1 + len), "Prg::derive(key, len)"); break;
    case 3: if (ok("Prg::derive(key, offset, len)", [&] { out = Prg::derive(std::move(*k), off, 1 + len); })) EQ(out, ref::prg(key, off, 1 + len), "Prg::derive(key, offset, len)"); break;
    case 4: out.assign(len + 2, '\x22'); if (ok("Prg::derive(key, buffer)", [&] { Prg::derive(std::move(*k), off, len + 1, U(out)); })) { EQ(out.substr(len + 1), std::string(1, '\x22'), "byte after the Prg output"); out.resize(len + 1); EQ(out, ref::prg(key, off, len + 1), "Prg::derive(key, buffer)"); } break;
    case 5: { std::array<uint8_t, 100> a; if (ok("Prg::derive(key, array)", [&] { Prg::derive(std::move(*k), off, a); })) EQ(str(a), ref::prg(key, off, 100), "Prg::derive(key, array)"); break; }
    case 6: refused("Prg::derive of a key into a null buffer", [&] { Prg::derive(std::move(*k), off, len + 1, static_cast<unsigned char*>(nullptr)); }); break;
    case 7: { Slot<Key<32>> d; expect_key(ref::prg(key, ko * 32, 32)); if (ok("Prg::derive_key<32>(key)", [&] { d.emplace(Prg::derive_key<32>(std::move(*k), ko)); })) check_key(std::move(*d), ref::prg(key, ko * 32, 32), "Prg::derive_key<32>(key)"); break; }
    case 8: { Slot<Key<16>> d; expect_key(ref::prg(key, ko * 16, 16)); if (ok("Prg::derive_key<16>(key)", [&] { d.emplace(Prg::derive_key<16>(std::move(*k), ko)); })) check_key(std::move(*d), ref::prg(key, ko * 16, 16), "Prg::derive_key<16>(key)"); break; }
    case 9: { std::vector<Key<32>> v; for (unsigned i = 0; i <= n; i++) expect_key(ref::prg(key, (ko + i) * 32, 32)); if (ok("Prg::derive_keys<32>(key)", [&] { v = Prg::derive_keys<32>(std::move(*k), n + 1, ko); })) check_keys(v, key, ko, n + 1, "Prg::derive_keys<32>(key)"); break; }
    case 10: { std::vector<Key<16>> v; for (unsigned i = 0; i <= n; i++) expect_key(ref::prg(key, (ko + i) * 16, 16)); if (ok("Prg::derive_keys<16>(key)", [&] { v = Prg::derive_keys<16>(std::move(*k), n + 1, ko); })) check_keys(v, key, ko, n + 1, "Prg::derive_keys<16>(key)"); break; }
    }
}
struct PrpObj : Obj
{
    Prp o;
    PrpObj(Prp&& x) : o(std::move(x)) { name = "Prp"; }
    void act(unsigned w, uint64_t s) override
    {
        bool        e = w & 1;
        std::string in = bytes_of(s, 1 + span(s >> 7, 200)), out;
        std::string want = ref::aez(key, in, e);
        switch ((w / 2) % 5) {
        case 0: if (ok("Prp(string, string)", [&] { if (e) o.encrypt(in, out); else o.decrypt(in, out); })) EQ(out, want, "Prp(string, string)"); break;
        case 1: if (ok("Prp(string)", [&] { out = e ? o.encrypt(in) : o.decrypt(in); })) EQ(out, want, "Prp(string)"); break;
        case 2: out.assign(in.size() + 1, '\x22'); if (ok("Prp(buffer)", [&] { if (e) o.encrypt(U(in), unsigned(in.size()), U(out)); else o.decrypt(U(in), unsigned(in.size()), U(out)); })) { EQ(out.substr(in.size()), std::string(1, '\x22'), "byte after the Prp output"); out.resize(in.size()); EQ(out, want, "Prp(buffer)"); } break;
        case 3: { uint32_t x = uint32_t(s >> 8), y = 0; if (ok("Prp(uint32)", [&] { y = e ? o.encrypt(x) : o.decrypt(x); })) EQ(std::string((char*)&y, 4), ref::aez(key, std::string((char*)&x, 4), e), "Prp(uint32)"); break; }
        case 4: { uint64_t x = mix(s, 8), y = 0; if (ok("Prp(uint64)", [&] { y = e ? o.encrypt_64(x) : o.decrypt_64(x); })) EQ(std::string((char*)&y, 8), ref::aez(key, std::string((char*)&x, 8), e), "Prp(uint64)"); break; }
        }
    }
    void touch(const Wrapper&) override { act(3, 77); act(2, 77); }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<Obj> n(new PrpObj(std::move(o))); n->key = key; return n; }
};
struct CipherObj : Obj
{
    Cipher o;
    CipherObj(Cipher&& x) : o(std::move(x)) { name = "Cipher"; }
    void opened(const std::string& ct, const std::string& msg)
    {
        std::string back;
        SIM_CHECK(ct.size() == msg.size() + 32 && ref::cipher_decrypt(key, ct, back) && back == msg, "wrong-value", "Cipher::encrypt did not produce a ciphertext of its message");
    }
    void act(unsigned w, uint64_t s) override
    {
        std::string msg = bytes_of(s, 1 + span(s >> 7, 300)), ct, pt;
        std::array<uint8_t, 33> a;
        std::array<uint8_t, 65> b;
        memcpy(a.data(), rnd(s, 33).data(), 33);
        expect_key(ref::subkey(key, w % 9 < 2 || w % 9 == 3 ? rng_peek(16) : rnd(s, 16)));
        switch (w % 9) {
        case 0: case 1: if (ok("Cipher::encrypt(string)", [&] { o.encrypt(msg, ct); })) opened(ct, msg); break;
        case 2: ct = ref::cipher_encrypt(key, rnd(s, 16), msg); if (ok("Cipher::decrypt(string)", [&] { o.decrypt(ct, pt); })) EQ(pt, msg, "Cipher::decrypt(string)"); break;
        case 3: if (ok("Cipher::encrypt(array)", [&] { o.encrypt(a, b); })) opened(str(b), str(a)); break;
        case 4: ct = ref::cipher_encrypt(key, rnd(s, 16), str(a)); memcpy(b.data(), ct.data(), 65); a.fill(0); if (ok("Cipher::decrypt(array)", [&] { o.decrypt(b, a); })) EQ(str(a), rnd(s, 33), "Cipher::decrypt(array)"); break;
        case 5: refused("encryption of an empty message", [&] { o.encrypt(std::string(), ct); }); break;
        case 6: ct = rnd(s, (s >> 9) % 33); refused("a too short ciphertext", [&] { o.decrypt(ct, pt); }); SIM_CHECK(pt.empty(), "wrong-value", "a refused decryption produced output"); break;
        case 7: ct = ref::cipher_encrypt(key, rnd(s, 16), msg); ct[(s >> 16) % ct.size()] ^= char(1 + (s >> 40) % 255); refused("a damaged ciphertext", [&] { o.decrypt(ct, pt); }); SIM_CHECK(pt.empty(), "wrong-value", "a refused decryption produced output"); break;
        case 8: ct = ref::cipher_encrypt(key, rnd(s, 16), str(a)); ct[(s >> 16) % ct.size()] ^= char(1 + (s >> 40) % 255); memcpy(b.data(), ct.data(), 65); refused("a damaged ciphertext array", [&] { o.decrypt(b, a); }); break;
        }
    }
    void touch(const Wrapper&) override { act(0, 77); act(2, 77); }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<Obj> n(new CipherObj(std::move(o))); n->key = key; return n; }
};
template<class P, size_t N> struct RcObj : Obj
{
    P          o;
    obj::Model m;
    static constexpr bool master = std::is_same<P, RCPrf<N>>::value;
    RcObj(P&& x) : o(std::move(x)) { name = master ? "RCPrf" : "ConstrainedRCPrf"; }
    struct Stop {};
    void nodes(std::initializer_list<uint64_t> leaves)
    {
        if (g_expect_key)
            for (uint64_t l : leaves)
                for (auto& k : ref::rcprf_path(key, m.height, l)) expect_key(k);
    }
    void act(unsigned w, uint64_t s) override
    {
        uint64_t    leaf = obj::leaf_in(s, m.min, m.max);
        std::string out;
        if (w % 10 < 5) nodes({leaf});
        switch (w % 10) {
        case 0: case 1:
            if (ok("range-constrained eval", [&] { auto a = o.eval(leaf); Unlib u; out = str(a); })) EQ(out, ref::rcprf(key, m.height, leaf, N), "range-constrained eval");
            break;
        case 2: case 3: {
            uint64_t a = leaf, b = m.max - a > 6 ? a + (s >> 40) % 7 : m.max;
            std::vector<std::pair<uint64_t, std::string>> got;
            bool good = ok("eval_range", [&] {
                o.eval_range(a, b, [&](uint64_t l, const auto& v) {
                    Unlib u;
                    got.emplace_back(l, str(v));
                    SIM_CHECK(got.size() - 1 <= b - a, "wrong-value", "range enumeration delivers more leaves than were asked for");
                });
            });
            for (size_t i = 0; i < got.size(); i++) {
                SIM_CHECK(got[i].first == a + i && got[i].first <= b, "wrong-value", "range enumeration delivered leaf %llu, expected %llu", (unsigned long long)got[i].first, (unsigned long long)(a + i));
                EQ(got[i].second, ref::rcprf(key, m.height, got[i].first, N), "eval_range");
            }
            if (good) SIM_CHECK(got.size() == b - a + 1, "wrong-value", "range enumeration delivered %zu leaves", got.size());
            break;
        }
        case 4: { // the caller's callback gives up in the middle
            uint64_t a = leaf, b = m.max - a > 6 ? a + (s >> 40) % 7 : m.max, next = a, stop = a + (s >> 50) % (b - a + 1);
            Result r = call([&] { o.eval_range(a, b, [&](uint64_t, const auto&) { if (next == stop) throw std::domain_error("caller stops"); next++; }); });
            SIM_CHECK(r.threw, "wrong-value", "the exception of the caller's callback was swallowed");
            if (obj::g_after) obj::g_after();
            event("callback-throws");
            break;
        }
        case 5: if (m.max < ~0ULL) refused("a leaf after the range", [&] { o.eval(m.max + 1); }); break;
        case 6: if (m.min > 0) refused("a leaf before the range", [&] { o.eval(m.min - 1); }); break;
        case 7: if (m.max > m.min) refused("an inverted range", [&] { o.eval_range(m.max, m.min, [](uint64_t, const auto&) {}); }); break;
        case 8: if (m.max > m.min) refused("an inverted restriction", [&] { o.constrain(m.max, m.min); }); break;
        case 9: {
            uint64_t lo = leaf, hi = obj::leaf_in(s >> 5, lo, m.max);
            if (master && lo == 0 && hi == m.max) break;
            nodes({lo, hi, lo + (hi - lo) / 2});
            Slot<ConstrainedRCPrf<N>> c;
            if (ok("constrain", [&] { c.emplace(o.constrain(lo, hi)); })) {
                auto* n = new RcObj<ConstrainedRCPrf<N>, N>(std::move(*c));
                n->key = key;
                n->m   = m;
                n->m.min = lo;
                n->m.max = hi;
                g_spawn.emplace_back(n);
            }
            break;
        }
        }
    }
    void touch(const Wrapper& w) override
    {
        if (!master) nodes({m.min, m.max});
        ok("wrap", [&] { w.wrap(o); });
        act(0, 77);
    }
    std::unique_ptr<Obj> moved() override { auto* n = new RcObj(std::move(o)); n->key = key; n->m = m; return std::unique_ptr<Obj>(n); }
};
struct WrapObj : Obj
{
    Wrapper o;
    WrapObj(Wrapper&& x) : o(std::move(x)) { name = "Wrapper"; }
    template<class T, class M> void one(uint64_t s, const char* what, const std::string& k, uint8_t type, const std::string& ctx, const std::string& ser, M&& make, unsigned mode)
    {
        if (mode == 0) { // wrapping
            T                    x = make(k);
            std::vector<uint8_t> b;
            if (ok("wrap", [&] { b = o.wrap(x); }))
                SIM_CHECK(b == bytes(ref::wrap_blob(key, type, ctx, ser, std::string(b.begin(), b.begin() + (long)std::min<size_t>(16, b.size())))), "wrong-value", "wrapping a %s gave another blob than the published format", what);
            return;
        }
        std::vector<uint8_t> b = bytes(ref::wrap_blob(key, type, ctx, ser, rnd(s, 16))), orig;
        Slot<T>     x;
        if (mode == 1) {
            if (ok("unwrap", [&] { x.emplace(o.unwrap<T>(b)); })) {
                obj::Model m;
                m.key = k; m.height = 9; m.max = 255;
                obj::use(m, *x, s);
            }
            return;
        }
        if (mode == 2) b[(s >> 11) % b.size()] ^= uint8_t(1 + (s >> 40) % 255);
        else b.resize((s >> 11) % 29);
        orig = b;
        refused("a damaged blob", [&] { x.emplace(o.unwrap<T>(b)); });
        SIM_CHECK(b == orig, "wrong-value", "a refused unwrap changed the blob");
    }
    static std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }
    void act(unsigned w, uint64_t s) override
    {
        static const unsigned modes[] = {0, 0, 1, 1, 2, 3};
        unsigned    mode = modes[w % 6];
        std::string k    = rnd(mix(s, 3), 32);
        expect_key(k);
        switch ((s >> 3) % 4) {
        case 0: one<Cipher>(s, "Cipher", k, 1, "", k, [](const std::string& q) { return Cipher(mk<32>(q)); }, mode); break;
        case 1: one<Prf<20>>(s, "Prf", k, 2, std::string("\0\x14", 2), k, [](const std::string& q) { return Prf<20>(mk<32>(q)); }, mode); break;
        case 2: one<Prg>(s, "Prg", k, 3, "", k, [](const std::string& q) { return Prg(mk<32>(q)); }, mode); break;
        case 3: one<RCPrf<16>>(s, "RCPrf", k, 5, std::string("\0\x10", 2), std::string("\x09") + k, [](const std::string& q) { return RCPrf<16>(mk<32>(q), 9); }, mode % 3 == 0 ? 0 : mode); break;
        }
    }
    void touch(const Wrapper&) override
    {
        Prg x(mk<32>(std::string(32, 'w')));
        ok("wrap", [&] { o.wrap(x); });
    }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<Obj> n(new WrapObj(std::move(o))); n->key = key; return n; }
};
struct KeyObj : Obj
{
    Key<32> o;
    KeyObj(Key<32>&& x) : o(std::move(x)) { name = "Key"; }
    void act(unsigned w, uint64_t s) override
    {
        switch (w % 3) {
        case 0: { Key<32> t(std::move(o)); o = std::move(t); break; }
        case 1: { Prg p(std::move(o)); std::string out; if (ok("Prg::derive", [&] { p.derive(0, 40, out); })) EQ(out, ref::prg(key, 0, 40), "Prg of a handed-over key"); o = mk<32>(key); break; }
        case 2: { std::string k2 = rnd(s, 32); o = mk<32>(k2); key = k2; break; }
        }
        if (obj::g_after) obj::g_after();
    }
    void touch(const Wrapper&) override {}
    std::unique_ptr<Obj> moved() override { std::unique_ptr<Obj> n(new KeyObj(std::move(o))); n->key = key; return n; }
};

// a set hash (no secret), and the keyless functions
struct SetObj : Obj
{
    SetHash     o;
    std::string want; // the state the reference computes
    SetObj() : want(32, 0) { name = "SetHash"; keyed = false; want[0] = 1; }
    static void step(std::string& st, const std::string& e, bool add)
    {
        std::string h = ref::blake2b(e).substr(0, 32), p(32, 0);
        crypto_core_ed25519_from_uniform(U(p), U(h));
        if (add) crypto_core_ed25519_add(U(st), U(st), U(p)); else crypto_core_ed25519_sub(U(st), U(st), U(p));
    }
    void same() { std::string got = str(o.data()); EQ(got, want, "SetHash state"); }
    void act(unsigned w, uint64_t s) override
    {
        std::string in = bytes_of(s, span(s >> 7, 300)), out, next = want;
        switch (w % 10) {
        case 0: step(next, in, true); if (ok("SetHash::add_element", [&] { o.add_element(in); })) want = next; break;
        case 1: step(next, in, false); if (ok("SetHash::remove_element", [&] { o.remove_element(in); })) want = next; break;
        case 2: case 3: { // a whole set
            std::vector<std::string> v;
            std::string              sub(32, 0);
            sub[0] = 1;
            for (unsigned i = 0; i < 1 + (s >> 20) % 4; i++) { v.push_back(bytes_of(mix(s, i), (s >> 7) % 80)); step(sub, v.back(), true); step(next, v.back(), w % 10 == 2); }
            Slot<SetHash> t;
            if (!ok("SetHash(vector)", [&] { t.emplace(v); })) break;
            EQ(str(t->data()), sub, "SetHash(vector)");
            if (ok("SetHash::add_set or remove_set", [&] { if (w % 10 == 2) o.add_set(*t); else o.remove_set(*t); })) want = next;
            break;
        }
        case 4: { Slot<SetHash> t; auto b = o.data(); if (ok("SetHash(bytes)", [&] { t.emplace(b); })) { bool e = false; ok("SetHash::operator==", [&] { e = *t == o && !(*t != o); }); SIM_CHECK(e, "wrong-value", "a reloaded set hash differs"); } break; }
        case 5: { std::array<uint8_t, 32> b; b.fill(0xff); refused("bytes that are no set hash", [&] { SetHash t(b); }); break; }
        case 6: if (ok("Hash::hash(string)", [&] { Hash::hash(in, out); })) EQ(out, ref::blake2b(in), "Hash::hash(string)"); break;
        case 7: { size_t n = (s >> 30) % 65; if ((s >> 40) & 1) n = 64; out.assign(64, '3'); if (ok("Hash::hash(buffer)", [&] { if (n == 64) Hash::hash(U(in), in.size(), U(out)); else Hash::hash(U(in), in.size(), n, U(out)); })) { EQ(out.substr(0, n), ref::blake2b(in).substr(0, n), "Hash::hash(buffer)"); EQ(out.substr(n), std::string(64 - n, '3'), "bytes after the hash"); } break; }
        case 8: { size_t n = 1 + (s >> 30) % 200; std::string next_ = rng_peek(n); if (ok("random_string", [&] { out = random_string(n); })) EQ(out, next_, "random_string"); break; }
        case 9: { std::ostringstream os; if (ok("SetHash printing", [&] { os << o; }) && os.good()) EQ(os.str(), hex(want), "a printed set hash"); /* a stream reports a failed allocation in its state */ break; }
        }
        same();
    }
    void touch(const Wrapper&) override { act(0, 77); }
    std::unique_ptr<Obj> moved() override { std::unique_ptr<SetObj> n(new SetObj()); n->o = std::move(o); n->want = want; return std::unique_ptr<Obj>(n.release()); }
};

enum Kind { Z_KEY, Z_HMAC32, Z_HMAC128, Z_SHA25, Z_PRF12, Z_PRF32, Z_PRF65, Z_PRF200, Z_PRG, Z_PRP, Z_CIPHER, Z_WRAPPER, Z_RC16, Z_RC40, Z_SET, Z_KINDS };

// Creates an object; the calls (key from buffer, object from key) may be faulted.
template<size_t N> bool make_key(const std::string& bytes, Slot<Key<N>>& k)
{
    std::array<uint8_t, N> buf;
    memcpy(buf.data(), bytes.data(), N);
    bool good = ok("Key(buffer)", [&] { k.emplace(buf.data()); });
    bool zero = true;
    for (uint8_t b : buf) zero &= b == 0;
    if (good) SIM_CHECK(zero, "buffer-not-erased", "a key was constructed and the caller's buffer still holds it");
    else SIM_CHECK(zero || memcmp(buf.data(), bytes.data(), N) == 0, "buffer-half-erased", "a failed key construction left part of the key in the caller's buffer");
    return good;
}
template<class T, size_t N, class F> std::unique_ptr<Obj> made(const std::string& key, F&& build)
{
    Slot<Key<N>> k;
    std::unique_ptr<Obj>  r;
    if (!make_key<N>(key, k)) return r;
    if (!ok("construction from a key", [&] { auto x = build(std::move(*k)); Unlib u; r.reset(new T(std::move(x))); })) return nullptr;
    r->key = key;
    return r;
}
template<size_t N> std::unique_ptr<Obj> made_rc(const std::string& key, uint64_t h)
{
    unsigned height = (h & 1) ? 2 + unsigned(h >> 1) % 7 : 2 + unsigned(h >> 1) % 63;
    auto     r = made<RcObj<RCPrf<N>, N>, 32>(key, [&](Key<32>&& k) { return RCPrf<N>(std::move(k), uint8_t(height)); });
    if (r) {
        auto& m = static_cast<RcObj<RCPrf<N>, N>&>(*r).m;
        m.height = height; m.min = 0; m.max = obj::last_leaf(height);
    }
    return r;
}
inline std::unique_ptr<Obj> create(unsigned kind, uint64_t seed, uint64_t h)
{
    switch (kind % Z_KINDS) {
    case Z_KEY: { Slot<Key<32>> k; std::string b = rnd(seed, 32); if (!make_key<32>(b, k)) return nullptr; std::unique_ptr<Obj> r(new KeyObj(std::move(*k))); r->key = b; return r; }
    case Z_HMAC32: return made<HMacObj<Hash, 32>, 32>(rnd(seed, 32), [](Key<32>&& k) { return HMac<Hash, 32>(std::move(k)); });
    case Z_HMAC128: return made<HMacObj<Hash, 128>, 128>(rnd(seed, 128), [](Key<128>&& k) { return HMac<Hash, 128>(std::move(k)); });
    case Z_SHA25: return made<HMacObj<hash::sha512, 25>, 25>(rnd(seed, 25), [](Key<25>&& k) { return HMac<hash::sha512, 25>(std::move(k)); });
    case Z_PRF12: return made<PrfObj<12>, 32>(rnd(seed, 32), [](Key<32>&& k) { return Prf<12>(std::move(k)); });
    case Z_PRF32: return made<PrfObj<32>, 32>(rnd(seed, 32), [](Key<32>&& k) { return Prf<32>(std::move(k)); });
    case Z_PRF65: return made<PrfObj<65>, 32>(rnd(seed, 32), [](Key<32>&& k) { return Prf<65>(std::move(k)); });
    case Z_PRF200: return made<PrfObj<200>, 32>(rnd(seed, 32), [](Key<32>&& k) { return Prf<200>(std::move(k)); });
    case Z_PRG: return made<PrgObj, 32>(rnd(seed, 32), [](Key<32>&& k) { return Prg(std::move(k)); });
    case Z_PRP: return made<PrpObj, 48>(rnd(seed, 48), [](Key<48>&& k) { return Prp(std::move(k)); });
    case Z_CIPHER: return made<CipherObj, 32>(rnd(seed, 32), [](Key<32>&& k) { return Cipher(std::move(k)); });
    case Z_WRAPPER: return made<WrapObj, 32>(rnd(seed, 32), [](Key<32>&& k) { return Wrapper(std::move(k)); });
    case Z_RC16: return made_rc<16>(rnd(seed, 32), h);
    case Z_RC40: return made_rc<40>(rnd(seed, 32), h);
    default: return std::unique_ptr<Obj>(new SetObj());
    }
}
inline std::string key_of(unsigned kind, uint64_t seed)
{
    static const size_t n[] = {32, 32, 128, 25, 32, 32, 32, 32, 32, 48, 32, 32, 32, 32, 0};
    return rnd(seed, n[kind % Z_KINDS]);
}
// objects with keys of their own choosing
inline void random_objects(uint64_t s)
{
    switch (s % 5) {
    case 0: { Slot<Key<32>> k; ok("Key()", [&] { k.emplace(); }); break; }
    case 1: { Slot<Prf<20>> k; if (ok("Prf()", [&] { k.emplace(); })) { std::string a, b; if (ok("Prf::prf", [&] { auto x = k->prf(std::string("q")); Unlib u; a = str(x); }) && ok("Prf::prf", [&] { auto x = k->prf(std::string("q")); Unlib u; b = str(x); })) EQ(a, b, "repeated Prf evaluation"); } break; }
    case 2: { Slot<HMac<Hash, 64>> k; if (ok("HMac()", [&] { k.emplace(); })) { std::string a; ok("HMac::hmac", [&] { auto x = k->hmac(std::string("q")); Unlib u; a = str(x); }); } break; }
    case 3: { Slot<Prp> k; if (ok("Prp()", [&] { k.emplace(); })) { uint64_t y = 0, z = 0; if (ok("Prp::encrypt_64", [&] { y = k->encrypt_64(s); }) && ok("Prp::decrypt_64", [&] { z = k->decrypt_64(y); })) SIM_CHECK(z == s, "wrong-value", "Prp does not undo itself"); } break; }
    case 4: { Slot<Key<100>> k; ok("Key()", [&] { k.emplace(); }); if (k) { ok("erase", [&] { k->erase(); }); } break; }
    }
}
} // namespace zoo
