// Wrappable objects together with a model of what they must compute.
#pragma once
#include "common.hpp"
#include "keys.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/tdp.hpp>
#include <sse/crypto/wrapper.hpp>
#include <exception>
// TdpInverse is movable only where its implementation type is complete
#if __has_include("tdp_impl/tdp_impl.hpp")
#include "tdp_impl/tdp_impl.hpp"
#endif

namespace obj {
enum Class { CIPHER, PRF, PRG, PRP, RCPRF, CRCPRF, TDP };

struct Model
{
    unsigned    kind{0}; // index into the kind table
    std::string key;     // key bytes (symmetric kinds)
    unsigned    height{0};
    uint64_t    min{0}, max{0};
    int         rsa{0};  // index of the key pair
};

using PrfSizes = Sizes<1, 12, 16, 20, 32, 64, 65, 128, 200, 256, 288, 400, 512, 544>;
using RcSizes  = Sizes<16, 32, 5, 40, 64, 65, 256, 272, 288, 512, 544>;
// kinds: cipher, prg, prp, tdp, then prf sizes, rcprf sizes, constrained sizes
constexpr unsigned kFixed = 4;
constexpr unsigned kPrf0 = kFixed, kRc0 = kPrf0 + PrfSizes::count, kCr0 = kRc0 + RcSizes::count, kKinds = kCr0 + RcSizes::count;
inline Class class_of(unsigned k) { return k == 0 ? CIPHER : k == 1 ? PRG : k == 2 ? PRP : k == 3 ? TDP : k < kRc0 ? PRF : k < kCr0 ? RCPRF : CRCPRF; }
inline size_t size_of(unsigned k) { return k < kPrf0 ? 0 : k < kRc0 ? PrfSizes::at(k - kPrf0) : k < kCr0 ? RcSizes::at(k - kRc0) : RcSizes::at(k - kCr0); }
inline const char* name_of(unsigned k)
{
    static const char* n[] = {"Cipher", "Prf", "Prg", "Prp", "RCPrf", "ConstrainedRCPrf", "TdpInverse"};
    return n[class_of(k)];
}
inline uint64_t last_leaf(unsigned height) { return height >= 65 ? ~0ULL : (1ULL << (height - 1)) - 1; }

// reference handles of kRsa2048
inline std::vector<int> g_rsa;
inline void setup()
{
    lib_init();
    for (auto& k : kRsa2048) g_rsa.push_back(ref::rsa_load(k.sk));
}

// A call which must succeed unless a resource fault fired; true if it returned.
inline bool g_redraw = false; // samples are drawn twice from the same randomness
inline void (*g_after)() = nullptr; // called after every library call made through ok() and refused()
inline bool g_paint = false; // library calls run on a painted stack, searched for secrets afterwards
// a reference to a callable: keeps the code below out of every instantiation (compile time)
class Fn
{
    void* o_;
    void (*c_)(void*);

public:
    template<class F> Fn(F&& f) : o_((void*)&f), c_([](void* o) { (*static_cast<typename std::remove_reference<F>::type*>(o))(); }) {}
    void operator()() const { c_(o_); }
};
__attribute__((noinline)) inline Result call_hooked(const char* what, Fn f)
{
    Result r;
    if (g_paint) {
        std::string        w;
        std::exception_ptr ep; // looked into only after the search: handlers would overwrite dead frames
        bool dirty = run_on_painted_stack([&] { try { Lib l; f(); } catch (...) { ep = std::current_exception(); } }, &w);
        if (ep) { r = call([&] { Unlib u; std::rethrow_exception(ep); }); ep = nullptr; }
        if (dirty) fail("secret-on-stack", "%s is left on the stack by %s", w.c_str(), what);
    } else {
        r = call(f);
    }
    return r;
}
__attribute__((noinline)) inline bool ok(const char* what, Fn f)
{
    Result r = call_hooked(what, f);
    if (g_after) g_after();
    if (!r.threw) return true;
    SIM_CHECK(fault_fired(), "refused", "%s failed: %s", what, r.what.c_str());
    return false;
}
__attribute__((noinline)) inline void refused(const char* what, Fn f)
{
    Result r = call_hooked(what, f);
    if (g_after) g_after();
    SIM_CHECK(r.threw, "invalid-accepted", "%s was accepted", what);
}
__attribute__((noinline)) inline void eq(const std::string& got, const std::string& want, const char* what)
{
    SIM_CHECK(got == want, "wrong-value", "%s: got %s, expected %s", what, hex(got).c_str(), hex(want).c_str());
}

#define EQ(got, want, what) ::obj::eq(got, want, what)

// ---- behaviour of each class against its model
inline void use(const Model& m, Cipher& c, uint64_t s)
{
    std::string msg = bytes_of(s, 1 + span(s >> 7, 300)), ct, pt;
    if (ok("Cipher::encrypt", [&] { c.encrypt(msg, ct); })) {
        std::string back;
        SIM_CHECK(ref::cipher_decrypt(m.key, ct, back) && back == msg, "wrong-value", "ciphertext of the object is not one of its key");
    }
    ct = ref::cipher_encrypt(m.key, rnd(s, 16), msg);
    if (ok("Cipher::decrypt", [&] { c.decrypt(ct, pt); })) EQ(pt, msg, "Cipher::decrypt");
}
template<uint16_t N> inline void use(const Model& m, Prf<N>& p, uint64_t s)
{
    std::string msg = bytes_of(s, span(s >> 7, 300)), out;
    if (ok("Prf::prf", [&] { auto a = p.prf(msg); Unlib u; out = str(a); })) EQ(out, ref::prf(m.key, N, msg), "Prf::prf");
}
inline void use(const Model& m, Prg& p, uint64_t s)
{
    size_t      off = span(s >> 7, 400), len = 1 + span(s >> 17, 300);
    std::string out;
    if (ok("Prg::derive", [&] { p.derive(off, len, out); })) EQ(out, ref::prg(m.key, off, len), "Prg::derive");
}
inline void use(const Model& m, Prp& p, uint64_t s)
{
    std::string msg = bytes_of(s, 1 + span(s >> 7, 200)), ct, pt;
    if (ok("Prp::encrypt", [&] { p.encrypt(msg, ct); })) EQ(ct, ref::aez(m.key, msg, true), "Prp::encrypt");
    if (ok("Prp::decrypt", [&] { p.decrypt(msg, pt); })) EQ(pt, ref::aez(m.key, msg, false), "Prp::decrypt");
}
inline uint64_t leaf_in(uint64_t s, uint64_t lo, uint64_t hi)
{
    uint64_t n = hi - lo + 1, x = s >> 8;
    switch (s % 9) {
    case 0: return lo;
    case 1: return hi;
    case 6: case 7: { // around a boundary between two subtrees
        uint64_t r = lo + (n ? mix(x, 1) % n : mix(x, 1)), k = 1ULL << (s >> 58) % 63;
        r          = r / k * k;
        if (s % 9 == 7 && r) r--;
        return r < lo ? lo : r > hi ? hi : r;
    }
    case 2: return lo + (n ? (x % 5) % n : x % 5);
    case 3: return hi - (n ? (x % 5) % n : x % 5);
    default: return lo + (n ? mix(x, 1) % n : mix(x, 1));
    }
}
template<class P> inline void use_range(const char* name, const Model& m, P& p, uint64_t s, size_t N)
{
    uint64_t    leaf = leaf_in(s, m.min, m.max);
    std::string out;
    if (ok(name, [&] { auto a = p.eval(leaf); Unlib u; out = str(a); })) EQ(out, ref::rcprf(m.key, m.height, leaf, N), name);
    uint64_t a = leaf, b = m.max - a > 6 ? a + (s >> 40) % 7 : m.max, next = a;
    bool good = ok("eval_range", [&] {
        p.eval_range(a, b, [&](uint64_t l, const auto& v) {
            Unlib u;
            SIM_CHECK(l == next && l <= b, "wrong-value", "%s range enumeration delivered leaf %llu, expected %llu", name, (unsigned long long)l, (unsigned long long)next);
            EQ(str(v), ref::rcprf(m.key, m.height, l, N), "eval_range");
            next++;
        });
    });
    if (good) SIM_CHECK(next == b + 1, "wrong-value", "%s range enumeration stopped at %llu", name, (unsigned long long)next);
    if (m.max < ~0ULL) refused("a leaf after the range", [&] { p.eval(m.max + 1); });
    if (m.min > 0) refused("a leaf before the range", [&] { p.eval(m.min - 1); });
}
template<uint16_t N> inline void use(const Model& m, RCPrf<N>& p, uint64_t s) { use_range("RCPrf::eval", m, p, s, N); }
template<uint16_t N> inline void use(const Model& m, ConstrainedRCPrf<N>& p, uint64_t s) { use_range("ConstrainedRCPrf::eval", m, p, s, N); }
inline void use(const Model& m, TdpInverse& t, uint64_t s)
{
    int         h = g_rsa[size_t(m.rsa)];
    std::string x = ref::rsa_reduce(h, rnd(s, 256)), y;
    if ((s >> 9) % 4 == 0) {
        std::string pem;
        if (ok("TdpInverse::private_key", [&] { pem = t.private_key(); })) {
            int g = ref::rsa_load(pem);
            SIM_CHECK(g >= 0 && ref::rsa_same_private(h, g), "wrong-value", "exported private key is another key");
        }
        if (ok("TdpInverse::public_key", [&] { pem = t.public_key(); })) {
            int g = ref::rsa_load_pub(pem);
            SIM_CHECK(g >= 0 && ref::rsa_same_public(h, g), "wrong-value", "exported public key is another key");
        }
    }
    if ((s >> 8) & 1) {
        if (ok("TdpInverse::invert", [&] { y = t.invert(x); })) EQ(y, ref::rsa_invert(h, x, 1), "TdpInverse::invert");
    } else {
        uint32_t n = 1 + uint32_t(s >> 12) % 5;
        if (ok("TdpInverse::invert_mult", [&] { y = t.invert_mult(x, n); })) EQ(y, ref::rsa_invert(h, x, n), "TdpInverse::invert_mult");
    }
    if (ok("TdpInverse::eval", [&] { y = t.eval(x); })) EQ(y, ref::rsa_eval(h, x, 1), "TdpInverse::eval");
}

// ---- type-erased object
struct Base
{
    Model m;
    virtual ~Base() {}
    virtual std::vector<uint8_t>  wrap(const Wrapper& w) const = 0;
    virtual void                  use_it(uint64_t s)          = 0;
    virtual std::unique_ptr<Base> moved()                     = 0; // moves the object out
    virtual std::unique_ptr<Base> constrained(uint64_t, uint64_t) { return nullptr; } // Lib scope of the caller
    virtual size_t                serialized() const { return 0; }                    // 0: not fixed
};
template<class T, class = void> struct CanConstrain : std::false_type {};
template<class T> struct CanConstrain<T, std::void_t<decltype(std::declval<const T&>().constrain(0, 0))>> : std::true_type {};

template<class T> struct Box : Base
{
    T o;
    explicit Box(T&& x) : o(std::move(x)) {}
    std::vector<uint8_t>  wrap(const Wrapper& w) const override { return w.wrap(o); }
    void                  use_it(uint64_t s) override { use(m, o, s); }
    std::unique_ptr<Base> moved() override
    {
        std::unique_ptr<Base> b(new Box<T>(std::move(o)));
        b->m = m;
        return b;
    }
    std::unique_ptr<Base> constrained(uint64_t lo, uint64_t hi) override
    {
        if constexpr (CanConstrain<T>::value) {
            using R = decltype(o.constrain(0, 0));
            R r     = o.constrain(lo, hi);
            Unlib u;
            std::unique_ptr<Base> b(new Box<R>(std::move(r)));
            b->m      = m;
            b->m.kind = m.kind >= kCr0 ? m.kind : m.kind - kRc0 + kCr0;
            b->m.min  = lo;
            b->m.max  = hi;
            return b;
        }
        return nullptr;
    }
};
// calls f(type tag) for the C++ class of a kind
template<class T> struct Tag { using type = T; };
template<class F> void with_kind(unsigned k, F&& f)
{
    if (k == 0) f(Tag<Cipher>());
    else if (k == 1) f(Tag<Prg>());
    else if (k == 2) f(Tag<Prp>());
    else if (k == 3) f(Tag<TdpInverse>());
    else if (k < kRc0) PrfSizes::with(k - kPrf0, [&](auto S) { f(Tag<Prf<decltype(S)::value>>()); });
    else if (k < kCr0) RcSizes::with(k - kRc0, [&](auto S) { f(Tag<RCPrf<decltype(S)::value>>()); });
    else RcSizes::with(k - kCr0, [&](auto S) { f(Tag<ConstrainedRCPrf<decltype(S)::value>>()); });
}
// unwraps (inside a Lib scope of the caller); the model is the caller's business
inline std::unique_ptr<Base> unwrap(unsigned k, const Wrapper& w, std::vector<uint8_t>& blob)
{
    std::unique_ptr<Base> r;
    with_kind(k, [&](auto t) {
        using T = typename decltype(t)::type;
        T x     = w.unwrap<T>(blob);
        Unlib u;
        r.reset(new Box<T>(std::move(x)));
    });
    return r;
}
// builds the object of a model (never faulted)
inline std::unique_ptr<Base> build(const Model& m)
{
    std::unique_ptr<Base> r;
    switch (class_of(m.kind)) {
    case CIPHER: r.reset(new Box<Cipher>(Cipher(mk<32>(m.key)))); break;
    case PRG: r.reset(new Box<Prg>(Prg(mk<32>(m.key)))); break;
    case PRP: r.reset(new Box<Prp>(Prp(mk<48>(m.key)))); break;
    case TDP: r.reset(new Box<TdpInverse>(TdpInverse(kRsa2048[m.rsa].sk))); break;
    case PRF: PrfSizes::with(m.kind - kPrf0, [&](auto S) { using T = Prf<decltype(S)::value>; r.reset(new Box<T>(T(mk<32>(m.key)))); }); break;
    case RCPRF: RcSizes::with(m.kind - kRc0, [&](auto S) { using T = RCPrf<decltype(S)::value>; r.reset(new Box<T>(T(mk<32>(m.key), uint8_t(m.height)))); }); break;
    case CRCPRF: RcSizes::with(m.kind - kCr0, [&](auto S) { using T = RCPrf<decltype(S)::value>; using C = ConstrainedRCPrf<decltype(S)::value>; T p(mk<32>(m.key), uint8_t(m.height)); r.reset(new Box<C>(p.constrain(m.min, m.max))); }); break;
    }
    r->m = m;
    return r;
}
inline Model model(unsigned kind, uint64_t seed, uint64_t h)
{
    Model m;
    m.kind = kind % kKinds;
    m.key  = rnd(seed, class_of(m.kind) == PRP ? 48 : 32);
    m.rsa  = int(seed % (sizeof kRsa2048 / sizeof *kRsa2048));
    Class c = class_of(m.kind);
    if (c == RCPRF || c == CRCPRF) {
        m.height = 2 + unsigned(h % 63);
        if (h & 64) m.height = 2 + unsigned(h >> 7) % 7;
        m.min = 0;
        m.max = last_leaf(m.height);
        if (c == CRCPRF) {
            uint64_t n = m.max + 1, a = mix(seed, 3) % n, b = mix(seed, 4) % n;
            if ((h >> 20) % 3 == 0) b = a;
            if ((h >> 20) % 3 == 1) b = a + (h >> 24) % 9 < n ? a + (h >> 24) % 9 : a;
            if (a > b) std::swap(a, b);
            if (a == 0 && b == m.max) { if (m.max) b--; }
            m.min = a;
            m.max = b;
        }
    }
    return m;
}
// the fixed serialization sizes (0: depends on the object)
inline size_t serialized_size(unsigned k)
{
    switch (class_of(k)) {
    case CIPHER: case PRG: case PRF: return 32;
    case PRP: return 112;
    case RCPRF: return 33;
    default: return 0;
    }
}
inline void show(const Model& m, char* buf, size_t n)
{
    snprintf(buf, n, "%s%s%zu", name_of(m.kind), size_of(m.kind) ? "/" : "", size_of(m.kind));
}
} // namespace obj
