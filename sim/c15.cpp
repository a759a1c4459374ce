// C15: a consumed, moved or erased key can never be used again, and its new owner works with it.
#include "zoo.hpp"
#include <algorithm>
using obj::ok;
namespace {
enum { NEWKEY, BUILD, CONSUME, USE, STEAL, ASSIGN, SWAP, ERASE, DESTROY, WRAP, PUSH, TAKE, SHUFFLE, REPLACE, NOPS };
enum Kind { K32, K48, PRF20, PRF64, PRF200, PRF264, HMAC32, PRG, CIPHER, WRAPPER, RC16, CR16, PRP, KINDS };
const char* const kNames[] = {"Key<32>", "Key<48>", "Prf<20>", "Prf<64>", "Prf<200>", "Prf<264>", "HMac", "Prg", "Cipher", "Wrapper", "RCPrf", "ConstrainedRCPrf", "Prp"};
// what a cell holds: its secret, nothing, or one of the two (a hand-over out of it failed)
enum St { LIVE, EMPTY, EITHER };
struct Secret
{
    St          st{EMPTY};
    std::string key;
    unsigned    height{0};
    uint64_t    min{0}, max{0};
    Secret      leave() { Secret s = *this; st = EMPTY; return s; }
};
Secret live(const std::string& k) { Secret s; s.st = LIVE; s.key = k; return s; }
// a computation with the secret: does it work exactly when the secret is there?
bool attempt(Secret& c, const char* what, obj::Fn f)
{
    Result r = obj::call_hooked(what, f);
    if (!r.threw) {
        SIM_CHECK(c.st != EMPTY, "empty-used", "%s worked on a key that was consumed, moved away or erased", what);
        c.st = LIVE;
        return true;
    }
    if (fault_fired()) return false;
    SIM_CHECK(c.st != LIVE, "secret-lost", "%s by the only owner of a key failed: %s", what, r.what.c_str());
    c.st = EMPTY;
    event("refused-empty");
    return false;
}
// a refused computation hands nothing out
void nothing(const std::string& out, char old, const char* what)
{
    for (char x : out) SIM_CHECK(x == old || x == 0, "refused-output", "%s was refused and wrote %s", what, hex(out).c_str());
}
std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }

struct Env
{
    std::unique_ptr<Wrapper>     helper;
    std::unique_ptr<Tdp>         tdp;
    std::unique_ptr<TdpInverse>  inv;
    std::unique_ptr<TdpMultPool> pool;
    std::string                  hkey;
    void rsa()
    {
        if (tdp) return;
        tdp.reset(new Tdp(kRsa2048[0].pk));
        inv.reset(new TdpInverse(kRsa2048[0].sk));
        pool.reset(new TdpMultPool(kRsa2048[0].pk, 2));
    }
};
Env* E;

struct Cell
{
    Kind   kind;
    Secret s;
    explicit Cell(Kind k) : kind(k) {}
    virtual ~Cell() {}
    virtual void                  use(unsigned w, uint64_t x) = 0;
    virtual std::unique_ptr<Cell> steal()                     = 0; // move construction
    virtual void                  assign(Cell& from)          = 0;
    virtual void                  swap(Cell& other)           = 0;
    virtual void                  wrap(uint64_t)              = 0;
    virtual void                  erase()                     = 0; // keys only
};
// ---- computations with each class
template<uint16_t N> void compute(Secret& c, Prf<N>& o, unsigned w, uint64_t x)
{
    std::string              in = bytes_of(x, span(x >> 7, 200)), out;
    std::array<uint8_t, 40>  arr;
    Slot<Key<N>>             k;
    memcpy(arr.data(), rnd(x, 40).data(), 40);
    if (N == Tdp::kRSAPrfSize && w % 2) {
        E->rsa();
        int h = obj::g_rsa[0];
        if constexpr (N == Tdp::kRSAPrfSize)
            if (attempt(c, "generation from a Prf", [&] {
                    switch (w / 2 % 6) {
                    case 0: out = E->tdp->generate(o, in); break;
                    case 1: { auto a = E->tdp->generate_array(o, in); Unlib u; out = str(a); break; }
                    case 2: out = E->inv->generate(o, in); break;
                    case 3: { auto a = E->inv->generate_array(o, in); Unlib u; out = str(a); break; }
                    case 4: out = E->pool->generate(o, in); break;
                    case 5: { auto a = E->pool->generate_array(o, in); Unlib u; out = str(a); break; }
                    }
                }))
                EQ(out, ref::rsa_reduce(h, ref::prf(c.key, N, in)), "generation from a Prf");
        return;
    }
    switch (w % 6) {
    case 0: if (attempt(c, "Prf::prf(buffer)", [&] { auto a = o.prf(U(in), in.size()); Unlib u; out = str(a); })) EQ(out, ref::prf(c.key, N, in), "Prf::prf(buffer)"); break;
    case 1: if (attempt(c, "Prf::prf(string)", [&] { auto a = o.prf(in); Unlib u; out = str(a); })) EQ(out, ref::prf(c.key, N, in), "Prf::prf(string)"); break;
    case 2: if (attempt(c, "Prf::prf(array)", [&] { auto a = o.prf(arr); Unlib u; out = str(a); })) EQ(out, ref::prf(c.key, N, str(arr)), "Prf::prf(array)"); break;
    case 3: if (attempt(c, "Prf::derive_key(buffer)", [&] { k.emplace(o.derive_key(U(in), in.size())); })) zoo::check_key(std::move(*k), ref::prf(c.key, N, in), "Prf::derive_key(buffer)"); break;
    case 4: if (attempt(c, "Prf::derive_key(string)", [&] { k.emplace(o.derive_key(in)); })) zoo::check_key(std::move(*k), ref::prf(c.key, N, in), "Prf::derive_key(string)"); break;
    case 5: if (attempt(c, "Prf::derive_key(array)", [&] { k.emplace(o.derive_key(arr)); })) zoo::check_key(std::move(*k), ref::prf(c.key, N, str(arr)), "Prf::derive_key(array)"); break;
    }
}
void compute(Secret& c, HMac<Hash, 32>& o, unsigned w, uint64_t x)
{
    std::string in = bytes_of(x, span(x >> 7, 300)), out(64, '\x11');
    size_t      n  = 1 + (x >> 20) % 64;
    switch (w % 3) {
    case 0: if (attempt(c, "HMac::hmac(buffer)", [&] { o.hmac(U(in), in.size(), U(out), n); })) EQ(out.substr(0, n), ref::hmac_blake2b(c.key, in).substr(0, n), "HMac::hmac(buffer)"); else if (c.st == EMPTY) nothing(out, '\x11', "HMac::hmac(buffer)"); break;
    case 1: if (attempt(c, "HMac::hmac(array)", [&] { auto a = o.hmac(U(in), in.size()); Unlib u; out = str(a); })) EQ(out, ref::hmac_blake2b(c.key, in), "HMac::hmac(array)"); break;
    case 2: if (attempt(c, "HMac::hmac(string)", [&] { auto a = o.hmac(in); Unlib u; out = str(a); })) EQ(out, ref::hmac_blake2b(c.key, in), "HMac::hmac(string)"); break;
    }
}
void compute(Secret& c, Prg& o, unsigned w, uint64_t x)
{
    size_t      off = span(x >> 7, 400), len = 1 + span(x >> 17, 300);
    uint16_t    ko = uint16_t((x >> 30) % 40), n = uint16_t(1 + (x >> 40) % 5);
    std::string out(len, '\x22');
    switch (w % 9) {
    case 0: if (attempt(c, "Prg::derive(len, string)", [&] { o.derive(len, out); })) EQ(out, ref::prg(c.key, 0, len), "Prg::derive(len, string)"); else if (c.st == EMPTY) nothing(out, '\x22', "Prg::derive(len, string)"); break;
    case 1: if (attempt(c, "Prg::derive(offset, len, string)", [&] { o.derive(off, len, out); })) EQ(out, ref::prg(c.key, off, len), "Prg::derive(offset, len, string)"); else if (c.st == EMPTY) nothing(out, '\x22', "Prg::derive(offset, len, string)"); break;
    case 2: if (attempt(c, "Prg::derive(len)", [&] { out = o.derive(len); })) EQ(out, ref::prg(c.key, 0, len), "Prg::derive(len)"); break;
    case 3: if (attempt(c, "Prg::derive(offset, len)", [&] { out = o.derive(off, len); })) EQ(out, ref::prg(c.key, off, len), "Prg::derive(offset, len)"); break;
    case 4: if (attempt(c, "Prg::derive(buffer)", [&] { o.derive(off, len, U(out)); })) EQ(out, ref::prg(c.key, off, len), "Prg::derive(buffer)"); else if (c.st == EMPTY) nothing(out, '\x22', "Prg::derive(buffer)"); break;
    case 5: { Slot<Key<32>> k; if (attempt(c, "Prg::derive_key<32>", [&] { k.emplace(o.derive_key<32>(ko)); })) zoo::check_key(std::move(*k), ref::prg(c.key, ko * 32, 32), "Prg::derive_key<32>"); break; }
    case 6: { Slot<Key<100>> k; if (attempt(c, "Prg::derive_key<100>", [&] { k.emplace(o.derive_key<100>(ko)); })) zoo::check_key(std::move(*k), ref::prg(c.key, ko * 100, 100), "Prg::derive_key<100>"); break; }
    case 7: { std::vector<Key<32>> v; if (attempt(c, "Prg::derive_keys<32>", [&] { v = o.derive_keys<32>(n, ko); })) zoo::check_keys(v, c.key, ko, n, "Prg::derive_keys<32>"); break; }
    case 8: { std::vector<Key<48>> v; if (attempt(c, "Prg::derive_keys<48>", [&] { v = o.derive_keys<48>(n, ko); })) zoo::check_keys(v, c.key, ko, n, "Prg::derive_keys<48>"); break; }
    }
}
void compute(Secret& c, Cipher& o, unsigned w, uint64_t x)
{
    std::string             msg = bytes_of(x, 1 + span(x >> 7, 300)), ct, out((x >> 20) % 40, '\x22'), back;
    std::array<uint8_t, 33> a;
    std::array<uint8_t, 65> b;
    auto opened = [&](const std::string& k, const std::string& m) { SIM_CHECK(ref::cipher_decrypt(c.key, k, back) && back == m, "wrong-value", "Cipher::encrypt did not produce a ciphertext of its message"); };
    auto body = [](const std::string& k) { return k.size() > 16 ? k.substr(16) : std::string(); }; // the random nonce tells nothing
    switch (w % 4) {
    case 0: if (attempt(c, "Cipher::encrypt(string)", [&] { o.encrypt(msg, out); })) opened(out, msg); else if (c.st == EMPTY) nothing(body(out), '\x22', "Cipher::encrypt(string)"); break;
    case 1: ct = ref::cipher_encrypt(c.key, rnd(x, 16), msg); if (attempt(c, "Cipher::decrypt(string)", [&] { o.decrypt(ct, out); })) EQ(out, msg, "Cipher::decrypt(string)"); else if (c.st == EMPTY) nothing(out, '\x22', "Cipher::decrypt(string)"); break;
    case 2: memcpy(a.data(), rnd(x, 33).data(), 33); b.fill(0x22); if (attempt(c, "Cipher::encrypt(array)", [&] { o.encrypt(a, b); })) opened(str(b), str(a)); else if (c.st == EMPTY) nothing(body(str(b)), '\x22', "Cipher::encrypt(array)"); break;
    case 3: ct = ref::cipher_encrypt(c.key, rnd(x, 16), rnd(x, 33)); memcpy(b.data(), ct.data(), 65); a.fill(0x22); if (attempt(c, "Cipher::decrypt(array)", [&] { o.decrypt(b, a); })) EQ(str(a), rnd(x, 33), "Cipher::decrypt(array)"); else if (c.st == EMPTY) nothing(str(a), '\x22', "Cipher::decrypt(array)"); break;
    }
}
void compute(Secret& c, Prp& o, unsigned w, uint64_t x)
{
    bool        e  = w & 1;
    std::string in = bytes_of(x, 1 + span(x >> 7, 200)), out(in.size(), '\x22');
    std::string want = ref::aez(c.key, in, e);
    switch ((w / 2) % 5) {
    case 0: if (attempt(c, "Prp(string, string)", [&] { if (e) o.encrypt(in, out); else o.decrypt(in, out); })) EQ(out, want, "Prp(string, string)"); else if (c.st == EMPTY) nothing(out, '\x22', "Prp(string, string)"); break;
    case 1: if (attempt(c, "Prp(string)", [&] { out = e ? o.encrypt(in) : o.decrypt(in); })) EQ(out, want, "Prp(string)"); break;
    case 2: if (attempt(c, "Prp(buffer)", [&] { if (e) o.encrypt(U(in), unsigned(in.size()), U(out)); else o.decrypt(U(in), unsigned(in.size()), U(out)); })) EQ(out, want, "Prp(buffer)"); else if (c.st == EMPTY) nothing(out, '\x22', "Prp(buffer)"); break;
    case 3: { uint32_t a = uint32_t(x >> 8), y = 0; if (attempt(c, "Prp(uint32)", [&] { y = e ? o.encrypt(a) : o.decrypt(a); })) EQ(std::string((char*)&y, 4), ref::aez(c.key, std::string((char*)&a, 4), e), "Prp(uint32)"); break; }
    case 4: { uint64_t a = mix(x, 8), y = 0; if (attempt(c, "Prp(uint64)", [&] { y = e ? o.encrypt_64(a) : o.decrypt_64(a); })) EQ(std::string((char*)&y, 8), ref::aez(c.key, std::string((char*)&a, 8), e), "Prp(uint64)"); break; }
    }
}
void compute(Secret& c, Wrapper& o, unsigned w, uint64_t x)
{
    std::string k = rnd(mix(x, 3), 32);
    if (w % 2) {
        std::vector<uint8_t> b, old = b;
        Prf<20>              p(mk<32>(k));
        if (attempt(c, "Wrapper::wrap", [&] { b = o.wrap(p); }))
            SIM_CHECK(b == bytes(ref::wrap_blob(c.key, 2, std::string("\0\x14", 2), k, std::string(b.begin(), b.begin() + (long)std::min<size_t>(16, b.size())))), "wrong-value", "wrapping gave another blob than the published format");
    } else {
        std::vector<uint8_t> b = bytes(ref::wrap_blob(c.key, 3, "", k, rnd(x, 16)));
        Slot<Prg>            p;
        if (attempt(c, "Wrapper::unwrap", [&] { p.emplace(o.unwrap<Prg>(b)); })) {
            Secret in = live(k);
            compute(in, *p, 1, x);
        }
    }
}
template<class R> void compute_rc(Secret& c, R& o, unsigned w, uint64_t x)
{
    uint64_t    leaf = obj::leaf_in(x, c.min, c.max), b = c.max - leaf > 6 ? leaf + (x >> 40) % 7 : c.max;
    std::string out;
    std::vector<std::pair<uint64_t, std::string>> got;
    constexpr bool master = std::is_same<R, RCPrf<16>>::value;
    switch (w % 3) {
    case 0:
        if (attempt(c, "range-constrained eval", [&] { auto a = o.eval(leaf); Unlib u; out = str(a); })) {
            EQ(out, ref::rcprf(c.key, c.height, leaf, 16), "range-constrained eval");
            unsigned h = o.tree_height();
            SIM_CHECK(h == c.height, "wrong-value", "the object says its tree has height %u, its key was made for %u", h, c.height);
        }
        break;
    case 1: {
        bool good = attempt(c, "eval_range", [&] { o.eval_range(leaf, b, [&](uint64_t l, const auto& v) { Unlib u; got.emplace_back(l, str(v)); SIM_CHECK(got.size() - 1 <= b - leaf, "wrong-value", "range enumeration delivers more leaves than were asked for"); }); });
        if (c.st == EMPTY) SIM_CHECK(got.empty(), "refused-output", "a refused enumeration delivered %zu leaves", got.size());
        for (auto& g : got) EQ(g.second, ref::rcprf(c.key, c.height, g.first, 16), "eval_range");
        if (good) SIM_CHECK(got.size() == b - leaf + 1, "wrong-value", "an enumeration delivered %zu leaves", got.size());
        break;
    }
    case 2: {
        if (master && leaf == 0 && b == c.max) break;
        Slot<ConstrainedRCPrf<16>> r;
        if (attempt(c, "constrain", [&] { r.emplace(o.constrain(leaf, b)); })) {
            Secret in = c;
            in.min = leaf; in.max = b;
            compute_rc(in, *r, 0, x >> 3);
        }
        break;
    }
    }
}
void compute(Secret& c, RCPrf<16>& o, unsigned w, uint64_t x) { compute_rc(c, o, w, x); }
void compute(Secret& c, ConstrainedRCPrf<16>& o, unsigned w, uint64_t x) { compute_rc(c, o, w, x); }
template<size_t N> void compute(Secret&, Key<N>&, unsigned, uint64_t) {}

template<class T> struct is_key { static constexpr bool value = false; };
template<size_t N> struct is_key<Key<N>> { static constexpr bool value = true; };

template<class T> struct Holder : Cell
{
    Slot<T> o;
    explicit Holder(Kind k) : Cell(k) {}
    void use(unsigned w, uint64_t x) override { compute(this->s, *o, w, x); }
    std::unique_ptr<Cell> steal() override
    {
        auto* n = new Holder(this->kind);
        n->o.emplace(std::move(*o));
        n->s = this->s.leave();
        return std::unique_ptr<Cell>(n);
    }
    void assign(Cell& from) override
    {
        auto& f = static_cast<Holder&>(from);
        if constexpr (std::is_move_assignable<T>::value) {
            T& a = *o;
            T& b = *f.o;
            a    = std::move(b);
            if (&f != this) this->s = f.s.leave();
            else if (this->kind == CR16 && this->s.st == LIVE) this->s.st = EITHER; // a list moved onto itself, as in the standard library
        } else if (&f != this) { // not assignable: replaced
            o.emplace(std::move(*f.o));
            this->s = f.s.leave();
        }
    }
    void swap(Cell& other) override
    {
        auto& f = static_cast<Holder&>(other);
        if constexpr (std::is_move_assignable<T>::value) {
            std::swap(*o, *f.o);
            std::swap(this->s, f.s);
        }
    }
    void wrap(uint64_t x) override
    {
        if constexpr (!is_key<T>::value && !std::is_same<T, Wrapper>::value && !std::is_same<T, HMac<Hash, 32>>::value) {
            if (this->kind == CR16 && this->s.st != LIVE) return; // nothing in it: an empty list may be stored
            std::vector<uint8_t> b, c;
            if (attempt(this->s, "wrapping", [&] { b = E->helper->wrap(*o); })) {
                Slot<T> back;
                Secret  in = this->s;
                c          = b;
                if (attempt(in, "unwrapping", [&] { back.emplace(E->helper->template unwrap<T>(c)); })) compute(in, *back, unsigned(x >> 5), x);
            }
        }
    }
    void erase() override { if constexpr (is_key<T>::value) { o->erase(); this->s.st = EMPTY; } }
};
template<size_t N> using KeyHolder = Holder<Key<N>>;
// Hand-over of a key to an object under construction.
template<class T, size_t N, class... A> std::unique_ptr<Cell> build(Kind kind, Secret& from, Key<N>& key, bool valid, A... args)
{
    std::unique_ptr<Holder<T>> n(new Holder<T>(kind));
    Result r = obj::call_hooked("construction", [&] { n->o.emplace(std::move(key), args...); });
    if (r.threw) {
        if (fault_fired() || !valid) { if (from.st == LIVE) from.st = EITHER; }
        else {
            SIM_CHECK(from.st != LIVE, "secret-lost", "the only owner of a key could not hand it over to a new %s: %s", kNames[kind], r.what.c_str());
            from.st = EMPTY;
            event("refused-empty");
        }
        return nullptr;
    }
    SIM_CHECK(valid, "invalid-accepted", "a %s with invalid parameters was constructed", kNames[kind]);
    n->s = from.leave(); // an object made from nothing must refuse every computation
    return n;
}
struct World
{
    const Plan&                        plan;
    std::vector<std::unique_ptr<Cell>> cells;
    std::vector<Key<32>>               vec;
    std::vector<Secret>                vs;
    explicit World(const Plan& p) : plan(p) {}
    Cell* get(uint64_t i) { return cells.empty() ? nullptr : cells[i % cells.size()].get(); }
    void  add(std::unique_ptr<Cell> c)
    {
        if (!c) return;
        cells.push_back(std::move(c));
        if (cells.size() > 9) cells.erase(cells.begin());
    }
    // the i-th cell of a wanted kind, if any
    Cell* find(uint64_t i, bool (*want)(const Cell&))
    {
        std::vector<Cell*> v;
        for (auto& c : cells) if (want(*c)) v.push_back(c.get());
        return v.empty() ? nullptr : v[i % v.size()];
    }
    template<size_t N> void newkey(Kind kind, const Op& op)
    {
        std::string   k = rnd(op.a[2], N);
        Cell*         c = nullptr;
        Slot<Key<N>>  fresh;
        if (op.a[3] % 3 == 0) for (auto& q : cells) if (q->kind == kind) c = q.get();
        if (c && op.a[3] % 2) { // directly into an existing key
            auto& h = static_cast<KeyHolder<N>&>(*c);
            bool  done = ok("assignment of a new key", [&] { std::array<uint8_t, N> b; memcpy(b.data(), k.data(), N); *h.o = Key<N>(b.data()); });
            if (done) h.s = live(k);
            return;
        }
        if (!zoo::make_key<N>(k, fresh)) return;
        std::unique_ptr<KeyHolder<N>> n(new KeyHolder<N>(kind));
        n->o.emplace(std::move(*fresh));
        n->s = live(k);
        if (op.a[3] % 5 == 0) { Secret none; consume<N>(none, *fresh, unsigned(op.a[1]), op.a[2]); }
        add(std::move(n));
    }
    template<size_t N> std::unique_ptr<Cell> build_any(KeyHolder<N>& k, unsigned what, uint64_t x)
    {
        if constexpr (N == 48) {
            (void)what;
            if (x % 8 == 0) { // a processor without AES instructions
                set_aes_available(false);
                init_crypto_lib();
                auto c = build<Prp>(PRP, k.s, *k.o, false);
                set_aes_available(true);
                init_crypto_lib();
                event("no-aes");
                return c;
            }
            return build<Prp>(PRP, k.s, *k.o, true);
        } else {
            unsigned h = x % 8 == 0 ? unsigned((x >> 8) % 3 == 0 ? 0 : (x >> 8) % 3 == 1 ? 1 : 65 + (x >> 16) % 190) : unsigned(2 + (x >> 8) % 63);
            switch (PRF20 + what % (CR16 - PRF20)) {
            case PRF20: return build<Prf<20>>(PRF20, k.s, *k.o, true);
            case PRF64: return build<Prf<64>>(PRF64, k.s, *k.o, true);
            case PRF200: return build<Prf<200>>(PRF200, k.s, *k.o, true);
            case PRF264: return build<Prf<264>>(PRF264, k.s, *k.o, true);
            case HMAC32: return build<HMac<Hash, 32>>(HMAC32, k.s, *k.o, true);
            case PRG: return build<Prg>(PRG, k.s, *k.o, true);
            case CIPHER: return build<Cipher>(CIPHER, k.s, *k.o, true);
            case WRAPPER: return build<Wrapper>(WRAPPER, k.s, *k.o, true);
            default: {
                Secret was = k.s;
                was.height = h;
                was.max    = obj::last_leaf(h >= 2 && h <= 64 ? h : 2);
                auto c = build<RCPrf<16>>(RC16, k.s, *k.o, h >= 2 && h <= 64, uint8_t(h));
                if (c) { c->s.height = was.height; c->s.max = was.max; }
                return c;
            }
            }
        }
    }
    // derivations which take ownership of the key
    template<size_t N> void consume(Secret& c, Key<N>& k, unsigned w, uint64_t x)
    {
        if constexpr (N == 32) {
            size_t      off = span(x >> 7, 400), len = 1 + span(x >> 17, 300);
            uint16_t    ko = uint16_t((x >> 30) % 40), n = uint16_t(1 + (x >> 40) % 5);
            std::string out(len, '\x22'), seed = bytes_of(x, (x >> 9) % 50);
            Secret      was = c;
            bool        done = false;
            // the outcome decides what is left in the key
            auto go = [&](const char* what, obj::Fn f) {
                Result r = obj::call_hooked(what, f);
                if (!r.threw) {
                    SIM_CHECK(c.st != EMPTY, "empty-used", "%s worked on a key that was consumed, moved away or erased", what);
                    c.st = EMPTY;
                    return done = true;
                }
                if (fault_fired()) { if (c.st == LIVE) c.st = EITHER; return false; }
                SIM_CHECK(c.st != LIVE, "secret-lost", "%s by the only owner of a key failed: %s", what, r.what.c_str());
                c.st = EMPTY;
                event("refused-empty");
                return false;
            };
            bool strict = true;
            switch (w % 18) {
            case 0: if (go("Prg::derive(key, len, string)", [&] { Prg::derive(std::move(k), len, out); })) EQ(out, ref::prg(was.key, 0, len), "Prg::derive(key, len, string)"); break;
            case 1: if (go("Prg::derive(key, offset, len, string)", [&] { Prg::derive(std::move(k), off, len, out); })) EQ(out, ref::prg(was.key, off, len), "Prg::derive(key, offset, len, string)"); break;
            case 2: if (go("Prg::derive(key, len)", [&] { out = Prg::derive(std::move(k), len); })) EQ(out, ref::prg(was.key, 0, len), "Prg::derive(key, len)"); break;
            case 3: if (go("Prg::derive(key, offset, len)", [&] { out = Prg::derive(std::move(k), off, len); })) EQ(out, ref::prg(was.key, off, len), "Prg::derive(key, offset, len)"); break;
            case 4: case 5: if (go("Prg::derive(key, buffer)", [&] { Prg::derive(std::move(k), off, len, U(out)); })) EQ(out, ref::prg(was.key, off, len), "Prg::derive(key, buffer)"); break;
            case 6: { std::array<uint8_t, 100> a; a.fill(0x22); if (go("Prg::derive(key, array)", [&] { Prg::derive(std::move(k), off, a); })) EQ(str(a), ref::prg(was.key, off, 100), "Prg::derive(key, array)"); out = str(a); break; }
            case 7: { Slot<Key<32>> d; if (go("Prg::derive_key<32>(key)", [&] { d.emplace(Prg::derive_key<32>(std::move(k), ko)); })) zoo::check_key(std::move(*d), ref::prg(was.key, ko * 32, 32), "Prg::derive_key<32>(key)"); break; }
            case 8: { Slot<Key<100>> d; if (go("Prg::derive_key<100>(key)", [&] { d.emplace(Prg::derive_key<100>(std::move(k), ko)); })) zoo::check_key(std::move(*d), ref::prg(was.key, ko * 100, 100), "Prg::derive_key<100>(key)"); break; }
            case 9: { std::vector<Key<32>> v; if (go("Prg::derive_keys<32>(key)", [&] { v = Prg::derive_keys<32>(std::move(k), n, ko); })) zoo::check_keys(v, was.key, ko, n, "Prg::derive_keys<32>(key)"); break; }
            case 10: { std::vector<Key<16>> v; if (go("Prg::derive_keys<16>(key)", [&] { v = Prg::derive_keys<16>(std::move(k), n, ko); })) zoo::check_keys(v, was.key, ko, n, "Prg::derive_keys<16>(key)"); break; }
            case 11: // refused in any case
                obj::refused("Prg::derive of a key into a null buffer", [&] { Prg::derive(std::move(k), off, len, static_cast<unsigned char*>(nullptr)); });
                if (c.st == LIVE) c.st = EITHER;
                strict = false;
                break;
            default: {
                E->rsa();
                if (go("generation from a key", [&] {
                        switch (w % 18) {
                        case 12: out = E->tdp->generate(std::move(k), seed); break;
                        case 13: { auto a = E->tdp->generate_array(std::move(k), seed); Unlib u; out = str(a); break; }
                        case 14: out = E->inv->generate(std::move(k), seed); break;
                        case 15: { auto a = E->inv->generate_array(std::move(k), seed); Unlib u; out = str(a); break; }
                        case 16: out = E->pool->generate(std::move(k), seed); break;
                        default: { auto a = E->pool->generate_array(std::move(k), seed); Unlib u; out = str(a); break; }
                        }
                    }))
                    EQ(out, ref::rsa_reduce(obj::g_rsa[0], ref::prf(was.key, Tdp::kRSAPrfSize, seed)), "generation from a key");
            }
            }
            if (strict && !done && was.st == EMPTY) nothing(out, '\x22', "a derivation from an empty key");
        } else { // 48-byte keys are consumed by a temporary object
            Slot<HMac<Hash, 48>> h;
            std::string          out;
            Secret               was = c;
            Result r = obj::call_hooked("HMac(key)", [&] { h.emplace(std::move(k)); });
            if (r.threw) {
                SIM_CHECK(fault_fired() || c.st != LIVE, "secret-lost", "HMac from the only owner of a key failed: %s", r.what.c_str());
                c.st = fault_fired() && c.st == LIVE ? EITHER : fault_fired() ? c.st : EMPTY;
                return;
            }
            c.st = EMPTY;
            if (attempt(was, "HMac::hmac", [&] { auto a = h->hmac(std::string("q")); Unlib u; out = str(a); })) EQ(out, ref::hmac_blake2b(was.key, "q"), "HMac of a handed-over key");
        }
    }
    void step(const Op& op)
    {
        uint64_t x = op.a[2];
        switch (op.code) {
        case NEWKEY: if (op.a[1] % 4 == 0) newkey<48>(K48, op); else newkey<32>(K32, op); break;
        case BUILD: {
            Cell* c = find(op.a[0], [](const Cell& q) { return q.kind <= K48; });
            if (!c) break;
            if (c->kind == K48) add(build_any(static_cast<KeyHolder<48>&>(*c), unsigned(op.a[1]), x));
            else add(build_any(static_cast<KeyHolder<32>&>(*c), unsigned(op.a[1]), x));
            event("hand-over");
            break;
        }
        case CONSUME: {
            Cell* c = find(op.a[0], [](const Cell& q) { return q.kind <= K48; });
            if (!c) break;
            if (c->kind == K48) { auto& h = static_cast<KeyHolder<48>&>(*c); consume(h.s, *h.o, unsigned(op.a[1]), x); }
            else { auto& h = static_cast<KeyHolder<32>&>(*c); consume(h.s, *h.o, unsigned(op.a[1]), x); }
            event("consume");
            break;
        }
        case USE: {
            Cell* c = find(op.a[0], [](const Cell& q) { return q.kind > K48; });
            if (!c) break;
            if (c->kind == RC16 && op.a[3] % 4 == 0) { // a restricted key becomes a cell of its own
                auto& h = static_cast<Holder<RCPrf<16>>&>(*c);
                uint64_t lo = obj::leaf_in(x, c->s.min, c->s.max), hi = obj::leaf_in(x >> 5, lo, c->s.max);
                if (lo == 0 && hi == c->s.max) break;
                std::unique_ptr<Holder<ConstrainedRCPrf<16>>> n(new Holder<ConstrainedRCPrf<16>>(CR16));
                if (attempt(c->s, "constrain", [&] { n->o.emplace(h.o->constrain(lo, hi)); })) {
                    n->s = c->s;
                    n->s.min = lo; n->s.max = hi;
                    add(std::move(n));
                }
                break;
            }
            c->use(unsigned(op.a[1]), x);
            break;
        }
        case REPLACE: { // a computation (whose end may fail), then another object takes the place
            Cell* c = find(op.a[0], [](const Cell& q) { return q.kind > K48; });
            if (!c) break;
            c->use(unsigned(op.a[1]), x);
            if (fault_fired_kind(F_NOACCESS)) probe("replaced-after-failed-relock");
            Cell* d = nullptr;
            for (auto& q : cells) if (q->kind == c->kind && q.get() != c) d = q.get();
            if (!d) break;
            if (op.a[3] & 1) c->swap(*d); else c->assign(*d);
            event("move-assign");
            c->use(unsigned(op.a[1] >> 2), x >> 3);
            d->use(unsigned(op.a[1] >> 2), x >> 3);
            break;
        }
        case STEAL: { Cell* c = get(op.a[0]); if (c) { add(c->steal()); event("move"); } break; }
        case ASSIGN: case SWAP: {
            Cell* c = get(op.a[0]);
            if (!c) break;
            std::vector<Cell*> same;
            for (auto& q : cells) if (q->kind == c->kind) same.push_back(q.get());
            Cell* d = same[op.a[1] % same.size()];
            if (op.code == SWAP) c->swap(*d); else c->assign(*d);
            event(c == d ? "self-move" : op.code == SWAP ? "swap" : "move-assign");
            break;
        }
        case ERASE: {
            Cell* c = find(op.a[0], [](const Cell& q) { return q.kind <= K48; });
            if (!c) break;
            c->erase();
            if (op.a[1] & 1) c->erase();
            event("erase");
            break;
        }
        case DESTROY: if (!cells.empty()) { cells.erase(cells.begin() + long(op.a[0] % cells.size())); event("destroy"); } break;
        case WRAP: { Cell* c = find(op.a[0], [](const Cell& q) { return q.kind > K48; }); if (c) c->wrap(x); break; }
        case PUSH: { // a key moves into a growing vector
            Cell* c = find(op.a[0], [](const Cell& q) { return q.kind == K32; });
            if (!c || vec.size() > 12) break;
            auto& h = static_cast<KeyHolder<32>&>(*c);
            size_t at = op.a[1] % 3 == 0 ? 0 : op.a[1] % 3 == 1 ? vec.size() : op.a[1] % (vec.size() + 1);
            vec.insert(vec.begin() + long(at), std::move(*h.o));
            vs.insert(vs.begin() + long(at), h.s.leave());
            event("move");
            break;
        }
        case TAKE: {
            if (vec.empty()) break;
            size_t i = op.a[0] % vec.size();
            std::unique_ptr<KeyHolder<32>> n(new KeyHolder<32>(K32));
            n->o.emplace(std::move(vec[i]));
            n->s = vs[i].leave();
            if (op.a[1] & 1) { vec.erase(vec.begin() + long(i)); vs.erase(vs.begin() + long(i)); }
            add(std::move(n));
            event("move");
            break;
        }
        case SHUFFLE: {
            if (vec.empty()) break;
            size_t i = op.a[0] % vec.size(), j = op.a[1] % vec.size();
            switch (x % 5) {
            case 0: std::swap(vec[i], vec[j]); std::swap(vs[i], vs[j]); break;
            case 1: std::reverse(vec.begin(), vec.end()); std::reverse(vs.begin(), vs.end()); break;
            case 2: std::rotate(vec.begin(), vec.begin() + long(i), vec.end()); std::rotate(vs.begin(), vs.begin() + long(i), vs.end()); break;
            case 3: vec.erase(vec.begin() + long(i)); vs.erase(vs.begin() + long(i)); break;
            case 4: consume<32>(vs[i], vec[i], unsigned(op.a[3]), x >> 3); break;
            }
            event("swap");
            break;
        }
        }
    }
    uint64_t hash() const
    {
        uint64_t h = vec.size();
        for (auto& c : cells) h = mix(h, uint64_t(c->kind) * 4 + c->s.st);
        for (auto& c : vs) h = mix(h, 99 + c.st);
        return h;
    }
};
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    size_t before = live_protected_count();
    {
        Env   env;
        World w(plan);
        E = &env;
        env.hkey = rnd(plan.data_seed, 32);
        env.helper.reset(new Wrapper(mk<32>(env.hkey)));
        for (size_t i = 0; i < plan.ops.size(); i++) {
            begin_op(i);
            w.step(plan.ops[i]);
            end_op();
            state_seen(mix(w.hash(), plan.ops[i].code));
        }
        // every owner still works, everything else refuses; then all goes, in any order
        begin_op(plan.ops.size());
        Rng r(mix(plan.data_seed, 15));
        while (!w.cells.empty()) {
            size_t i = r.below(w.cells.size());
            Cell*  c = w.cells[i].get();
            if (c->kind == K48) { auto& h = static_cast<KeyHolder<48>&>(*c); w.consume(h.s, *h.o, 0, r.u64()); }
            else if (c->kind == K32) { auto& h = static_cast<KeyHolder<32>&>(*c); w.consume(h.s, *h.o, unsigned(r.below(11)), r.u64()); w.consume(h.s, *h.o, unsigned(r.below(11)), r.u64()); }
            else { c->use(unsigned(r.below(64)), r.u64()); c->use(unsigned(r.below(64)), r.u64()); }
            w.cells.erase(w.cells.begin() + long(i));
        }
        for (size_t i = 0; i < w.vec.size(); i++) w.consume<32>(w.vs[i], w.vec[i], unsigned(r.below(11)), r.u64());
        end_op();
    }
    SIM_CHECK(live_protected_count() == before, "orphan", "%zu protected key allocations are left although every owner was destroyed", live_protected_count() - before);
}
void gen(Rng& r, const GenCtx&, Plan& p)
{
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 4 + unsigned(r.below(34));
    unsigned fav = unsigned(r.below(16));
    static const uint8_t tab[] = {NEWKEY, NEWKEY, NEWKEY, BUILD, BUILD, BUILD, BUILD, CONSUME, CONSUME, USE, USE, USE, USE, USE, STEAL, STEAL, ASSIGN, ASSIGN, SWAP, ERASE, DESTROY, WRAP, WRAP, PUSH, PUSH, TAKE, SHUFFLE};
    // few kinds, many moves between objects of the same kind
    static const uint8_t few[] = {NEWKEY, NEWKEY, BUILD, BUILD, USE, USE, USE, ASSIGN, ASSIGN, SWAP, STEAL, REPLACE, REPLACE};
    bool focus = r.chance(1, 3);
    for (unsigned i = 0; i < n; i++) {
        Op o;
        o.code = i == 0 ? uint32_t(NEWKEY) : focus ? few[r.below(sizeof few)] : tab[r.below(sizeof tab)];
        o.a[0] = r.below(16);
        o.a[1] = r.below(64);
        o.a[2] = r.u64();
        o.a[3] = r.below(64);
        if (o.code == BUILD && (focus || r.chance(1, 2))) o.a[1] = fav;
        if (o.code == NEWKEY && focus) o.a[1] |= 1, o.a[3] |= 1;
        if ((o.code == ASSIGN || o.code == SWAP) && focus && r.chance(1, 2)) o.a[0] = r.below(2) ? 1 + r.below(4) * 2 : r.below(16);
        if (o.code == REPLACE && r.chance(1, 2)) p.faults.push_back({i, F_NOACCESS, uint32_t(r.below(3)), 1});
        p.ops.push_back(o);
    }
}
Scenario S{"C15", {"new-key", "build", "consume", "use", "move", "move-assign", "swap", "erase", "destroy", "wrap", "vector-insert", "vector-take", "vector-shuffle", "use-replace-use"}, obj::setup, gen, run, 350};
} // namespace
Scenario* sim::g_scenario = &S;
