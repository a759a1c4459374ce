// C14: key files and saved set hashes go through storage that tears, truncates, flips, extends, loses
// or replaces them; whatever is loaded is refused or is a working object of the key it exports.
#include "world.hpp"
#include <gmpxx.h>
#include <sodium.h>
#include <sse/crypto/set_hash.hpp>
using namespace zoo;
namespace {
enum { SAVE, CONVERT, DAMAGE, DER, CRAFT, OTHERSIZE, LOAD, WRONGTYPE, RESTART, HASHLOAD, ARBITRARY, NOPS };

// ------------------------------------------------------------------ PEM and DER, written for the check
const char kSkName[] = "RSA PRIVATE KEY", kP8Name[] = "PRIVATE KEY", kPkName[] = "PUBLIC KEY";
std::string b64(const std::string& d)
{
    static const char t[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string       o;
    for (size_t i = 0; i < d.size(); i += 3) {
        unsigned v = unsigned(uint8_t(d[i])) << 16 | (i + 1 < d.size() ? unsigned(uint8_t(d[i + 1])) << 8 : 0) | (i + 2 < d.size() ? unsigned(uint8_t(d[i + 2])) : 0);
        o += t[v >> 18]; o += t[v >> 12 & 63];
        o += i + 1 < d.size() ? t[v >> 6 & 63] : '=';
        o += i + 2 < d.size() ? t[v & 63] : '=';
    }
    return o;
}
std::string pem(const std::string& der, const char* name, unsigned width = 64, const char* nl = "\n")
{
    std::string b = b64(der), o = std::string("-----BEGIN ") + name + "-----" + nl;
    for (size_t i = 0; i < b.size(); i += width) o += b.substr(i, width) + nl;
    return o + "-----END " + name + "-----" + nl;
}
bool unpem(const std::string& s, std::string& der)
{
    size_t a = s.find('\n'), e = s.find("-----END");
    if (s.compare(0, 11, "-----BEGIN ") != 0 || a == std::string::npos || e == std::string::npos || e < a) return false;
    unsigned v = 0, n = 0;
    for (size_t i = a; i < e; i++) {
        char c = s[i];
        int  x = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
        if (x < 0) continue;
        v = v << 6 | unsigned(x);
        if (++n % 4 != 1) { unsigned sh = 6 - 2 * ((n - 1) % 4); der += char(v >> sh & 255); }
    }
    return true;
}
std::string tlv(uint8_t tag, const std::string& v)
{
    std::string o(1, char(tag));
    if (v.size() < 128) o += char(v.size());
    else if (v.size() < 256) { o += char(0x81); o += char(v.size()); }
    else if (v.size() < 65536) { o += char(0x82); o += char(v.size() >> 8); o += char(v.size()); }
    else { o += char(0x83); o += char(v.size() >> 16); o += char(v.size() >> 8); o += char(v.size()); }
    return o + v;
}
bool take(const std::string& d, size_t& pos, uint8_t tag, std::string& v)
{
    if (pos + 2 > d.size() || uint8_t(d[pos]) != tag) return false;
    size_t l = uint8_t(d[pos + 1]);
    pos += 2;
    if (l & 128) {
        size_t k = l & 127;
        if (k == 0 || k > 3 || pos + k > d.size()) return false;
        for (l = 0; k; k--) l = l << 8 | uint8_t(d[pos++]);
    }
    if (pos + l > d.size()) return false;
    v = d.substr(pos, l);
    pos += l;
    return true;
}
std::string bytes(const mpz_class& v)
{
    std::string o((mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8, 0);
    if (v == 0) return std::string(1, 0);
    mpz_export(&o[0], nullptr, 1, 1, 1, 0, v.get_mpz_t());
    return o;
}
std::string integer(const mpz_class& v)
{
    std::string b = bytes(v);
    return uint8_t(b[0]) & 128 ? std::string(1, 0) + b : b;
}
mpz_class num(const std::string& s)
{
    mpz_class v;
    mpz_import(v.get_mpz_t(), s.size(), 1, 1, 1, 0, s.data());
    return v;
}
typedef std::vector<std::string> Fields; // contents of the integers of a key
const std::string kAlg("\x30\x0d\x06\x09\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01\x05\x00", 15);
std::string seq(const Fields& f) { std::string b; for (auto& x : f) b += tlv(2, x); return tlv(0x30, b); }
std::string pkcs8(const std::string& d) { return tlv(0x30, tlv(2, std::string(1, 0)) + kAlg + tlv(4, d)); }
std::string spki(const std::string& d) { return tlv(0x30, kAlg + tlv(3, std::string(1, 0) + d)); }
bool unseq(const std::string& d, Fields& f)
{
    size_t      p = 0;
    std::string b, v;
    if (!take(d, p, 0x30, b) || p != d.size()) return false;
    for (p = 0; p < b.size();) { if (!take(b, p, 2, v)) return false; f.push_back(v); }
    return true;
}
bool unspki(const std::string& d, Fields& f)
{
    size_t      p = 0;
    std::string b, v;
    if (!take(d, p, 0x30, b) || b.compare(0, 15, kAlg) != 0) return false;
    p = 15;
    return take(b, p, 3, v) && !v.empty() && unseq(v.substr(1), f);
}
struct Rsa { mpz_class n, e, d, p, q; };
Fields fields(const Rsa& k)
{
    mpz_class p1 = k.p - 1, q1 = k.q - 1, qp;
    mpz_invert(qp.get_mpz_t(), k.q.get_mpz_t(), k.p.get_mpz_t());
    return {std::string(1, 0), integer(k.n), integer(k.e), integer(k.d), integer(k.p), integer(k.q), integer(k.d % p1), integer(k.d % q1), integer(qp)};
}
bool parse_sk(const std::string& text, Rsa& k)
{
    std::string d;
    Fields      f;
    if (!unpem(text, d) || !unseq(d, f) || f.size() != 9) return false;
    k = {num(f[1]), num(f[2]), num(f[3]), num(f[4]), num(f[5])};
    return f == fields(k); // also the derived components
}
bool parse_pk(const std::string& text, Rsa& k)
{
    std::string d;
    Fields      f;
    if (!unpem(text, d) || !unspki(d, f) || f.size() != 2) return false;
    k = {num(f[0]), num(f[1]), 0, 0, 0};
    return f == Fields{integer(k.n), integer(k.e)};
}
mpz_class powm(const mpz_class& b, const mpz_class& e, const mpz_class& m)
{
    mpz_class r;
    mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
    return r;
}
std::string el(const mpz_class& v)
{
    std::string b = v == 0 ? std::string() : bytes(v);
    return b.size() > kM ? std::string() : std::string(kM - b.size(), 0) + b;
}
bool prime(const mpz_class& v) { return mpz_probab_prime_p(v.get_mpz_t(), 12) != 0; }

// ------------------------------------------------------------------ the simulated disk
struct File
{
    bool        priv{false};
    int         key{0};   // which stored key pair it was made from
    bool        own{true}; // as the library writes it
    bool        intact{true};
    std::string text;
};
std::vector<Rsa> g_keys;            // the stored key pairs
std::set<std::string> g_factors;    // products of known primes
int count() { return int(g_keys.size()); }

// ------------------------------------------------------------------ what a loaded object must satisfy
void check_public_values(const Rsa& k, const char* what)
{
    SIM_CHECK(bytes(k.n).size() == kM, "bad-key-accepted", "%s: a modulus of %zu bytes was accepted", what, bytes(k.n).size());
    SIM_CHECK(mpz_odd_p(k.n.get_mpz_t()) && mpz_odd_p(k.e.get_mpz_t()) && k.e > 1 && k.e < k.n, "bad-key-accepted", "%s: a modulus or exponent which cannot be one was accepted", what);
}
std::string some_element(const Rsa& k, uint64_t s)
{
    switch (s % 5) {
    case 0: return el(mpz_class(k.n - 1 - mpz_class((unsigned long)(s >> 8) % 9)));
    case 1: return el(mpz_class((unsigned long)(s >> 8) % 9));
    default: return el(num(rnd(s, kM)) % k.n);
    }
}
template<class T> void verify_common(T& o, const Rsa& k, uint64_t s, const char* what)
{
    std::string x = some_element(k, s), y;
    if (ok("evaluation by a loaded object", [&] { y = o.eval(x); })) EQ(y, el(powm(num(x), k.e, k.n)), what);
    std::array<uint8_t, kM> a, b;
    std::string z = rnd(mix(s, 1), kM); // possibly above the modulus
    memcpy(a.data(), z.data(), kM);
    if (ok("evaluation by a loaded object", [&] { b = o.eval(a); })) EQ(str(b), el(powm(num(z) % k.n, k.e, k.n)), what);
    if (ok("sampling by a loaded object", [&] { y = o.sample(); })) SIM_CHECK(y.size() == kM && num(y) < k.n, "wrong-value", "a loaded object samples outside of its domain");
}
void verify(Tdp& o, uint64_t s, const char* what, Rsa* out, std::string* exported)
{
    std::string e, e2;
    Rsa         k;
    if (!ok("export of a loaded public key", [&] { e = o.public_key(); })) return;
    SIM_CHECK(parse_pk(e, k), "bad-key-accepted", "%s: the loaded public key is exported as something else", what);
    check_public_values(k, what);
    verify_common(o, k, s, "a loaded Tdp against its exported key");
    std::unique_ptr<Tdp> again;
    if (ok("reload of the export of a loaded public key", [&] { again.reset(new Tdp(e)); }) && ok("export of a reloaded public key", [&] { e2 = again->public_key(); })) EQ(e2, e, "export of a reloaded public key");
    *out      = k;
    *exported = e;
}
void verify(TdpMultPool& o, unsigned size, uint64_t s, const char* what, Rsa* out, std::string* exported)
{
    std::string e;
    Rsa         k;
    if (!ok("export of a loaded public key", [&] { e = o.public_key(); })) return;
    SIM_CHECK(parse_pk(e, k), "bad-key-accepted", "%s: the loaded public key is exported as something else", what);
    check_public_values(k, what);
    verify_common(o, k, s, "a loaded TdpMultPool against its exported key");
    SIM_CHECK(o.maximum_order() == size, "wrong-value", "a loaded pool has another size");
    unsigned    n = (s >> 30) & 1 ? size : 1 + unsigned(s >> 32) % size;
    mpz_class   x = num(some_element(k, mix(s, 7))), v = x;
    std::string y;
    for (unsigned i = 0; i < n; i++) v = powm(v, k.e, k.n);
    if (ok("pool evaluation by a loaded object", [&] { y = o.eval(el(x), uint8_t(n)); })) EQ(y, el(v), "a loaded TdpMultPool against repeated evaluation");
    *out      = k;
    *exported = e;
}
void verify(TdpInverse& o, uint64_t s, const char* what, Rsa* out, std::string* exported)
{
    std::string e, pe, e2;
    Rsa         k, pk;
    if (!ok("export of a loaded private key", [&] { e = o.private_key(); }) || !ok("export of the public part of a loaded private key", [&] { pe = o.public_key(); })) return;
    SIM_CHECK(parse_sk(e, k) && parse_pk(pe, pk), "bad-key-accepted", "%s: the loaded private key is exported as something else, or its components do not belong together", what);
    SIM_CHECK(pk.n == k.n && pk.e == k.e, "bad-key-accepted", "%s: private and public part of a loaded key differ", what);
    check_public_values(k, what);
    mpz_class p1 = k.p - 1, q1 = k.q - 1, l;
    mpz_lcm(l.get_mpz_t(), p1.get_mpz_t(), q1.get_mpz_t());
    SIM_CHECK(k.p * k.q == k.n && k.d * k.e % l == 1, "bad-key-accepted", "%s: a private key was accepted whose components do not belong together", what);
    if (!g_factors.count(bytes(k.n))) SIM_CHECK(prime(k.p) && prime(k.q), "bad-key-accepted", "%s: a private key was accepted whose factors are not prime", what);
    verify_common(o, k, s, "a loaded TdpInverse against its exported key");
    mpz_class   x = num(some_element(k, mix(s, 3)));
    std::string y;
    if (ok("inversion by a loaded object", [&] { y = o.invert(el(x)); })) EQ(y, el(powm(x, k.d, k.n)), "inversion by a loaded key");
    std::array<uint8_t, kM> a, b;
    memcpy(a.data(), el(x).data(), kM);
    if (ok("inversion by a loaded object", [&] { b = o.invert(a); })) EQ(str(b), el(powm(x, k.d, k.n)), "inversion by a loaded key");
    unsigned  n = 1 + unsigned(s >> 40) % 5;
    mpz_class v = x;
    for (unsigned i = 0; i < n; i++) v = powm(v, k.d, k.n);
    if (ok("multiple inversion by a loaded object", [&] { y = o.invert_mult(el(x), n); })) EQ(y, el(v), "multiple inversion by a loaded key");
    std::unique_ptr<TdpInverse> again;
    if (ok("reload of the export of a loaded private key", [&] { again.reset(new TdpInverse(e)); }) && ok("export of a reloaded private key", [&] { e2 = again->private_key(); })) EQ(e2, e, "export of a reloaded private key");
    *out      = k;
    *exported = e;
}
// loads the file; `must`: it is known to be good and has to load
void load(const File& f, bool as_priv, bool pool, uint64_t s, bool must, bool mustnot)
{
    std::string tight(f.text.data(), f.text.size()); // no spare bytes behind it
    Rsa         k;
    std::string e;
    auto        loading = [&](const char* what, const obj::Fn& fn) {
        if (mustnot) { refused(what, fn); return false; }
        if (must) return ok(what, fn);
        Result r = obj::call_hooked(what, fn);
        if (obj::g_after) obj::g_after();
        if (r.threw) probe("refused");
        return !r.threw;
    };
    if (as_priv) {
        std::unique_ptr<TdpInverse> o;
        if (!loading("load of a private key file", [&] { o.reset(new TdpInverse(tight)); })) return;
        verify(*o, s, "private key file", &k, &e);
    } else if (pool) {
        unsigned                     n = (s >> 20) % 4 == 0 ? 1 : 1 + unsigned(s >> 22) % 20;
        if (must) while (n > 1) { mpz_class v; mpz_pow_ui(v.get_mpz_t(), g_keys[size_t(f.key)].e.get_mpz_t(), n); if (v < g_keys[size_t(f.key)].n) break; n--; }
        std::unique_ptr<TdpMultPool> o;
        if (!loading("load of a public key file into a pool", [&] { o.reset(new TdpMultPool(tight, uint8_t(n))); })) return;
        verify(*o, n, s, "public key file", &k, &e);
    } else {
        std::unique_ptr<Tdp> o;
        if (!loading("load of a public key file", [&] { o.reset(new Tdp(tight)); })) return;
        verify(*o, s, "public key file", &k, &e);
    }
    if (e.empty()) return;
    probe(f.intact ? "loaded" : "damaged-but-loaded");
    if (must) {
        const Rsa& w = g_keys[size_t(f.key)];
        SIM_CHECK(k.n == w.n && k.e == w.e && (!as_priv || (k.d == w.d && k.p == w.p && k.q == w.q)), "wrong-value", "an undamaged key file was loaded as another key");
        if (f.own) EQ(e, f.text, "re-export of an undamaged key file");
    }
}
void damage_text(File& f, const File& other, uint64_t kind, uint64_t a, uint64_t b, uint64_t c)
{
    std::string& t   = f.text;
    auto         at  = [&](uint64_t v) { return t.empty() ? 0 : size_t(v % t.size()); };
    size_t       pos = at(a);
    if (c % 5 == 0) pos = at(t.size() - 1 - a % 40); // near the end
    if (c % 5 == 1) pos = at(a % 60);                // near the start
    switch (kind % 14) {
    case 0: t.resize(pos); event("truncated"); break;
    case 1: if (!t.empty()) t[pos] = char(t[pos] ^ (1 << b % 8)); event("flip-bit"); break;
    case 2: { static const char sp[] = "=A/+ \r\n\t-\0z\x7f\x80\xff_"; if (!t.empty()) t[pos] = (b & 1) ? sp[(b >> 1) % (sizeof sp - 1)] : char(b >> 1); event("replaced-byte"); break; }
    case 3: t.erase(pos, 1 + b % (b & 256 ? 4 : 70)); event("lost-range"); break;
    case 4: { std::string x = (b & 3) == 0 ? std::string(1 + (b >> 2) % 3, '=') : (b & 3) == 1 ? std::string(1 + (b >> 2) % 3, "\r\n \0"[(b >> 8) % 4]) : (b & 3) == 2 ? rnd(b, 1 + (b >> 2) % 80) : b64(rnd(b, 3)); t.insert(pos, x); event("inserted-range"); break; }
    case 5: t += (b & 3) == 0 ? other.text : (b & 3) == 1 ? rnd(b, 1 + (b >> 2) % 600) : (b & 3) == 2 ? std::string(1 + (b >> 2) % 600, 0) : std::string(1 + (b >> 2) % 600, "\n A="[(b >> 12) % 4]); event("extended"); break;
    case 6: { size_t k = std::min(pos, other.text.size()); t = t.substr(0, k) + other.text.substr(k); event("torn-write"); break; } // part of another version behind this one
    case 7: { size_t k = std::min(pos, other.text.size()); t = other.text.substr(0, k) + (k < t.size() ? t.substr(k) : std::string()); event("torn-write"); break; }
    case 8: { size_t sec = 64u << (b % 4), k = pos / sec * sec; for (size_t i = k; i < k + sec && i < t.size(); i++) t[i] = (b & 16) ? 0 : char(0xff); event("lost-sector"); break; }
    case 9: { size_t sec = 16u << (b % 5), k = pos / sec * sec; std::string s = t.substr(k, sec); t.insert(k, s); event("duplicated-range"); break; }
    case 10: { size_t sec = 65, i = pos / sec * sec, j = at(b) / sec * sec; std::string x = t.substr(i, sec), y = t.substr(j, sec); if (x.size() == y.size()) { t.replace(i, sec, y); t.replace(j, sec, x); } event("swapped-lines"); break; }
    case 11: { std::string x = (b & 1) ? rnd(b, 1 + (b >> 4) % 100) : other.text; t = x + t; event("text-in-front"); break; }
    case 12: { // header or footer of another kind
        const char* n[] = {kSkName, kP8Name, kPkName, "ENCRYPTED PRIVATE KEY", "EC PRIVATE KEY", ""};
        std::string d;
        if (unpem(t, d)) t = pem(d, n[b % 6]);
        event("other-header");
        break;
    }
    case 13: { // PEM attributes
        size_t k = t.find('\n');
        static const char* h[] = {"Proc-Type: 4,ENCRYPTED\nDEK-Info: AES-128-CBC,00112233445566778899AABBCCDDEEFF\n\n", "Proc-Type: 4,ENCRYPTED\n", "Proc-Type: 4,ENCRYPTED\nDEK-Info: DES-EDE3-CBC,00", "Comment: x\n\n", "\n\n"};
        if (k != std::string::npos) t.insert(k + 1, h[b % 5]);
        event("pem-attributes");
        break;
    }
    }
    f.intact = f.own = false;
}
std::string odd_number(const std::string& v, const std::string& foreign, uint64_t b)
{
    mpz_class x = num(v);
    switch (b % 16) {
    case 0: return std::string();
    case 1: return std::string(1, 0);
    case 2: return std::string(1, char(1 + (b >> 8) % 4));
    case 3: return integer(x + 1 + mpz_class((unsigned long)(b >> 8) % 3));
    case 4: return x > 4 ? integer(x - 1 - mpz_class((unsigned long)(b >> 8) % 3)) : v;
    case 5: return foreign;
    case 6: return std::string(1 + (b >> 8) % 9, 0) + v;                                   // leading zeros
    case 7: return v + rnd(b, 1 + (b >> 8) % 9);                                           // longer
    case 8: return v.substr(0, v.size() - std::min(v.size(), size_t(1 + (b >> 8) % 9)));  // shorter
    case 9: return v.substr(std::min(v.size(), size_t(1 + (b >> 8) % 9)));
    case 10: return rnd(b, v.size());
    case 11: { std::string y = v; if (!y.empty()) y[(b >> 8) % y.size()] = char(y[(b >> 8) % y.size()] ^ (1 << (b >> 24) % 8)); return y; }
    case 12: return std::string(v.size(), '\xff');
    case 13: return integer(x * 2);
    case 14: return (b >> 8) & 1 ? rnd(b, 1 + (b >> 9) % 1200) : v + std::string((b >> 9) % 300, 0);
    default: { std::string y = v; if (!y.empty()) y[0] = char(y[0] ^ 0x80); return y; }
    }
}
void damage_der(File& f, const File& other, uint64_t kind, uint64_t a, uint64_t b)
{
    std::string d, o;
    if (!unpem(f.text, d) || d.empty()) return;
    if (!unpem(other.text, o)) o = d;
    const char* name = f.priv ? kSkName : kPkName;
    switch (kind % 8) {
    case 0: d[a % d.size()] = char(d[a % d.size()] ^ (1 << b % 8)); event("flip-bit-in-der"); break;
    case 1: d.resize(a % d.size()); event("truncated-der"); break;
    case 2: d += (b & 1) ? rnd(b, 1 + (b >> 1) % 40) : std::string(1 + (b >> 1) % 40, 0); event("extended-der"); break;
    case 3: case 4: { // one component is another number
        Fields x, y;
        bool   p8 = false;
        if (f.priv) { if (!unseq(d, x)) break; unseq(o, y); } else { if (!unspki(d, x)) break; unspki(o, y); }
        if (x.empty()) break;
        size_t i = a % x.size();
        x[i]     = odd_number(x[i], y.size() == x.size() ? y[(a >> 32) & 1 ? i : (a >> 33) % y.size()] : x[i], b);
        if ((a >> 40) % 4 == 0) { size_t j = (a >> 44) % x.size(); x[j] = odd_number(x[j], x[(j + 1) % x.size()], mix(b, 1)); }
        d = f.priv ? (p8 ? pkcs8(seq(x)) : seq(x)) : spki(seq(x));
        event("changed-component");
        break;
    }
    case 5: { // components missing, added or in another order
        Fields x;
        if (f.priv ? !unseq(d, x) : !unspki(d, x)) break;
        if (x.empty()) break;
        switch (b % 3) {
        case 0: x.erase(x.begin() + long(a % x.size())); break;
        case 1: x.insert(x.begin() + long(a % (x.size() + 1)), x[(a >> 32) % x.size()]); break;
        default: std::swap(x[a % x.size()], x[(a >> 32) % x.size()]); break;
        }
        d = f.priv ? seq(x) : spki(seq(x));
        event("rearranged-components");
        break;
    }
    case 6: { // a length that lies
        std::vector<size_t> at; // positions of length bytes
        for (size_t i = 0; i + 1 < d.size(); i++) if (uint8_t(d[i]) == 0x30 || uint8_t(d[i]) == 2 || uint8_t(d[i]) == 3 || uint8_t(d[i]) == 6 || uint8_t(d[i]) == 5) { at.push_back(i + 1); if (at.size() > 12) break; }
        if (at.empty()) break;
        static const uint8_t v[] = {0, 1, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0xff};
        size_t k = at[a % at.size()];
        switch (b % 4) {
        case 0: d[k] = char(v[(b >> 4) % sizeof v]); break;
        case 1: d[k] = char(uint8_t(d[k]) + ((b >> 4) & 1 ? 1 : -1)); break;
        case 2: d.replace(k, 1, std::string("\x84\xff\xff\xff\xff", 5)); break;
        default: d.replace(k, 1, std::string("\x84\x00\x00", 3) + char(b >> 8) + char(b >> 16)); break;
        }
        event("lying-length");
        break;
    }
    default: { size_t k = std::min(size_t(a % d.size()), o.size()); d = (b & 1) ? d.substr(0, k) + o.substr(k) : o.substr(0, k) + d.substr(k); event("torn-der"); break; }
    }
    switch (b >> 60) {
    case 0: f.text = d; event("raw-der"); break;
    case 1: f.text = f.priv ? pem(pkcs8(d), kP8Name) : pem(d, name); break;
    default: f.text = pem(d, name); break;
    }
    f.intact = f.own = false;
}
// a key whose numbers were chosen; damaged unless said otherwise
void craft(File& f, uint64_t kind, uint64_t a)
{
    Rsa       k = g_keys[size_t(f.key)];
    mpz_class p1 = k.p - 1, q1 = k.q - 1, l;
    mpz_lcm(l.get_mpz_t(), p1.get_mpz_t(), q1.get_mpz_t());
    switch (kind % 9) {
    case 0: std::swap(k.p, k.q); break;
    case 1: k.d += l * mpz_class((unsigned long)a % 5); break;
    case 2: { mpz_class e = mpz_class((unsigned long)(3 + (a % 1000) * 2)), g, d; mpz_gcd(g.get_mpz_t(), e.get_mpz_t(), l.get_mpz_t()); if (g != 1) return; mpz_invert(d.get_mpz_t(), e.get_mpz_t(), l.get_mpz_t()); k.e = e; k.d = d; break; }
    case 3: { mpz_class e = (num(rnd(a, 1 + (a >> 8) % 255)) % k.n) | 1, g, d; mpz_gcd(g.get_mpz_t(), e.get_mpz_t(), l.get_mpz_t()); if (g != 1) return; mpz_invert(d.get_mpz_t(), e.get_mpz_t(), l.get_mpz_t()); k.e = e; k.d = d; break; } // a huge public exponent
    case 4: k.e = 1; k.d = 1; break;
    case 5: k.p = k.n; k.q = 1; break;
    case 6: k.e += l; break;
    case 7: k.n += 1; break;
    case 8: k.p = 2; k.q = k.n / 2; k.n = k.p * k.q; break;
    }
    Fields x;
    if (f.priv) {
        if (k.q == 1 || k.p == 1) { x = fields(g_keys[size_t(f.key)]); x[4] = integer(k.p); x[5] = integer(k.q); if (a & 1) { x[6] = integer(0); x[7] = integer(0); x[8] = integer(1); } }
        else x = fields(k);
    } else x = {integer(k.n), integer(k.e)};
    f.text   = f.priv ? pem(seq(x), kSkName) : pem(spki(seq(x)), kPkName);
    f.intact = f.own = false;
    event("chosen-components");
}

typedef std::array<uint8_t, 32> Bytes;
void hash_load(uint64_t a, uint64_t b, uint64_t c)
{
    std::vector<std::string> in, in2;
    for (unsigned i = 0; i < a % 5; i++) in.push_back(bytes_of(mix(a, i), (a >> (8 + i)) % 40));
    for (unsigned i = 0; i < b % 5; i++) in2.push_back(bytes_of(mix(b, i), (b >> (8 + i)) % 40));
    Bytes f, g;
    if (!ok("SetHash", [&] { SetHash h(in), h2(in2); f = h.data(); g = h2.data(); })) return;
    Bytes orig = f;
    static const char* small[] = {
        "0000000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000080",
        "0100000000000000000000000000000000000000000000000000000000000080", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
        "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85"};
    auto unhex = [](const char* s) { Bytes q; for (int k = 0; k < 32; k++) { unsigned v; sscanf(s + 2 * k, "%2x", &v); q[size_t(k)] = uint8_t(v); } return q; };
    switch (c % 9) {
    case 0: break; // undamaged
    case 1: f[b % 32] = uint8_t(f[b % 32] ^ (1 << (b >> 8) % 8)); event("flip-bit"); break;
    case 2: { std::string r = rnd(b, 32); memcpy(f.data(), r.data(), 32); event("arbitrary-bytes"); break; }
    case 3: f = unhex(small[b % 12]); event("small-order"); break;
    case 4: { Bytes t = unhex(small[8 + b % 4]), u; if (crypto_core_ed25519_add(u.data(), f.data(), t.data()) == 0) f = u; event("outside-subgroup"); break; }
    case 5: { for (size_t j = (b >> 8) % 33; j < 32; j++) f[j] = g[j]; event("torn-write"); break; }
    case 6: { for (size_t j = b % 33; j < 32; j++) f[j] = 0; event("truncated"); break; }
    case 7: { f = unhex(small[5 + b % 3]); f[0] = uint8_t(0xed + (b >> 8) % 19); f[31] = uint8_t(f[31] ^ ((b >> 16) & 0x80)); event("non-canonical"); break; }
    case 8: { f[31] ^= 0x80; event("other-sign"); break; }
    }
    static const Bytes kZero{{1}};
    bool good = f == kZero || crypto_core_ed25519_is_valid_point(f.data()) == 1;
    std::unique_ptr<SetHash> s;
    if (f == orig) { if (!ok("load of an undamaged set hash", [&] { s.reset(new SetHash(f)); })) return; }
    else {
        Result r = call([&] { s.reset(new SetHash(f)); });
        if (r.threw) { probe("refused-hash"); return; }
        SIM_CHECK(good, "invalid-accepted", "bytes %s, which are no set hash, were accepted", hex(f.data(), 32).c_str());
    }
    SIM_CHECK(Bytes(s->data()) == f, "wrong-value", "a loaded set hash has other bytes");
    std::string x = bytes_of(mix(a, 9), 12);
    Bytes       after, sum;
    if (!ok("update of a loaded set hash", [&] { s->add_element(x); })) return;
    sum = s->data();
    SIM_CHECK(sum != f, "wrong-value", "adding to a loaded set hash has no effect");
    if (!ok("update of a loaded set hash", [&] { s->remove_element(x); })) return;
    after = s->data();
    SIM_CHECK(after == f, "wrong-value", "adding and removing an element changes a loaded set hash");
    probe("loaded-hash");
}

// random structures out of the elements a key is made of, cut anywhere
std::string grammar(Rng& r, unsigned depth)
{
    static const uint8_t tags[] = {0x30, 0x30, 0x02, 0x02, 0x03, 0x04, 0x05, 0x06};
    std::string          o;
    for (unsigned n = unsigned(r.below(4)); n; n--) {
        switch (r.below(6)) {
        case 0: o += kAlg; break;
        case 1: o += tlv(2, std::string(r.below(3), 0)); break;
        default: o += tlv(tags[r.below(sizeof tags)], depth ? grammar(r, depth - 1) : rnd(r.u64(), r.below(5))); break;
        }
    }
    if (r.chance(1, 6)) o.resize(r.below(o.size() + 1));
    return o;
}
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    std::vector<File> disk;
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        File* f = disk.empty() ? nullptr : &disk[op.a[0] % disk.size()];
        auto  other = [&]() -> const File& { return disk[op.a[1] % disk.size()]; };
        switch (op.code) {
        case SAVE: { // a key pair is stored by the library
            File n;
            n.key  = int(op.a[1] % unsigned(count()));
            n.priv = op.a[2] & 1;
            std::string sk = kRsa2048[n.key].sk, pk = kRsa2048[n.key].pk;
            if (op.a[2] & 2) n.text = n.priv ? sk : pk; // by another process
            else if (n.priv || (op.a[2] & 4)) { std::unique_ptr<TdpInverse> o; if (!ok("TdpInverse(key)", [&] { o.reset(new TdpInverse(sk)); }) || !ok("export", [&] { n.text = n.priv ? o->private_key() : o->public_key(); })) break; }
            else { std::unique_ptr<Tdp> o; if (!ok("Tdp(key)", [&] { o.reset(new Tdp(pk)); }) || !ok("export", [&] { n.text = o->public_key(); })) break; }
            EQ(n.text, n.priv ? sk : pk, "export of an undamaged key file");
            disk.push_back(n);
            if (disk.size() > 6) disk.erase(disk.begin());
            break;
        }
        case CONVERT: { // the same key in another accepted format
            if (!f || !f->intact) break;
            std::string d;
            if (!unpem(f->text, d)) break;
            switch (op.a[2] % 3) {
            case 0: f->text = f->priv ? pem(pkcs8(d), kP8Name) : f->text; break;
            case 1: f->text += std::string(1 + op.a[3] % 3, '\n'); break;
            default: f->text = "some text in front\n" + f->text; break;
            }
            f->own = f->intact = false; // accepted today; not promised
            event("other-format");
            break;
        }
        case DAMAGE: if (f) damage_text(*f, other(), op.a[2], op.a[3], op.a[4], op.a[5]); break;
        case DER: if (f) damage_der(*f, other(), op.a[2], op.a[3], op.a[4]); break;
        case CRAFT: if (f) craft(*f, op.a[2], op.a[3]); break;
        case OTHERSIZE: { // keys of other sizes, and a slightly smaller modulus of the right length
            File n;
            n.priv   = op.a[2] & 1;
            n.intact = n.own = false;
            auto& k  = kRsaOther[op.a[1] % (sizeof kRsaOther / sizeof *kRsaOther)];
            n.text   = n.priv ? k.sk : k.pk;
            event("other-size");
            disk.push_back(n);
            if (disk.size() > 6) disk.erase(disk.begin());
            load(n, n.priv, op.a[3] & 1, op.a[4], false, false);
            break;
        }
        case LOAD: if (f) load(*f, f->priv, op.a[3] & 1, op.a[4], f->intact, false); break;
        case WRONGTYPE: if (f && f->intact) { load(*f, !f->priv, op.a[3] & 1, op.a[4], false, true); event("wrong-type"); } break;
        case RESTART: event("crash-restart"); for (auto& x : disk) load(x, x.priv, false, op.a[4], x.intact, false); break;
        case HASHLOAD: hash_load(op.a[1], op.a[2], op.a[3]); break;
        case ARBITRARY: {
            File n;
            n.priv   = op.a[2] & 1;
            n.intact = n.own = false;
            std::string body = rnd(op.a[3], op.a[4] % 400);
            if (op.a[2] & 2) body = tlv(0x30, body);
            if (op.a[2] & 48) { Rng r(op.a[3]); body = grammar(r, 3); if (op.a[2] & 64) body = tlv(0x30, body); }
            n.text   = (op.a[2] & 12) == 0 ? body : (op.a[2] & 12) == 4 ? pem(body, n.priv ? kSkName : kPkName) : (op.a[2] & 12) == 8 ? pem(n.priv ? pkcs8(body) : spki(body), n.priv ? kP8Name : kPkName) : "-----BEGIN " + std::string(n.priv ? kSkName : kPkName) + "-----" + body + "-----END " + (n.priv ? kSkName : kPkName) + "-----";
            event("arbitrary-bytes");
            load(n, n.priv, op.a[3] & 1, op.a[4], false, false);
            break;
        }
        }
        end_op();
        uint64_t h = op.code;
        for (auto& x : disk) h = mix(h, (x.priv ? 1u : 0u) + (x.intact ? 2u : 0u) + unsigned(x.key) * 4);
        state_seen(mix(h, op.a[2] % 14));
    }
    begin_op(plan.ops.size());
    for (auto& x : disk) if (x.intact) load(x, x.priv, false, 77, true, false);
    end_op();
}
void gen(Rng& r, const GenCtx&, Plan& p)
{
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 2 + unsigned(r.below(8));
    unsigned style = unsigned(r.below(4));
    for (unsigned i = 0; i < n; i++) {
        Op o;
        for (auto& a : o.a) a = r.u64();
        static const uint8_t tab[] = {SAVE, SAVE, SAVE, DAMAGE, DAMAGE, DER, DER, DER, CRAFT, OTHERSIZE, LOAD, LOAD, WRONGTYPE, RESTART, HASHLOAD, ARBITRARY, ARBITRARY, CONVERT};
        o.code = i < 1 ? uint32_t(SAVE) : tab[r.below(sizeof tab)];
        if (style == 0 && i > 0) o.code = i % 2 ? (r.chance(1, 2) ? uint32_t(DER) : uint32_t(DAMAGE)) : uint32_t(LOAD); // one key, repeatedly damaged and loaded
        if (style == 1 && i > 0 && r.chance(2, 3)) o.code = r.chance(1, 2) ? uint32_t(HASHLOAD) : uint32_t(ARBITRARY);
        p.ops.push_back(o);
        if ((o.code == DAMAGE || o.code == DER || o.code == CRAFT || o.code == CONVERT) && r.chance(3, 4)) { // loaded straight away
            Op l = o;
            l.code = LOAD;
            p.ops.push_back(l);
        }
    }
}
void setup()
{
    obj::setup();
    for (auto& k : kRsa2048) {
        Rsa x;
        if (!parse_sk(k.sk, x)) fail("harness", "stored key does not parse");
        g_keys.push_back(x);
        g_factors.insert(bytes(x.n));
    }
}
Scenario S{"C14", {"save", "other-format", "damage", "damage-der", "chosen-components", "other-size", "load", "wrong-type", "crash-restart", "load-set-hash", "arbitrary-bytes"}, setup, gen, run, 150, 6000000000ULL};
} // namespace
Scenario* sim::g_scenario = &S;
