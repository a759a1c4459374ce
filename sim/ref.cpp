#include "ref.hpp"
#include <cstring>
#include <sodium.h>
#include <gmpxx.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/core_names.h>
extern "C" {
#include "ref_aez.h"
}

namespace ref {
static const unsigned char* u(const std::string& s) { return reinterpret_cast<const unsigned char*>(s.data()); }
static unsigned char*       u(std::string& s) { return reinterpret_cast<unsigned char*>(&s[0]); }

std::string blake2b(const std::string& m)
{
    std::string o(64, 0);
    crypto_generichash_blake2b(u(o), 64, u(m), m.size(), nullptr, 0);
    return o;
}
std::string sha512(const std::string& m)
{
    std::string o(64, 0);
    crypto_hash_sha512(u(o), u(m), m.size());
    return o;
}
template<class H> static std::string hmac(H h, std::string key, const std::string& m)
{
    key.resize(128, 0);
    std::string i = key, o = key;
    for (auto& c : i) c = char(c ^ 0x36);
    for (auto& c : o) c = char(c ^ 0x5c);
    return h(o + h(i + m));
}
std::string hmac_blake2b(const std::string& key, const std::string& m) { return hmac(blake2b, key, m); }
std::string hmac_sha512(const std::string& key, const std::string& m) { return hmac(sha512, key, m); }
std::string prf(const std::string& key, size_t n, const std::string& m)
{
    if (n <= 64) return hmac_blake2b(key, m).substr(0, n);
    std::string out;
    for (unsigned i = 0; out.size() < n; i++) out += hmac_blake2b(key, m + char(i));
    out.resize(n);
    return out;
}
std::string prg(const std::string& key, uint64_t offset, size_t len)
{
    static const unsigned char nonce[8] = {0};
    std::string                out;
    out.reserve(len + 64);
    uint64_t block = offset / 64;
    size_t   skip  = size_t(offset % 64);
    while (out.size() < len) {
        unsigned char z[64] = {0}, b[64];
        crypto_stream_chacha20_xor_ic(b, z, 64, nonce, block, u(key));
        out.append(reinterpret_cast<char*>(b) + skip, 64 - skip);
        skip = 0;
        block++;
    }
    out.resize(len);
    return out;
}

std::string subkey(const std::string& key, const std::string& nonce)
{
    unsigned char personal[16] = {0};
    memcpy(personal, "encryption_key", 14);
    std::string o(32, 0);
    crypto_generichash_blake2b_salt_personal(u(o), 32, nullptr, 0, u(key), 32, u(nonce), personal);
    return o;
}
std::string cipher_encrypt(const std::string& key, const std::string& nonce, const std::string& m)
{
    std::string        k = subkey(key, nonce), c(m.size() + 16, 0);
    unsigned long long l = 0;
    crypto_aead_chacha20poly1305_ietf_encrypt(u(c), &l, u(m), m.size(), nullptr, 0, nullptr, u(nonce), u(k));
    return nonce + c;
}
bool cipher_decrypt(const std::string& key, const std::string& c, std::string& m)
{
    if (c.size() < 32) return false;
    std::string        k = subkey(key, c.substr(0, 16));
    unsigned long long l = 0;
    m.assign(c.size() - 32, 0);
    unsigned char dummy;
    return crypto_aead_chacha20poly1305_ietf_decrypt(m.empty() ? &dummy : u(m), &l, nullptr, u(c) + 16, c.size() - 16, nullptr, 0, u(c), u(k)) == 0;
}
std::string cipher_keystream_plain(const std::string& key, const std::string& c)
{
    if (c.size() <= 32) return std::string();
    std::string k = subkey(key, c.substr(0, 16)), m(c.size() - 32, 0);
    crypto_stream_chacha20_ietf_xor_ic(u(m), u(c) + 16, m.size(), u(c), 1U, u(k));
    return m;
}

std::string wrap_blob(const std::string& key, uint8_t type, const std::string& ctx, const std::string& ser, const std::string& iv)
{
    std::string tk  = prf(key, 32, std::string(1, 1));
    std::string ek  = prf(key, 32, std::string(1, 2));
    std::string tag = prf(tk, 12, iv + char(type) + ctx + ser);
    std::string c(ser.size(), 0);
    crypto_stream_chacha20_ietf_xor(u(c), u(ser), ser.size(), u(tag), u(ek));
    return iv + c + tag;
}
std::string wrap_retag(const std::string& key, const std::string& blob, const std::string& tag)
{
    std::string m = unwrap_raw(key, blob), ek = prf(key, 32, std::string(1, 2)), c(m.size(), 0);
    crypto_stream_chacha20_ietf_xor(u(c), u(m), m.size(), u(tag), u(ek));
    return blob.substr(0, 16) + c + tag;
}
std::string unwrap_raw(const std::string& key, const std::string& blob)
{
    if (blob.size() < 28) return std::string();
    std::string ek  = prf(key, 32, std::string(1, 2));
    std::string tag = blob.substr(blob.size() - 12);
    std::string c   = blob.substr(16, blob.size() - 28), m(c.size(), 0);
    crypto_stream_chacha20_ietf_xor(u(m), u(c), c.size(), u(tag), u(ek));
    return m;
}

std::string rcprf(const std::string& key, unsigned height, uint64_t leaf, size_t n)
{
    std::string k = key;
    for (unsigned h = height; h > 2; h--) { // subtree of height h: leaves indexed with h-1 bits
        unsigned child = unsigned((leaf >> (h - 2)) & 1);
        k              = prg(k, child * 32, 32);
    }
    unsigned child = height == 1 ? 0 : unsigned(leaf & 1);
    return prg(k, child * n, n);
}

std::vector<std::string> rcprf_path(const std::string& key, unsigned height, uint64_t leaf)
{
    std::vector<std::string> v;
    std::string              k = key;
    for (unsigned h = height; h > 2; h--) {
        k = prg(k, unsigned((leaf >> (h - 2)) & 1) * 32, 32);
        v.push_back(k);
    }
    return v;
}

std::string aez(const std::string& key, const std::string& in, bool enc)
{
    alignas(16) ref_aez_ctx_t ctx;
    ref_aez_setup(reinterpret_cast<unsigned char*>(const_cast<char*>(key.data())), 48, &ctx);
    char        iv[16] = {0};
    std::string src    = in + std::string(64, 0), out(in.size() + 64, 0);
    if (enc) ref_aez_encrypt(&ctx, iv, 16, 0, src.data(), unsigned(in.size()), &out[0]);
    else ref_aez_decrypt(&ctx, iv, 16, 0, src.data(), unsigned(in.size()), &out[0]);
    out.resize(in.size());
    return out;
}

struct Rsa
{
    mpz_class n, e, d, p, q, phi;
};
static std::vector<Rsa>& rsas()
{
    static std::vector<Rsa> v;
    return v;
}
static bool param(EVP_PKEY* k, const char* name, mpz_class& out)
{
    BIGNUM* b = nullptr;
    if (!EVP_PKEY_get_bn_param(k, name, &b)) return false;
    std::string s(size_t(BN_num_bytes(b)), 0);
    BN_bn2bin(b, u(s));
    mpz_import(out.get_mpz_t(), s.size(), 1, 1, 1, 0, s.data());
    BN_clear_free(b);
    return true;
}
static int load(const std::string& pem, bool priv)
{
    BIO*      bio = BIO_new_mem_buf(pem.data(), int(pem.size()));
    EVP_PKEY* k   = priv ? PEM_read_bio_PrivateKey(bio, nullptr, nullptr, nullptr) : PEM_read_bio_PUBKEY(bio, nullptr, nullptr, nullptr);
    BIO_free(bio);
    if (!k) return -1;
    Rsa  r;
    bool ok = param(k, OSSL_PKEY_PARAM_RSA_N, r.n) && param(k, OSSL_PKEY_PARAM_RSA_E, r.e);
    if (priv) ok = ok && param(k, OSSL_PKEY_PARAM_RSA_D, r.d) && param(k, OSSL_PKEY_PARAM_RSA_FACTOR1, r.p) && param(k, OSSL_PKEY_PARAM_RSA_FACTOR2, r.q);
    EVP_PKEY_free(k);
    if (!ok) return -1;
    if (priv) r.phi = (r.p - 1) * (r.q - 1);
    rsas().push_back(r);
    return int(rsas().size()) - 1;
}
int rsa_load(const std::string& pem) { return load(pem, true); }
int rsa_load_pub(const std::string& pem) { return load(pem, false); }
bool rsa_same_private(int a, int b)
{
    const Rsa &x = rsas()[size_t(a)], &y = rsas()[size_t(b)];
    return x.n == y.n && x.e == y.e && x.d == y.d && ((x.p == y.p && x.q == y.q) || (x.p == y.q && x.q == y.p));
}
bool rsa_same_public(int a, int b)
{
    const Rsa &x = rsas()[size_t(a)], &y = rsas()[size_t(b)];
    return x.n == y.n && x.e == y.e;
}
static mpz_class num(const std::string& x)
{
    mpz_class v;
    mpz_import(v.get_mpz_t(), x.size(), 1, 1, 1, 0, x.data());
    return v;
}
static std::string str(const mpz_class& v)
{
    std::string o(256, 0);
    size_t      n = (mpz_sizeinbase(v.get_mpz_t(), 2) + 7) / 8;
    if (v == 0) return o;
    if (n > 256) return std::string();
    mpz_export(&o[256 - n], nullptr, 1, 1, 1, 0, v.get_mpz_t());
    return o;
}
static mpz_class powm(const mpz_class& b, const mpz_class& e, const mpz_class& m)
{
    mpz_class r;
    mpz_powm(r.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), m.get_mpz_t());
    return r;
}
std::string rsa_eval(int h, const std::string& x, uint64_t n)
{
    const Rsa& r = rsas()[size_t(h)];
    mpz_class  v = num(x) % r.n;
    if (r.phi != 0) return str(powm(v, powm(r.e, mpz_class(static_cast<unsigned long>(n)), r.phi), r.n));
    for (uint64_t i = 0; i < n; i++) v = powm(v, r.e, r.n);
    return str(v);
}
std::string rsa_invert(int h, const std::string& x, uint64_t n)
{
    const Rsa& r = rsas()[size_t(h)];
    return str(powm(num(x) % r.n, powm(r.d, mpz_class(static_cast<unsigned long>(n)), r.phi), r.n));
}
std::string rsa_reduce(int h, const std::string& x) { mpz_class v = num(x) % rsas()[size_t(h)].n; return str(v); }
bool        rsa_is_element(int h, const std::string& x) { return x.size() == 256 && num(x) < rsas()[size_t(h)].n; }
std::string rsa_modulus(int h) { return str(rsas()[size_t(h)].n); }
std::vector<std::string> rsa_secrets(int h)
{
    const Rsa& r = rsas()[size_t(h)];
    mpz_class  qp, p1 = r.p - 1, q1 = r.q - 1, dp = r.d % p1, dq = r.d % q1;
    mpz_invert(qp.get_mpz_t(), r.q.get_mpz_t(), r.p.get_mpz_t());
    std::vector<std::string> v;
    for (const mpz_class* x : std::vector<const mpz_class*>{&r.d, &r.p, &r.q, &dp, &dq, &qp}) {
        std::string s = str(*x);
        v.push_back(s.substr(std::min(s.find_first_not_of('\0'), s.size())));
    }
    return v;
}
bool        rsa_pool_ok(int h, unsigned n)
{
    mpz_class v;
    mpz_pow_ui(v.get_mpz_t(), rsas()[size_t(h)].e.get_mpz_t(), n);
    return v < rsas()[size_t(h)].n;
}
bool        rsa_consistent(int h)
{
    const Rsa& r = rsas()[size_t(h)];
    mpz_class  l;
    mpz_class  p1 = r.p - 1, q1 = r.q - 1;
    mpz_lcm(l.get_mpz_t(), p1.get_mpz_t(), q1.get_mpz_t());
    return r.n == r.p * r.q && mpz_probab_prime_p(r.p.get_mpz_t(), 20) && mpz_probab_prime_p(r.q.get_mpz_t(), 20) && (r.e * r.d) % l == 1;
}
} // namespace ref
