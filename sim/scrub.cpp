// Calls into libsodium. It is not instrumented: in the race-detecting variant the memory a call reads and writes on
// the library's behalf is reported here.
//
// libsodium leaves copies of keys in its own dead stack frames. Those are not the library's doing: when
// the stack is searched for secrets, the frames of libsodium calls are wiped as soon as they return.
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <sodium.h>
namespace sim {
bool g_scrub = false;
__attribute__((noinline)) void scrub_dead_stack()
{
    volatile char b[24576];
    memset(const_cast<char*>(b), 0x5C, sizeof b);
    asm volatile("" : : "r"(b) : "memory");
}
} // namespace sim
#define ULL unsigned long long
#ifdef SIM_TSAN
extern "C" void __tsan_read_range(void*, unsigned long);
extern "C" void __tsan_write_range(void*, unsigned long);
static inline void R(const void* p, size_t n) { if (p && n) __tsan_read_range(const_cast<void*>(p), n); }
static inline void M(void* p, size_t n) { if (p && n) __tsan_write_range(p, n); }
#else
static inline void R(const void*, size_t) {}
static inline void M(void*, size_t) {}
#endif
#define W(name, params, args, touched)                                                             \
    extern "C" int __real_##name params;                                                           \
    extern "C" int __wrap_##name params                                                            \
    {                                                                                              \
        touched;                                                                                   \
        int r = __real_##name args;                                                                \
        if (sim::g_scrub) sim::scrub_dead_stack();                                                 \
        return r;                                                                                  \
    }
typedef unsigned char       u8;
typedef const unsigned char cu8;
W(crypto_stream_chacha20_xor_ic, (u8 * c, cu8* m, ULL l, cu8* n, uint64_t ic, cu8* k), (c, m, l, n, ic, k), (M(c, l), R(m, l), R(n, 8), R(k, 32)))
W(crypto_stream_chacha20_xor, (u8 * c, cu8* m, ULL l, cu8* n, cu8* k), (c, m, l, n, k), (M(c, l), R(m, l), R(n, 8), R(k, 32)))
W(crypto_stream_chacha20, (u8 * c, ULL l, cu8* n, cu8* k), (c, l, n, k), (M(c, l), R(n, 8), R(k, 32)))
W(crypto_stream_chacha20_ietf_xor_ic, (u8 * c, cu8* m, ULL l, cu8* n, uint32_t ic, cu8* k), (c, m, l, n, ic, k), (M(c, l), R(m, l), R(n, 12), R(k, 32)))
W(crypto_stream_chacha20_ietf_xor, (u8 * c, cu8* m, ULL l, cu8* n, cu8* k), (c, m, l, n, k), (M(c, l), R(m, l), R(n, 12), R(k, 32)))
W(crypto_stream_chacha20_ietf, (u8 * c, ULL l, cu8* n, cu8* k), (c, l, n, k), (M(c, l), R(n, 12), R(k, 32)))
W(crypto_generichash_blake2b, (u8 * o, size_t ol, cu8* i, ULL il, cu8* k, size_t kl), (o, ol, i, il, k, kl), (M(o, ol), R(i, il), R(k, kl)))
W(crypto_generichash, (u8 * o, size_t ol, cu8* i, ULL il, cu8* k, size_t kl), (o, ol, i, il, k, kl), (M(o, ol), R(i, il), R(k, kl)))
W(crypto_generichash_blake2b_salt_personal, (u8 * o, size_t ol, cu8* i, ULL il, cu8* k, size_t kl, cu8* s, cu8* p), (o, ol, i, il, k, kl, s, p), (M(o, ol), R(i, il), R(k, kl), R(s, 16), R(p, 16)))
W(crypto_generichash_blake2b_init, (crypto_generichash_blake2b_state * st, cu8* k, const size_t kl, const size_t ol), (st, k, kl, ol), (M(st, sizeof *st), R(k, kl)))
W(crypto_generichash_blake2b_init_salt_personal, (crypto_generichash_blake2b_state * st, cu8* k, const size_t kl, const size_t ol, cu8* s, cu8* p), (st, k, kl, ol, s, p), (M(st, sizeof *st), R(k, kl), R(s, 16), R(p, 16)))
W(crypto_generichash_blake2b_update, (crypto_generichash_blake2b_state * st, cu8* i, ULL l), (st, i, l), (M(st, sizeof *st), R(i, l)))
W(crypto_generichash_blake2b_final, (crypto_generichash_blake2b_state * st, u8* o, const size_t l), (st, o, l), (M(st, sizeof *st), M(o, l)))
W(crypto_generichash_init, (crypto_generichash_state * st, cu8* k, const size_t kl, const size_t ol), (st, k, kl, ol), (M(st, sizeof *st), R(k, kl)))
W(crypto_generichash_update, (crypto_generichash_state * st, cu8* i, ULL l), (st, i, l), (M(st, sizeof *st), R(i, l)))
W(crypto_generichash_final, (crypto_generichash_state * st, u8* o, const size_t l), (st, o, l), (M(st, sizeof *st), M(o, l)))
W(crypto_hash_sha512, (u8 * o, cu8* i, ULL l), (o, i, l), (M(o, 64), R(i, l)))
W(crypto_hash_sha512_init, (crypto_hash_sha512_state * st), (st), M(st, sizeof *st))
W(crypto_hash_sha512_update, (crypto_hash_sha512_state * st, cu8* i, ULL l), (st, i, l), (M(st, sizeof *st), R(i, l)))
W(crypto_hash_sha512_final, (crypto_hash_sha512_state * st, u8* o), (st, o), (M(st, sizeof *st), M(o, 64)))
W(crypto_aead_chacha20poly1305_ietf_encrypt, (u8 * c, ULL* cl, cu8* m, ULL ml, cu8* ad, ULL al, cu8* ns, cu8* n, cu8* k), (c, cl, m, ml, ad, al, ns, n, k), (M(c, ml + 16), M(cl, 8), R(m, ml), R(n, 12), R(k, 32)))
W(crypto_aead_chacha20poly1305_ietf_decrypt, (u8 * m, ULL* ml, u8* ns, cu8* c, ULL cl, cu8* ad, ULL al, cu8* n, cu8* k), (m, ml, ns, c, cl, ad, al, n, k), (M(m, cl < 16 ? 0 : cl - 16), M(ml, 8), R(c, cl), R(n, 12), R(k, 32)))
W(crypto_aead_chacha20poly1305_ietf_encrypt_detached, (u8 * c, u8* t, ULL* tl, cu8* m, ULL ml, cu8* ad, ULL al, cu8* ns, cu8* n, cu8* k), (c, t, tl, m, ml, ad, al, ns, n, k), (M(c, ml), M(t, 16), R(m, ml), R(n, 12), R(k, 32)))
W(crypto_aead_chacha20poly1305_ietf_decrypt_detached, (u8 * m, u8* ns, cu8* c, ULL cl, cu8* t, cu8* ad, ULL al, cu8* n, cu8* k), (m, ns, c, cl, t, ad, al, n, k), (M(m, cl), R(c, cl), R(t, 16), R(n, 12), R(k, 32)))
W(crypto_core_ed25519_add, (u8 * o, cu8* p, cu8* q), (o, p, q), (M(o, 32), R(p, 32), R(q, 32)))
W(crypto_core_ed25519_sub, (u8 * o, cu8* p, cu8* q), (o, p, q), (M(o, 32), R(p, 32), R(q, 32)))
W(crypto_core_ed25519_from_uniform, (u8 * o, cu8* p), (o, p), (M(o, 32), R(p, 32)))
extern "C" void __real_sodium_memzero(void* const, const size_t);
extern "C" void __wrap_sodium_memzero(void* const p, const size_t n)
{
    M(p, n);
    __real_sodium_memzero(p, n);
}
