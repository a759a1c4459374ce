// Reference peer: the published constructions, written independently of the library's code on top of
// the raw primitives of libsodium and GMP.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>

namespace ref {
std::string blake2b(const std::string& m);                              // 64 bytes
std::string sha512(const std::string& m);
std::string hmac_blake2b(const std::string& key, const std::string& m); // 64 bytes
std::string hmac_sha512(const std::string& key, const std::string& m);
std::string prf(const std::string& key32, size_t nbytes, const std::string& m);
std::string prg(const std::string& key32, uint64_t offset, size_t len);

std::string cipher_encrypt(const std::string& key32, const std::string& nonce16, const std::string& m);
std::string subkey(const std::string& key32, const std::string& nonce16); // per-message key of the cipher
bool        cipher_decrypt(const std::string& key32, const std::string& c, std::string& m); // false: refused
std::string cipher_keystream_plain(const std::string& key32, const std::string& c);         // unauthenticated decryption

enum Kind : uint8_t { K_CIPHER = 1, K_PRF = 2, K_PRG = 3, K_PRP = 4, K_RCPRF = 5, K_CRCPRF = 6, K_TDP = 7 };
std::string wrap_blob(const std::string& key32, uint8_t type_byte, const std::string& ctx, const std::string& ser, const std::string& iv16);
// the same object and IV under a tag of the caller's choosing (a forger who has the key)
std::string wrap_retag(const std::string& key32, const std::string& blob, const std::string& tag12);
// opens a blob without knowing its type; returns the serialization (unauthenticated)
std::string unwrap_raw(const std::string& key32, const std::string& blob);

std::string rcprf(const std::string& key32, unsigned height, uint64_t leaf, size_t nbytes);

std::vector<std::string> rcprf_path(const std::string& key32, unsigned height, uint64_t leaf); // node keys below the root

std::string aez(const std::string& key48, const std::string& in, bool enc);

// RSA trapdoor permutation
int         rsa_load(const std::string& sk_pem);            // handle, or -1
int         rsa_load_pub(const std::string& pk_pem);        // handle without private part, or -1
bool        rsa_same_private(int h, int g);                 // all components agree
bool        rsa_same_public(int h, int g);
std::string rsa_eval(int h, const std::string& x, uint64_t n);   // n-fold
std::string rsa_invert(int h, const std::string& x, uint64_t n); // n-fold
std::string rsa_reduce(int h, const std::string& x);             // big-endian bytes mod N, 256 bytes
bool        rsa_is_element(int h, const std::string& x);         // 256 bytes, below N
std::string rsa_modulus(int h);
std::vector<std::string> rsa_secrets(int h);                      // private components, big-endian
bool        rsa_pool_ok(int h, unsigned n);                       // e^n < N
bool        rsa_consistent(int h); // n = pq, p and q prime, ed = 1 mod lcm(p-1, q-1)
} // namespace ref
