#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))
I = "src/include/sse/crypto/"

p("C01", "Encrypted messages survive any channel or are refused",
  "Whatever the network or storage between two holders of the same encryption key does (drop, duplicate, reorder, delay, truncate, extend, splice, flip bits, redirect to another key, restart of either side), a receiver accepts a ciphertext only if it is byte-for-byte one that a holder of that key produced, and then recovers exactly the original plaintext; everything else is refused with an exception and no plaintext byte is released into the caller's output. "
  "Every honest ciphertext is exactly 32 bytes longer than its plaintext and can be decrypted by any later instance of the same key, on any library build (memory locking on or off), through either the string or the fixed-size-array interface. "
  "An empty message and a too-short ciphertext are refused by the string interface.",
  ["inputs", "histories", "fault_sequences", "crash_points", "configurations"],
  "all keys, plaintext lengths and contents, all sequences of send/deliver/corrupt/restart events, both build configurations",
  "The tests encrypt a few dozen short strings and flip one byte; they never interleave several keys and peers, never restart a peer, never truncate/splice, and have no independent peer, so an encoding that only agrees with itself passes.",
  ["src/cipher.cpp", I + "cipher.hpp"],
  [("per-message subkey from key and 16-byte nonce, then AEAD over the whole message", "src/cipher.cpp encrypt/decrypt"),
   ("length checks of the string interface", "src/cipher.cpp")],
  ["Cipher::encrypt/decrypt (string and array)", "Wrapper::wrap/unwrap of a Cipher (restart)"])

p("C02", "Fresh randomness is never reused or thinned out",
  "Every message nonce, every wrapping IV, every randomly generated key and every sampled trapdoor-permutation element is drawn in full from the system random generator at the moment of the call: no two in any history are equal (across objects, bursts, failed calls in between, restarts from the same key, and moves), and every generator byte requested for it affects it (at least 16 bytes for nonces and IVs, the full key length for keys). "
  "This holds in every supported build configuration, including builds without memory locking.",
  ["histories", "configurations", "crash_points", "fault_sequences"],
  "all histories of key generation, encryption, wrapping and sampling, with restarts and injected failures between them; memory locking on and off",
  "Tests compare at most two outputs and run one build configuration against the real generator, so counters that restart, cached nonces, truncated entropy or an uninitialised key in the other configuration are invisible.",
  ["src/random.cpp", I + "random.hpp", I + "key.hpp", "src/cipher.cpp", I + "wrapper.hpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/prp.cpp"],
  [("random_bytes on every draw", "src/random.cpp"), ("random key constructor", I + "key.hpp"), ("nonce/IV generation", "src/cipher.cpp, wrapper.hpp"), ("TDP sampling", "tdp_impl_mbedtls.cpp sample_array")],
  ["randombytes implementation seam of libsodium", "first bytes of ciphertexts and wrapped blobs", "behaviour of default-constructed keys"])

p("C03", "A wrapped object comes back functionally identical",
  "Any wrappable object (cipher, PRF of any output size, PRG, PRP, range-constrained PRF master or constrained key, trapdoor permutation private key) wrapped in any reachable state, and unwrapped later under the same wrapping key by a fresh process or another build configuration, behaves on every input exactly like the original, however many wrap/restart generations and other operations happened in between. "
  "Wrapping leaves the original usable and unchanged; the blob is exactly 28 bytes longer than the object's serialization; a successful unwrap erases the blob it was given.",
  ["histories", "inputs", "crash_points", "configurations"],
  "all object kinds and states, all interleavings of use, wrap, crash/restart and unwrap, over several generations",
  "Tests wrap one freshly created object per class once, in one process, and compare a handful of outputs; they do not chain generations, wrap after use, or check other builds or an independent reader of the format.",
  [I + "wrapper.hpp", "src/wrapper.cpp", I + "rcprf.hpp", I + "prf.hpp", "src/prg.cpp", "src/prp.cpp", "src/cipher.cpp", "src/tdp.cpp"],
  [("serialize/deserialize of each class", "each class"), ("SIV encoding", I + "wrapper.hpp wrap/unwrap")],
  ["Wrapper::wrap/unwrap and the public operations of the restored object"])

p("C04", "A wrapped blob only opens as what was wrapped, under the same key",
  "Unwrapping succeeds only for a blob that is byte-for-byte one produced under the same wrapping key for the same kind of object with the same public parameters: any bit flip, truncation, extension, torn or spliced write, another wrapping key, another object kind (including a constrained key presented as a master key or vice versa) or another output size is refused with an exception. "
  "A refused unwrap leaves the caller's blob untouched, and both the blob and the wrapper can still be used successfully afterwards.",
  ["inputs", "histories", "fault_sequences"],
  "all blobs, all storage corruptions, all pairs of object kinds and output sizes, any number of refused attempts in between",
  "The tests flip bytes of one blob per class and never try a blob of one class as another, so type or parameter confusion, or damage done by a refused attempt, is not exercised.",
  [I + "wrapper.hpp"],
  [("type byte and public context bound into the tag", I + "wrapper.hpp"), ("constant-time tag comparison before deserialization", I + "wrapper.hpp unwrap"), ("blob zeroed only on success", I + "wrapper.hpp unwrap")],
  ["Wrapper::unwrap results and exceptions", "content of the caller's buffer afterwards"])

p("C05", "Secret keys are inaccessible whenever no call is running",
  "With memory locking enabled, between any two library calls no symmetric key held by a live object (key, PRF, HMAC, PRG, PRP, cipher, wrapper, range-constrained PRF) is readable in the process's memory, whether the previous calls returned or threw, for whatever reason (bad argument, refused ciphertext, failed allocation, failed protection change on another object), and whichever overload was used. "
  "The only exception is a key whose own re-protection the operating system refused, and that key is protected again by its next successful use.",
  ["histories", "fault_sequences", "inputs"],
  "all call sequences over all key-holding classes including failing calls, with faults injected at every allocation and protection call",
  "Tests only check the lock flag of bare keys after construction; no test looks at page protection after operations, let alone after an exception.",
  [I + "key.hpp", I + "hmac.hpp", "src/cipher.cpp", "src/prg.cpp", "src/prp.cpp", I + "wrapper.hpp", I + "rcprf.hpp"],
  [("unlock/lock pairs around each use", "all key-holding classes"), ("locked on construction", I + "key.hpp")],
  ["kernel page protection of every protected allocation", "content of every heap block the library allocated"])

p("C06", "Secrets are erased and protected memory is given back",
  "Constructing a key from a caller's buffer leaves that buffer all zero; consuming a key empties it; and when any call ends, normally or by exception, no temporary copy of a secret key remains in memory the library released, and every protected or heap allocation it made is either owned by a live object or released. "
  "When the last object is destroyed, or explicitly erased, no allocation remains.",
  ["histories", "fault_sequences"],
  "all call sequences, with an allocation or protection failure injected at any point of any call",
  "Leaks and unwiped copies have no functional effect, and the tests never make an allocation or protection call fail, so error paths are never run.",
  [I + "key.hpp", I + "hmac.hpp", I + "prf.hpp", "src/prg.cpp", I + "prg.hpp", I + "wrapper.hpp", "src/cipher.cpp", "src/prp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"],
  [("sodium_free/sodium_memzero on every path", "all classes")],
  ["allocator seam (every allocation and release with its content)", "caller's buffers"])

p("C07", "A resource failure is reported, never silently wrong",
  "If any single or repeated memory allocation or memory-protection request fails during any call on any class (symmetric or trapdoor permutation), the call either completes with the correct result or throws a standard exception: it never crashes, terminates, hangs, or returns a wrong value. "
  "Every object involved stays usable: once failures stop, the very same operation and all others succeed with correct results, and a platform that does not support page protection at all behaves identically.",
  ["fault_sequences", "histories", "inputs"],
  "every call of every class, every allocation/protection request inside it failing, in any combination and at any point of a history",
  "No test injects a failure; the error branches are explicitly excluded from coverage in the code.",
  [I + "key.hpp", I + "hmac.hpp", I + "prf.hpp", I + "prg.hpp", "src/prg.cpp", I + "rcprf.hpp", I + "wrapper.hpp", "src/prp.cpp", "src/cipher.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/mbedtls/bignum.c", "src/mbedtls/rsa.c"],
  [("null checks and exceptions", "all classes"), ("return codes of the big-number layer", "src/tdp_impl, src/mbedtls")],
  ["results and exceptions of every call compared with a reference"])

p("C08", "Threads using different objects never disturb each other",
  "If each thread only uses objects no other thread is using, every call returns exactly what it would return had that thread run alone, under every interleaving of the threads' instructions, including interleavings inside library calls and calls that fail. "
  "No library call writes memory that another thread's call on different objects can read or write without synchronisation.",
  ["schedules", "histories"],
  "all interleavings (at memory-access granularity) of threads running any mix of operations on disjoint objects",
  "All tests are single-threaded.",
  ["src/"],
  [("no mutable global or static state in operations", "whole library")],
  ["results of each thread against its solo run", "data-race detection under the controlled schedule"])

p("C09", "A delegated range key reveals exactly its range",
  "For every master key, tree height and chain of range restrictions, the constrained key evaluates every leaf of its range (one by one and by range enumeration, in increasing order, each leaf once) to the master's value, refuses every leaf or range outside it, and can be restricted again to any sub-range but never widened; a key reassembled from its pieces, given in any order, is the same key, and each piece taken alone obeys the same rules for its own part; the same holds after wrapping, restart and unwrapping, and the material it carries can derive no value outside its range. "
  "The master evaluates exactly the leaves of its tree, every leaf to a distinct pseudorandom value fixed by key, height, leaf index and output size, and invalid leaves, inverted ranges and invalid heights are refused with an exception.",
  ["inputs", "histories", "configurations"],
  "all heights (2 to 64; others are refused), leaf indices up to the last one, ranges, restriction chains, output sizes, restarts in between",
  "Tests use one small fixed depth and the full nesting of a few ranges; boundary heights, deep trees, aliasing leaf indices, chains across restarts and inverted ranges are not covered.",
  [I + "rcprf.hpp", "src/rcprf.cpp"],
  [("binary-tree derivation", I + "rcprf.hpp derive_leaf, generate_constrained_subkeys_from_node"), ("range checks", I + "rcprf.hpp eval/eval_range/constrain")],
  ["RCPrf and ConstrainedRCPrf public operations"])

p("C10", "Set hashes converge exactly when the multisets agree",
  "Replicas that apply additions and removals of elements and of whole sets, in any order, batching, duplication and interleaving, with their state saved and reloaded at any point, have equal set hashes if and only if they represent the same multiset with integer multiplicities; removing what was added restores the previous hash exactly, and the hash of a multiset is one fixed value, the same in every process and build. "
  "A saved hash reloads to an equal object, and bytes that are not a valid hash state are refused.",
  ["histories", "inputs", "schedules", "crash_points"],
  "all update histories over several replicas with reordering, duplication, merge, crash and reload from saved bytes",
  "Tests cover a few fixed orders on one object and never reload from bytes mid-history, use negative multiplicities or merge replicas.",
  ["src/set_hash.cpp", I + "set_hash.hpp"],
  [("commutative group operation on encoded points", "src/set_hash.cpp"), ("point validation on load", "src/set_hash.cpp")],
  ["data(), ==, !=, constructors"])

p("C11", "The trapdoor permutation and its inverse always agree",
  "For every key pair, inversion undoes evaluation and evaluation undoes inversion on every element; inverting n times at once equals inverting n times in sequence, and a pool evaluation of order n equals n single evaluations, for every supported n; string and array interfaces, copies, assignments, re-imported and unwrapped keys, and both directions of the public and private object all agree, whatever operations, failures or exports happened before. "
  "Sampled and generated elements are valid elements below the modulus and generation depends only on key and seed; inputs of a wrong size, orders out of range, and invalid pool sizes are refused with an exception.",
  ["inputs", "histories", "crash_points", "fault_sequences"],
  "all key pairs, elements, orders, copies and histories of operations (the private object caches blinding and reduction state across calls)",
  "Tests check short fixed sequences on fresh objects; the cached state across long mixed histories, failures, copies and boundary orders/elements is not reached.",
  ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/mbedtls/rsa.c", "src/mbedtls/bignum.c", I + "tdp.hpp"],
  [("CRT private operation with blinding", "src/mbedtls/rsa.c mbedtls_rsa_private"), ("batched inversion", "tdp_impl_mbedtls.cpp invert_mult"), ("precomputed exponents", "TdpMultPoolImpl_mbedTLS")],
  ["Tdp, TdpInverse and TdpMultPool public operations"])

p("C12", "Derived values depend only on the key and the arguments",
  "Every keyed derivation (PRF and HMAC outputs of any size and derived keys; PRG output at any offset and length, single and multiple derived keys, static and member forms; hashes) is a fixed function of key and arguments: the same whichever overload computes it, on whichever object instance, after whatever history of other calls, failed calls, moves, wraps and restarts, in every build configuration and equal to the published construction. "
  "Overlapping or adjacent requests are consistent slices of one stream, and derived keys are exactly the corresponding slice.",
  ["histories", "inputs", "configurations", "fault_sequences", "crash_points"],
  "all keys, inputs, lengths, offsets (including very large ones), overloads and histories, with injected failures and restarts in between",
  "Tests compare two overloads on fresh objects for a few sizes; state carried across calls or failures, block boundaries and huge offsets are not covered.",
  [I + "prf.hpp", I + "hmac.hpp", "src/hash.cpp", "src/hash/blake2b.cpp", "src/hash/sha512.cpp", "src/prg.cpp", I + "prg.hpp"],
  [("HMAC over BLAKE2b with counter extension", I + "prf.hpp"), ("ChaCha20 keystream with block jump", "src/prg.cpp prg_derivation")],
  ["Prf::prf/derive_key, HMac::hmac, Prg::derive*, Hash::hash"])

p("C13", "The format-preserving permutation is a stable bijection",
  "For every key and every length, decryption undoes encryption and encryption undoes decryption with no length change, on every overload (buffers including in place, strings, 32- and 64-bit integers), and the mapping is the same for every object built from that key, before and after any history of calls, wrapping, restart, and in every build configuration. "
  "On a processor without the required instructions every operation is refused with an exception and no output is produced, and the library recovers when re-initialised on a capable one.",
  ["inputs", "histories", "crash_points", "configurations"],
  "all keys, lengths, contents and histories; processor capability as a configuration",
  "Tests round-trip a few random strings and integers on a fresh object; short and boundary lengths, in-place use, persistence of the mapping and missing hardware support are not covered.",
  ["src/prp.cpp", I + "prp.hpp", "src/aez/aez.c", "src/utils.cpp"],
  [("AEZ enciphering with a fixed tweak", "src/prp.cpp, src/aez/aez.c"), ("capability check", "src/prp.cpp is_available")],
  ["Prp::encrypt*/decrypt*", "sodium_runtime_has_* seam"])

p("C14", "Damaged key files are refused or harmless",
  "Loading a stored private or public trapdoor key or a stored set hash that storage truncated, tore between two versions, bit-flipped, extended or replaced by arbitrary bytes or by a key of another size never crashes or hangs and never reads outside the given bytes: it is refused with an exception, or it yields an object that satisfies all guarantees of a valid one (a loaded private key inverts exactly, and a loaded object re-exports to the key it uses; keys composed on purpose from non-prime factors are not covered). "
  "An undamaged file always loads and re-exports identically.",
  ["inputs", "fault_sequences", "crash_points"],
  "all stored bytes and storage faults",
  "Tests load one corrupted string; parsers are exercised only on valid keys.",
  ["src/tdp.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp", "src/mbedtls/pkparse.c", "src/mbedtls/pem.c", "src/mbedtls/base64.c", "src/mbedtls/asn1parse.c", "src/mbedtls/rsa_io.c", "src/mbedtls/rsa.c", "src/set_hash.cpp"],
  [("PEM/DER parsing and key validation", "src/mbedtls"), ("point validation", "src/set_hash.cpp")],
  ["Tdp, TdpInverse, TdpMultPool and SetHash constructors"])

p("C15", "A consumed or moved-from key can never be used again",
  "A key handed over to an object or to a derivation that takes ownership, a key that was moved or erased, and an object that was moved from, hold no secret any more: any later attempt to build an object from it or compute with it is refused with an exception and yields no output, in every build configuration, while the new owner keeps working with the same key. "
  "The hand-over is all or nothing: each secret has exactly one owner at any time, and destroying, reassigning or erasing in any order neither crashes nor affects other objects.",
  ["histories", "configurations", "programs"],
  "all sequences of construct, move, assign, swap, erase, consume, use and destroy over a set of keys and objects; memory locking on and off",
  "Tests try one moved-from key per class in one configuration; mixed chains of moves, self-moves, erasures and reuse are not covered.",
  [I + "key.hpp", I + "prf.hpp", I + "prg.hpp", "src/prg.cpp", "src/prp.cpp", "src/cipher.cpp", I + "hmac.hpp", I + "wrapper.hpp"],
  [("move semantics and emptiness checks", I + "key.hpp")],
  ["exceptions and outputs of every operation on moved-from objects"])

# not claimed
p("C90", "One object may be shared by several threads",
  "Concurrent calls on the same object from several threads return correct results.",
  ["schedules"], "all interleavings of calls on one shared object",
  "All tests are single-threaded.",
  [I + "key.hpp", "src/mbedtls/rsa.c"], [("none: lock flag and RSA caches are unsynchronised", I + "key.hpp")])
p("C91", "Puncturable encryption forgets punctured tags",
  "After puncturing a key on a tag, no ciphertext under that tag can be decrypted with it, while all other ciphertexts still decrypt.",
  ["histories", "inputs"], "all puncture/encrypt/decrypt histories",
  "The component is not built here.",
  ["src/puncturable_enc.cpp", "src/ppke/GMPpke.cpp"], [("puncturing of pairing-based keys", "src/ppke")])
p("C92", "Secret-dependent timing does not leak keys",
  "The time and memory-access pattern of operations on secrets do not depend on the secrets.",
  ["inputs"], "all secrets",
  "Timing is not observed by tests.",
  ["src/mbedtls/bignum.c", "src/tdp_impl/tdp_impl_mbedtls.cpp", I + "wrapper.hpp"], [("constant-time comparison, blinding", "wrapper.hpp, rsa.c")])
p("C93", "Outputs are computationally indistinguishable from random",
  "Without the key, PRF, PRG, PRP and cipher outputs cannot be distinguished from random by an efficient adversary.",
  ["inputs"], "all efficient adversaries", "A cryptographic assumption, not a testable behaviour.",
  ["src/"], [("standard constructions", "src/")])
p("C94", "Both trapdoor-permutation back ends compute the same function",
  "Keys exported by the OpenSSL back end and by the mbedTLS back end are interchangeable, and the two compute the same evaluations, inversions and pools.",
  ["inputs", "configurations"], "all keys and inputs, both build configurations",
  "Only one back end is compiled at a time.",
  ["src/tdp_impl/tdp_impl_openssl.cpp", "src/tdp_impl/tdp_impl_mbedtls.cpp"], [("RSA back ends", "src/tdp_impl/")])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")
with open(path, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
