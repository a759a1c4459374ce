"""What each check runs: build variants, number of runs and time limits per tier; and what it says about itself."""
COMMON_ASSUME = [
    "the primitives of the installed libsodium and GMP are correct",
    "a violation is reported only if the same plan fails the same way three times, one of them in a fresh process",
]
REAL_SYM = "all of the library's own code that the property touches, compiled from /repo/src"
STUBS = ["randomness: deterministic generator behind randombytes_set_implementation",
         "memory: operator new, malloc family, sodium_malloc and sodium_mprotect_* pass through the simulator, which can fail them",
         "relic (pairing library) resource handle used by init_crypto_lib is an empty class"]
PARTS = {
    "C01": [dict(variant="asan", quick=(24000, 80), thorough=(1000000, 900)),
            dict(variant="nolock", quick=(12000, 40), thorough=(400000, 400))],
    "C02": [dict(variant="asan", quick=(16000, 80), thorough=(600000, 800)),
            dict(variant="nolock", quick=(10000, 50), thorough=(300000, 400))],
    "C03": [dict(variant="asan", quick=(10000, 100), thorough=(400000, 900)),
            dict(variant="nolock", quick=(5000, 50), thorough=(200000, 400))],
    "C04": [dict(variant="asan", quick=(12000, 100), thorough=(400000, 900)),
            dict(variant="nolock", quick=(6000, 50), thorough=(200000, 400))],
    "C05": [dict(variant="asan", quick=(16000, 100), thorough=(600000, 1200)), dict(variant="plain", quick=(16000, 60), thorough=(600000, 600))],
    "C06": [dict(variant="asan", quick=(16000, 100), thorough=(600000, 1200)), dict(variant="plain", quick=(12000, 100), thorough=(400000, 600)), dict(variant="nolock", quick=(12000, 60), thorough=(400000, 600))],
    "C07": [dict(variant="asan", quick=(16000, 140), thorough=(600000, 1500)), dict(variant="nolock", quick=(8000, 70), thorough=(300000, 600))],
    "C09": [dict(variant="asan", quick=(12000, 100), thorough=(500000, 1200)), dict(variant="nolock", quick=(6000, 50), thorough=(200000, 500))],
    "C10": [dict(variant="asan", quick=(10000, 80), thorough=(400000, 900)), dict(variant="nolock", quick=(4000, 40), thorough=(150000, 400))],
    "C11": [dict(variant="asan", quick=(3000, 120), thorough=(200000, 1500)), dict(variant="plain", quick=(6000, 80), thorough=(200000, 900))],
    "C12": [dict(variant="asan", quick=(16000, 100), thorough=(600000, 1200)), dict(variant="nolock", quick=(10000, 60), thorough=(400000, 600)), dict(variant="plain", quick=(10000, 60), thorough=(400000, 600))],
    "C08": [dict(variant="thr", quick=(16000, 120), thorough=(600000, 1500)), dict(variant="tsan", quick=(8000, 120), thorough=(300000, 1200))],
    "C13": [dict(variant="asan", quick=(12000, 100), thorough=(500000, 1200)), dict(variant="nolock", quick=(8000, 60), thorough=(300000, 500)), dict(variant="plain", quick=(12000, 80), thorough=(500000, 600))],
    "C14": [dict(variant="asan", quick=(6000, 100), thorough=(300000, 1200)), dict(variant="plain", quick=(8000, 80), thorough=(300000, 600))],
    "C15": [dict(variant="asan", quick=(16000, 100), thorough=(600000, 1200)), dict(variant="nolock", quick=(16000, 80), thorough=(600000, 600)), dict(variant="plain", quick=(12000, 60), thorough=(400000, 600))],
}
NOTES = {
    "C01": dict(technique="channel faults between key holders, reference peer as oracle", space="message histories, channel faults (drop, duplicate, reorder, flip, truncate, extend, splice, redirect), restarts and failing allocations / protection calls",
                rule="a run counts if at least one channel fault, restart or resource fault happened in it; distinct by hash of all results and fault positions",
                real=["Cipher, Key, random (from /repo)"],
                stubs=STUBS + ["network/storage between the parties: packet pool whose faults the plan decides",
                               "one remote party is an independent implementation of the published construction"],
                assumptions=COMMON_ASSUME + ["forgeries are searched among corrupted and spliced honest ciphertexts, not by cryptanalysis"]),
    "C02": dict(technique="controlled random generator, byte-flip dependence and history uniqueness", space="histories of encryptions, wrappings, key generations and samplings with restarts, moves, refused calls and resource faults",
                rule="a run counts if a restart, move, refused call, generator-byte flip, burst or resource fault happened in it; distinct by hash of all random values seen",
                real=["Cipher, Wrapper, Key, Prf, HMac, Prg, Prp, RCPrf, Tdp/TdpInverse/TdpMultPool sampling, random (from /repo)"],
                stubs=STUBS, assumptions=COMMON_ASSUME + ["the generator stream itself never repeats (deterministic stand-in for the system generator)"]),
    "C03": dict(technique="crash/restart histories over durable wrapped blobs, reference model per object kind", space="histories of create/wrap/unwrap/use/constrain/move over all wrappable kinds with process restarts at every point and failing allocations / protection calls",
                rule="a run counts if a restart, move, damaged or foreign blob or resource fault happened in it; distinct by hash of the object population and results",
                real=["Wrapper, Cipher, Prf, Prg, Prp, RCPrf, ConstrainedRCPrf, TdpInverse, Key and the bundled mbedtls (from /repo)"],
                stubs=STUBS + ["disk: the list of stored blobs; a restart destroys every object and keeps only that list", "blobs of another build are written by an independent implementation of the wrapping format"],
                assumptions=COMMON_ASSUME),
    "C04": dict(technique="blobs through a hostile channel, every foreign or altered blob must be refused", space="histories of wrapping and of flipped, cut, extended, spliced, redirected (other key, kind, output size) and foreign-context blobs, interleaved with honest unwrapping and failing allocations / protection calls",
                rule="a run counts if at least one altered or redirected blob was presented or a resource fault fired; distinct by hash of the attack and kind sequence",
                real=["Wrapper, Cipher, Prf, Prg, Prp, RCPrf, ConstrainedRCPrf, TdpInverse, Key and the bundled mbedtls (from /repo)"],
                stubs=STUBS + ["channel: the list of stored blobs, altered as the plan says", "blobs with a valid tag and a foreign type byte or context are made by an independent implementation of the wrapping format"],
                assumptions=COMMON_ASSUME + ["forgeries are searched among altered, spliced and redirected blobs, not by cryptanalysis (a 96-bit tag could be guessed)"]),
    "C05": dict(technique="page protection asked of the kernel after every simulated call, failing protection calls and allocations", space="histories of every call and overload (valid and refused) on a population of key-holding objects, with failing allocations and protection changes, moves and destructions", rule="a run counts if a resource fault, refused call, move, destruction or throwing callback happened in it; distinct by hash of the object population and operations", real=["Key, Prf, HMac, Prg, Prp, Cipher, Wrapper, RCPrf, ConstrainedRCPrf (from /repo), libsodium guarded allocations and the kernel page protection itself"], stubs=STUBS, assumptions=COMMON_ASSUME + ["processor registers, the stack during a call, swap and core dumps are out of scope", "the build without memory locking does not claim this property"]),
    "C06": dict(technique="released and remaining memory searched for the keys of the simulated history, failing allocations and protection calls", space="histories of every call and overload (valid and refused) on a population of key-holding objects, with failing allocations and protection changes, moves and destructions in any order", rule="a run counts if a resource fault, refused call, move, destruction or throwing callback happened in it; distinct by hash of the object population and operations", real=["Key, Prf, HMac, Prg, Prp, Cipher, Wrapper, RCPrf, ConstrainedRCPrf, Tdp, TdpInverse, TdpMultPool and the bundled mbedtls (from /repo), libsodium guarded allocations"], stubs=STUBS, assumptions=COMMON_ASSUME + ["copies of keys are looked for byte for byte, plain or masked with the HMAC pads, 16 bytes or more", "copies left by the installed libsodium itself, and in processor registers, are out of scope"]),
    "C07": dict(technique="resource failures injected at every allocation and protection request, reference model as oracle, retry after the failure", space="histories of every call and overload (valid and refused) on a population of symmetric and trapdoor-permutation objects, with single, repeated and permanent failures of allocations and protection changes, and whole runs on a platform without page protection", rule="a run counts if a resource fault fired or the platform has no page protection; distinct by hash of the object population and operations", real=["Key, Prf, HMac, Prg, Prp, Cipher, Wrapper, RCPrf, ConstrainedRCPrf, Tdp, TdpInverse, TdpMultPool and the bundled mbedtls (from /repo)"], stubs=STUBS, assumptions=COMMON_ASSUME + ["objects of the C++ standard library behave as documented when operator new throws", "failures of the operating system after an allocation succeeded (overcommit) are out of scope"]),
    "C09": dict(technique="delegation histories between simulated key holders with restarts and failing requests, tree reference as oracle", space="histories of evaluation, enumeration, restriction, cutting into pieces and reassembly, wrapping, restarts, moves, refused leaves, ranges and heights, with failing allocations and protection changes; all heights, 11 output sizes", rule="a run counts if a restart, move, refused leaf, range, height or piece set, throwing callback or resource fault happened in it; distinct by hash of the ranges held after each operation", real=["RCPrf, ConstrainedRCPrf and its elements, Prg, Key, Wrapper (from /repo)"], stubs=STUBS + ["storage: the list of wrapped keys, which alone survives a restart"], assumptions=COMMON_ASSUME + ["that a key carries nothing outside its range is decided by searching its serialization for the nodes and values of leaves outside, not by cryptanalysis"]),
    "C10": dict(technique="replicated multiset histories over an unreliable network and disk, multiset model as oracle", space="update histories of three replicas with reordered, duplicated and dropped messages, merges, self-merges, saves, crashes with reload, copies and damaged saved states", rule="a run counts if a message was reordered, duplicated or dropped, a replica saved, restarted or was copied, or damaged bytes were loaded; distinct by hash of all multisets after each operation", real=["SetHash, Hash (from /repo)"], stubs=STUBS + ["network: the list of undelivered updates", "disk: the saved bytes of each replica"], assumptions=COMMON_ASSUME + ["multiplicities stay below 2^100, far from the group order", "different elements have independent curve points (collision resistance of the hash)"]),
    "C11": dict(technique="object histories with cached key state, exports, restarts and failing allocations, big-number reference as oracle", space="histories over public, private and pool objects of eight stored and freshly generated key pairs: evaluation, single and multiple inversion, pools, sampling, generation, copies, assignments, exports, imports, wrapping, restarts and refused inputs, with failing allocations and protection changes", rule="a run counts if an export, restart, move, destruction, refused call or resource fault happened in it; distinct by hash of the object population and operations", real=["Tdp, TdpInverse, TdpMultPool, Prf, Wrapper and the bundled mbedtls (from /repo)"], stubs=STUBS + ["storage of exported keys: a list that alone survives a restart"], assumptions=COMMON_ASSUME),
    "C12": dict(technique="derivation histories with restarts, moves, refused calls and failing requests, reference peer as oracle", space="histories of PRF, HMAC, hash, PRG and derived-key requests on related keys and inputs, all overloads, offsets up to 2^64, with restarts, storage, moves, refused calls and failing allocations / protection changes", rule="a run counts if a restart, move, refused call or resource fault happened in it; distinct by hash of all requests", real=["Prf, HMac, Hash, Prg, Key, Wrapper (from /repo)"], stubs=STUBS + ["storage: the list of wrapped objects, which alone survives a restart"], assumptions=COMMON_ASSUME + ["PRF outputs above 16384 bytes have no published construction: only checked to agree and not to repeat"]),
    "C08": dict(technique="seeded thread schedules with preemption at every load, store and basic block of library code, one thread running at a time, reference model as oracle and data-race detection on the scheduled execution", space="2 to 4 threads with separate populations of symmetric and trapdoor-permutation objects, objects changing hands between threads, few or dense preemptions, failing allocations and protection changes in some threads, refused calls", rule="a run counts if a preemption, hand-over, resource fault, refused call, move or destruction happened; distinct by hash of the preemption points", real=["Key, Prf, HMac, Prg, Prp, Cipher, Wrapper, RCPrf, ConstrainedRCPrf, Tdp, TdpInverse, TdpMultPool, bundled AEZ and mbedtls (from /repo), compiled so that each load and store (variant thr) or basic block (variant tsan) is a scheduling point", "libsodium, system allocator, pthread threads and mutexes"], stubs=["thread scheduler: a baton decides which thread runs; locks yield instead of blocking", "system random generator: seeded stream per thread", "malloc, sodium_malloc and page protection: real, made to fail by the plan"], assumptions=["code inside libsodium is not a scheduling point", "pthread_once bodies are not preempted", "data races are looked for between instructions of the library and bundled code, by ThreadSanitizer vector clocks over the simulated schedule", "the reference model gives what a call returns when its thread runs alone; a violation is reported only if the same threads run one after the other show none"]),
    "C13": dict(technique="permutation histories over objects, restarts, storage and processors with and without AES instructions, reference peer as oracle", space="histories of encryption and decryption of every length and overload (in place, any alignment, integers) on objects of related keys, with restarts, storage, moves, the AES instructions disappearing and coming back, failing allocations and protection changes; two runs with inputs of 4 GiB", rule="a run counts if a restart, move, change of processor, refused call or resource fault happened; distinct by hash of the executed operations and their arguments", real=["Prp, bundled AEZ, Key, Wrapper, library initialisation (from /repo), compiled with memory locking on and off", "libsodium, system allocator"], stubs=["processor capabilities as reported to the library: decided by the plan", "system random generator: seeded stream", "malloc, sodium_malloc and page protection: real, made to fail by the plan"], assumptions=["the reference permutation is a private copy of the AEZ construction at the pinned commit, compiled separately", "empty inputs map to empty outputs"]),
    "C14": dict(technique="key files and saved hashes through faulty simulated storage, big-number arithmetic of the exported key as oracle", space="histories of storing, damaging (truncated, torn, flipped, lost and duplicated ranges, extended, replaced; in the text and in the decoded structure; components changed, missing, swapped or chosen; keys of other sizes), restarting and loading of private keys, public keys, pools and set hashes, with failing allocations", rule="a run counts if a file was damaged, a restart happened or a resource fault fired; distinct by hash of the disk contents after each operation", real=["Tdp, TdpInverse, TdpMultPool, SetHash and the bundled mbedtls parsers (from /repo)"], stubs=STUBS + ["disk: the list of stored files, damaged as the plan says"], assumptions=COMMON_ASSUME + ["keys built on purpose from composite factors that satisfy every arithmetic relation are out of scope"]),
    "C15": dict(technique="ownership histories of keys and objects with failing hand-overs, single-owner model and reference peer as oracle", space="histories of creation, move construction, move assignment, swap, self-move, erasure, hand-over to objects and derivations, storage in vectors, wrapping, use and destruction over up to 9 cells, with invalid parameters, missing AES instructions and failing allocations and protection changes", rule="a run counts if a hand-over, move, swap, erasure, destruction, refused computation or resource fault happened; distinct by hash of the cells and what they hold after each operation", real=["Key, Prf, HMac, Prg, Prp, Cipher, Wrapper, RCPrf, ConstrainedRCPrf, generation by Tdp, TdpInverse and TdpMultPool (from /repo), memory locking on and off"], stubs=STUBS, assumptions=COMMON_ASSUME + ["a hand-over that failed may have left the key with its former owner or destroyed it", "a constrained key without elements may be stored; requests for zero bytes or keys are not made"]),
}

NOT_APPLICABLE = {
    "C90": "The library does not promise it: the documentation makes no statement about sharing one object and key locking state is unsynchronised by design; the supported contract (disjoint objects) is C08.",
    "C91": "The puncturable encryption code needs the relic pairing library, which is neither in the sandbox nor in the repository, so the code cannot be compiled or run here; with a stand-in for the pairings the simulator would decide the stand-in, not the code.",
    "C92": "Timing and cache behaviour are not observable in a simulator whose clock is its own step counter.",
    "C93": "A computational-hardness statement: no run or schedule can decide it.",
    "C94": "The OpenSSL back end (off by default) reads the fields of OpenSSL's RSA structure, which have been opaque since OpenSSL 1.1: against the OpenSSL installed here it does not compile, so there is no code to run.",
}
