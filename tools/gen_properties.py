#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

MK = "ml-kem/src/"
p("C01", "ML-KEM key generation follows FIPS 203 for every seed",
  "For ML-KEM-512, -768 and -1024 and every 32-byte pair of seeds (d, z), the generated encapsulation key and decapsulation key are byte for byte the ones FIPS 203 prescribes. This includes seeds whose matrix sampling needs unusually much XOF output or hits candidates on the rejection boundary q.",
  ["inputs"], "all (d, z) in 2^512 per parameter set",
  "The ACVP file samples 25 seeds per parameter set; rare rejection-sampling patterns, field values and noise patterns are only met by chance.",
  [MK+"pke.rs", MK+"algebra.rs", MK+"crypto.rs", MK+"param.rs", MK+"kem.rs"],
  [("K-PKE.KeyGen", MK+"pke.rs DecryptionKey::generate"), ("SampleNTT / SamplePolyCBD / NTT", MK+"algebra.rs"), ("ML-KEM.KeyGen_internal", MK+"kem.rs DecapsulationKey::generate_deterministic")],
  ["return values and encodings of generate / generate_deterministic"])
p("C02", "ML-KEM encapsulation follows FIPS 203 for every key and message",
  "For every parameter set, every well-formed encapsulation key (generated or parsed from bytes, honest or chosen by an adversary) and every 32-byte message randomness m, encapsulation returns exactly the ciphertext and 32-byte shared secret of FIPS 203.",
  ["inputs"], "all canonical encapsulation keys x all m in 2^256, per parameter set",
  "ACVP gives 25 (ek, m) pairs per parameter set, all honest keys; adversarial keys and rare coefficient values are not reached.",
  [MK+"kem.rs", MK+"pke.rs", MK+"algebra.rs", MK+"compress.rs", MK+"encode.rs", MK+"crypto.rs"],
  [("K-PKE.Encrypt", MK+"pke.rs EncryptionKey::encrypt"), ("Compress/ByteEncode", MK+"compress.rs, encode.rs")],
  ["return values of encapsulate / encapsulate_deterministic"])
p("C03", "ML-KEM decapsulation follows FIPS 203 for every key and ciphertext",
  "For every parameter set, every decapsulation key byte string of the right length and every ciphertext byte string of the right length, decapsulation returns exactly the shared secret of FIPS 203: the real one when re-encryption reproduces the ciphertext, the implicit-rejection one otherwise. This holds also for keys with large noise or arbitrary secret coefficients, where decryption lands on the rounding boundary.",
  ["inputs"], "all decapsulation-key strings x all ciphertext strings of the fixed lengths",
  "ACVP has 10 ciphertexts for one key per parameter set; the tests never use a key outside the honest distribution, so the decryption rounding boundary is never met.",
  [MK+"kem.rs", MK+"pke.rs", MK+"compress.rs", MK+"encode.rs", MK+"algebra.rs"],
  [("Fujisaki-Okamoto re-encryption check and select", MK+"kem.rs decapsulate"), ("K-PKE.Decrypt", MK+"pke.rs decrypt"), ("Decompress/Compress_1", MK+"compress.rs")],
  ["return value of decapsulate"])
p("C04", "ML-KEM sender and receiver always agree on the shared secret",
  "For every key pair and every encapsulation made to its encapsulation key, decapsulation returns the sender's secret, however either key reached its owner: freshly generated, cloned, taken out of the decapsulation key, or serialized and parsed any number of times. Distinct encapsulations give distinct ciphertexts and secrets.",
  ["inputs", "histories"], "all key pairs, encapsulation randomness and histories of clone / encode / decode",
  "The round-trip tests run one random pair per parameter set per run and never cross key provenances.",
  [MK+"kem.rs", MK+"lib.rs", MK+"pke.rs"],
  [("encapsulate / decapsulate", MK+"kem.rs"), ("key codecs", MK+"param.rs concat_dk / split_dk")],
  ["encapsulate and decapsulate results at the API"])
p("C05", "Any altered ML-KEM ciphertext is implicitly rejected",
  "Decapsulating a ciphertext that differs in any way from what the encapsulation produced never fails and never returns the sender's secret: it returns the key SHAKE256(z || ciphertext), the same one every time for that ciphertext.",
  ["inputs"], "all alterations (any set of bits or bytes, including compensating ones) of all honest ciphertexts",
  "ACVP contains a handful of modified ciphertexts for one key; whether each single byte and each combination of bytes takes part in the comparison is not sampled.",
  [MK+"kem.rs"],
  [("constant-time comparison fold and select", MK+"kem.rs decapsulate, constant_time_eq"), ("rejection key J(z || c)", MK+"crypto.rs J")],
  ["decapsulate result versus the secret returned by encapsulate"])
p("C06", "ML-KEM key encodings are lossless and canonical, and equality follows them",
  "Encoding then parsing a key gives an equal key that behaves identically, and parsing then encoding returns the same bytes exactly when every 12-bit coefficient is below q (otherwise each is reduced modulo q and nothing else changes). Two keys compare equal exactly when their encodings are equal (an encapsulation key taken out of a decapsulation key whose stored hash is wrong aside), and the decapsulation key encoding is secret vector, encapsulation key, its hash and z, in that order and with the lengths of FIPS 203.",
  ["inputs"], "all byte strings of key length, all pairs of keys",
  "The codec tests use one random honest key per parameter set and one fixed 0xfff pattern; non-canonical, extreme and position-specific coefficients and unequal keys are not tried.",
  [MK+"encode.rs", MK+"param.rs", MK+"kem.rs", MK+"pke.rs", MK+"util.rs"],
  [("ByteEncode_12 / ByteDecode_12", MK+"encode.rs"), ("concat_* / split_*, flatten / unflatten", MK+"param.rs, util.rs")],
  ["as_bytes / from_bytes / == at the API"])
p("C07", "ML-KEM randomized operations are exactly their deterministic forms on RNG output",
  "Key generation draws exactly 64 bytes from the caller's generator and uses them in order as d then z; encapsulation draws exactly 32 bytes and uses them as m; the results equal the deterministic functions on those bytes. Every drawn bit influences the result, nothing else does, and no drawn byte is reused by a later call.",
  ["inputs", "histories"], "all generator outputs and all sequences of operations sharing one generator",
  "Tests compare no randomized call with its deterministic twin; a call using part of the entropy, too much of it, or another source passes all of them.",
  [MK+"kem.rs", MK+"crypto.rs"],
  [("rand()", MK+"crypto.rs rand"), ("generate / encapsulate", MK+"kem.rs")],
  ["a recording random generator passed by the caller"])
p("C08", "A failing randomness source never yields a key or a shared secret",
  "If the random generator given to any key generation or encapsulation in the three crates fails before it delivered all the bytes the operation needs, the operation does not return a key, ciphertext or secret, and keys that existed before keep working unchanged. The same holds for X-Wing key generation from the operating system's source, including errors, interrupted calls and short reads.",
  ["fault_sequences"], "every operation x every failure point x kinds of failure (panic, error, partial write, OS error, interrupted, short read)",
  "No test injects a failing generator.",
  [MK+"crypto.rs", MK+"kem.rs", "x-wing/src/lib.rs", "dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs"],
  [("fill_bytes on the caller's generator", MK+"crypto.rs rand; x-wing/src/lib.rs generate"), ("random_from_rng / EphemeralSecret::random", "dhkem/src/*.rs")],
  ["whether the call returns, under a faulting generator or faulting getrandom"])
p("C09", "Secret key material is wiped from memory when keys are dropped",
  "With the zeroize features on, after a decapsulation key of any of the three crates is dropped (at scope end, in a box or vector, by overwriting, or while unwinding) the memory that held it no longer depends on any of its secrets, also in optimized builds; explicitly zeroizing a key or wrapper does the same.",
  ["inputs", "histories", "configurations"], "all keys, all ways of dropping, debug and optimized builds",
  "No test looks at memory after drop; a forgotten field, a partial wipe or a wipe the optimizer removes passes everything.",
  [MK+"kem.rs", MK+"pke.rs", MK+"algebra.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"],
  [("Drop for DecapsulationKey / Zeroize impls", MK+"kem.rs, pke.rs, algebra.rs"), ("derive(Zeroize, ZeroizeOnDrop)", "x-wing/src/lib.rs"), ("Zeroize for wrappers", "dhkem/src/lib.rs")],
  ["raw bytes of the storage after drop_in_place / after the owning frame returned"])
p("C10", "Executed branches and memory addresses do not depend on secrets",
  "In optimized builds, ML-KEM key generation, encapsulation, key parsing and decapsulation, and the X-Wing operations built on them, execute the same instructions and touch the same addresses whatever the secret values are (seeds, secret vector, z, message, X25519 scalar, shared secrets); in particular nothing reveals whether a ciphertext was accepted or rejected. Values that are public by the standard (public matrix seed, encapsulation key, ciphertext) are exempt.",
  ["inputs"], "all secrets x all public inputs",
  "Functional tests cannot see timing; a short-circuit comparison or a secret-indexed lookup returns the right result.",
  [MK+"kem.rs", MK+"algebra.rs", MK+"compress.rs", MK+"encode.rs", MK+"pke.rs", "x-wing/src/lib.rs"],
  [("constant_time_eq and masked select", MK+"kem.rs"), ("Barrett / small_reduce, division-free compression", MK+"algebra.rs, compress.rs")],
  ["memcheck shadow state: conditional jumps and addresses derived from values marked secret"],
  hook="declassification of the public matrix seed rho inside key generation (cfg kem_monitor)")
p("C11", "No input makes any operation panic, overflow, or commit undefined behaviour",
  "For every byte string of the fixed lengths given as key or ciphertext and every generator output, parsing, encoding, comparing, cloning, key generation, encapsulation and decapsulation in all three crates complete without panic, arithmetic overflow, out-of-bounds or uninitialized access, or any other undefined behaviour.",
  ["inputs"], "all inputs of all public operations, checked and optimized builds",
  "Tests feed only well-formed honest data and run without sanitizers; the unsafe array reshaping and unchecked truncation are never observed by an undefined-behaviour detector.",
  [MK+"util.rs", MK+"algebra.rs", MK+"encode.rs", MK+"compress.rs", MK+"kem.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"],
  [("unsafe flatten/unflatten and truncate", MK+"util.rs"), ("range arguments for deferred reductions", MK+"algebra.rs")],
  ["Miri, AddressSanitizer, memcheck and overflow-check reports; panics"])
p("C12", "Operations are pure: shared keys can be used concurrently and repeatedly",
  "The result of every operation depends only on its arguments (and the bytes drawn from the caller's generator): any interleaving of operations on shared keys by any number of threads gives each call the result it gives alone, without data races, and repeating a call in any history gives the same result and leaves the key unchanged.",
  ["schedules", "histories"], "all interleavings of operations on shared keys and all histories of calls",
  "Tests use every key once on one thread.",
  [MK+"kem.rs", MK+"pke.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"],
  [("&self operations without interior state", MK+"kem.rs, x-wing/src/lib.rs, dhkem/src/*.rs")],
  ["recorded call/return history per thread compared with sequential results; ThreadSanitizer"])
p("C13", "Results do not depend on feature set, build profile, word size or byte order",
  "The same inputs give the same keys, ciphertexts, secrets and encodings whichever cargo features are enabled, in debug and in optimized builds, and on 32- and 64-bit, little- and big-endian targets.",
  ["configurations", "inputs"], "all feature combinations x profiles x targets, all inputs",
  "The test suite runs one feature set on one little-endian 64-bit target here.",
  [MK+"lib.rs", MK+"util.rs", MK+"encode.rs", MK+"kem.rs", "x-wing/src/lib.rs"],
  [("feature gates", "ml-kem/Cargo.toml, x-wing/Cargo.toml, dhkem/Cargo.toml"), ("to_le_bytes / from_le_bytes, truncate", MK+"encode.rs, util.rs")],
  ["digest of a fixed workload's transcript in every configuration"])
p("C14", "The generic KEM is correct for every definable parameter set",
  "A parameter set defined by a user through the public parameter interface (other module ranks, noise widths and compression widths than the three standard ones) gives keys, ciphertexts, secrets and encodings exactly as the FIPS 203 algorithms do with those parameters, with the sizes they imply.",
  ["configurations", "inputs"], "all parameter sets the public interface accepts x all seeds, messages and ciphertexts",
  "Tests only instantiate the three standard sets; other combinations of rank, noise and compression width are never run.",
  [MK+"param.rs", MK+"lib.rs", MK+"encode.rs", MK+"compress.rs", MK+"util.rs"],
  [("type-level size computation", MK+"param.rs"), ("ByteEncode_d / Compress_d for generic d", MK+"encode.rs, compress.rs")],
  ["API results of the KEM instantiated with user-defined parameter sets"])
p("C15", "X-Wing follows the draft-04 specification for every key, seed and ciphertext",
  "For every 32-byte X-Wing decapsulation key, every 64 bytes of encapsulation randomness, every encapsulation key and every ciphertext (including low-order or non-canonical X25519 points and malformed ML-KEM parts), the derived encapsulation key, the ciphertext and the shared secret are exactly those of the X-Wing draft, version 04.",
  ["inputs"], "all keys, randomness and ciphertext strings",
  "Three draft vectors are tested; foreign or malformed ciphertexts and keys, and X25519 edge points, are not.",
  ["x-wing/src/lib.rs"],
  [("expand_key", "x-wing/src/lib.rs"), ("combiner", "x-wing/src/lib.rs"), ("encapsulate / decapsulate", "x-wing/src/lib.rs")],
  ["API results compared with an independent X-Wing model"])
p("C16", "X-Wing peers agree, and any altered ciphertext gives an unrelated secret",
  "Decapsulating an honest X-Wing ciphertext returns the sender's secret; decapsulating any altered ciphertext, whichever component or bit is changed (including the X25519 bit that scalar multiplication ignores), never fails, is repeatable, and never returns the sender's secret.",
  ["inputs", "histories"], "all key pairs, all encapsulations, all alterations",
  "Only the unmodified vectors are decapsulated by the tests.",
  ["x-wing/src/lib.rs", MK+"kem.rs"],
  [("combiner binds ss_m, ss_x, ct_x, pk_x", "x-wing/src/lib.rs combiner")],
  ["encapsulate and decapsulate results at the API"])
p("C17", "X-Wing keys and ciphertexts round-trip through their encodings",
  "The encodings have the documented sizes and component order (ML-KEM part then X25519 part); parsing then encoding a ciphertext or a decapsulation key returns the same bytes for every byte string, for an encapsulation key it does so for every string whose ML-KEM part is canonical, and the X25519 bytes are always kept verbatim. Parsed objects are equal to, and behave as, the originals, and differ whenever the encodings differ.",
  ["inputs"], "all byte strings of the three fixed lengths",
  "Serialization tests use one random value each, compare only for equality, and never use non-canonical parts.",
  ["x-wing/src/lib.rs"],
  [("From<&[u8; N]> and as_bytes", "x-wing/src/lib.rs")],
  ["as_bytes / From / == at the API"])
p("C18", "X-Wing uses exactly its generator's bytes, in order, or the OS source's",
  "X-Wing key generation draws exactly 32 bytes and makes them the decapsulation key; encapsulation draws exactly 64 bytes, the ML-KEM randomness first and the X25519 ephemeral key second; every drawn bit influences the result and nothing else does. Key generation from the operating system uses exactly the bytes the OS delivered, fresh for every key.",
  ["inputs", "histories", "fault_sequences"], "all generator outputs, OS entropy deliveries and sequences of operations",
  "The draft vectors fix three seeds; partial use of entropy or hidden reuse, and the OS-backed functions, are not tested.",
  ["x-wing/src/lib.rs"],
  [("generate()", "x-wing/src/lib.rs"), ("generate_from_os_rng / generate_key_pair_from_os_rng", "x-wing/src/lib.rs")],
  ["recording generator; intercepted getrandom system call"])
p("C19", "DHKEM secrets are the curve's Diffie-Hellman value and both sides agree",
  "For P-256, P-384, P-521, secp256k1 and X25519, for every key pair and every encapsulation, the encapsulated key is the ephemeral public key, and sender and receiver both obtain the Diffie-Hellman value of ephemeral and static key as RFC 9180 and RFC 7748 define it (big-endian x-coordinate, or u-coordinate). Public keys and encapsulated keys may come from anywhere, including X25519 keys in non-canonical form.",
  ["inputs"], "all key pairs, ephemeral keys and valid public keys per curve",
  "One random round trip per curve plus one P-256 vector; agreement with the curve's mathematics is checked only there.",
  ["dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs", "dhkem/src/lib.rs"],
  [("encapsulate / decapsulate", "dhkem/src/ecdh_kem.rs, x25519_kem.rs"), ("random_keypair", "dhkem/src/ecdh_kem.rs, x25519_kem.rs")],
  ["encapsulated keys and raw secrets at the API"])
p("C20", "DHKEM keys come fresh from the caller's generator on every call",
  "Every DHKEM key pair and every ephemeral key is a function of bytes drawn from the caller's generator during that very call, and of nothing else: the private scalar is the accepted candidate among those bytes, equal bytes give equal results, different bytes different ones, and no two calls on a continuing stream share an ephemeral key.",
  ["inputs", "histories"], "all generator outputs (including rejected candidates) and all call histories per curve",
  "Tests never look at what is drawn, never force a rejected candidate, and never encapsulate twice to one key.",
  ["dhkem/src/ecdh_kem.rs", "dhkem/src/x25519_kem.rs"],
  [("EphemeralSecret::random / random_from_rng", "dhkem/src/ecdh_kem.rs, x25519_kem.rs")],
  ["recording generator and returned public keys"])
p("C21", "DHKEM key wrappers are transparent",
  "Wrapping a key in the encapsulator or decapsulator type and getting it back (by reference, by value, through conversion, copy or clone) yields the same key; the wrapper's encoded point (compressed or not), equality, ordering, hash and default are those of the wrapped value, and a rewrapped key encapsulates and decapsulates as before.",
  ["inputs"], "all wrapped values, all trait operations of the wrappers",
  "Only the uncompressed encoding of one P-256 key is looked at by the tests.",
  ["dhkem/src/lib.rs"],
  [("AsRef / From / into_inner / ToEncodedPoint / derives", "dhkem/src/lib.rs")],
  ["results of the wrapper's trait operations versus the wrapped value's"])
p("C22", "With a caller-supplied generator, operations use no heap and no OS service",
  "Key generation, encapsulation, decapsulation, parsing and encoding in the three crates perform no heap allocation and no system call when the randomness comes from the caller, so they run in no_std environments and take entropy from nowhere else; only the functions documented to use the operating system's generator reach it.",
  ["inputs", "configurations"], "all operations on all inputs",
  "Tests run under std with an allocator and an OS available and would not notice either being used.",
  [MK+"lib.rs", MK+"crypto.rs", "x-wing/src/lib.rs", "dhkem/src/lib.rs"],
  [("no_std, stack-only arrays", MK+"lib.rs, x-wing/src/lib.rs, dhkem/src/lib.rs"), ("caller-supplied CryptoRngCore", "all crates")],
  ["counting allocator; seccomp strict mode around the calls"])
p("C23", "DHKEM never hands out a non-contributory (all-zero) secret",
  "No DHKEM encapsulation or decapsulation returns a shared secret that does not depend on the caller's private key: as RFC 9180 section 7.1.4 demands, an all-zero X25519 output (low-order peer key) is refused, and for the other curves the Diffie-Hellman point is never the point at infinity.",
  ["inputs"], "all peer public keys, including every low-order and non-canonical X25519 encoding, x all private keys",
  "Tests only use honest random peers.",
  ["dhkem/src/x25519_kem.rs", "dhkem/src/ecdh_kem.rs"],
  [("diffie_hellman without contributory check", "dhkem/src/x25519_kem.rs"), ("PublicKey type excludes the identity", "dhkem/src/ecdh_kem.rs")],
  ["encapsulate / decapsulate results for low-order peers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
