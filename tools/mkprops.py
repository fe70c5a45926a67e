#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
KEMF = ["ref/kem.c", "ref/indcpa.c", "ref/poly.c", "ref/polyvec.c", "ref/ntt.c", "ref/reduce.c", "ref/cbd.c", "avx2/indcpa.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/cbd.c", "avx2/rejsample.c"]
API = ["crypto_kem_keypair_derand / _enc_derand / _dec of the six (implementation, parameter set) builds"]

prop("C01", "Encapsulation and decapsulation agree",
 "For every key pair the library generates and every ciphertext it encapsulates to that public key, decapsulation with the matching secret key returns exactly the shared secret the encapsulator obtained, whichever of the two implementations performs each of the three steps. (The scheme's own decryption-failure probability, below 2^-138, is the only exception.)",
 ["inputs", "configurations", "histories"], "all 64-byte key coins, all 32-byte message coins, three parameter sets, all assignments of {ref, avx2} to the three steps",
 "test_kyber samples 1000 random round trips within one implementation; test_vectors 10000. Agreement across implementations and at extremal noise, message and matrix values is never exercised.",
 KEMF, [("keypair_derand/enc_derand/dec", "ref/kem.c"), ("indcpa_keypair_derand/enc/dec", "ref/indcpa.c, avx2/indcpa.c")], API)
prop("C02", "Any altered ciphertext is implicitly rejected",
 "Decapsulating any byte string of ciphertext length other than the one re-encryption of the decrypted message produces returns status 0 and the secret SHAKE256(z || ciphertext), where z is the last 32 bytes of the secret key; it never returns the honest shared secret, a partially selected mixture, or a value that does not depend on the whole ciphertext.",
 ["inputs"], "all secret keys, all 2^(8*768..8*1568) ciphertexts: every single bit and byte position, sets of positions whose differences cancel, and arbitrary strings",
 "test_kyber flips one random byte in 1000 ciphertexts and only checks that the result differs from the honest secret; most positions, multi-byte cancelling differences and the rejection value itself are unchecked (test_vectors pins one random ciphertext per key).",
 ["ref/kem.c", "ref/verify.c", "avx2/verify.c", "ref/symmetric-shake.c"], [("re-encrypt, compare, select", "ref/kem.c crypto_kem_dec"), ("verify/cmov", "ref/verify.c, avx2/verify.c"), ("rkprf", "ref/symmetric-shake.c")], ["crypto_kem_dec"])
prop("C03", "Key generation is the standard's function of the coins",
 "For every 64-byte coin string d||z, the generated public and secret key are byte for byte those of ML-KEM key generation for the parameter set: (rho,sigma) = SHA3-512(d||k), t = A s + e, the secret key containing s, the public key, its SHA3-256 and z. Both are canonical (all coefficients fully reduced).",
 ["inputs", "configurations"], "all 2^512 coin strings, three parameter sets, both implementations",
 "test_vectors hashes 10000 outputs from one fixed SHAKE stream against a stored sum; coefficient values and sampler paths that this stream does not reach are never compared.",
 KEMF + ["ref/symmetric-shake.c"], [("crypto_kem_keypair_derand", "ref/kem.c"), ("indcpa_keypair_derand", "ref/indcpa.c, avx2/indcpa.c")], ["crypto_kem_keypair_derand"])
prop("C04", "Encapsulation is the standard's function of public key and message",
 "For every public-key byte string (including ones whose 12-bit coefficients exceed the modulus, which are taken modulo q while the raw bytes are hashed) and every 32-byte message, the ciphertext and shared secret are byte for byte those of ML-KEM encapsulation without input checks.",
 ["inputs", "configurations"], "all public-key byte strings of the right length, all messages, three parameter sets, both implementations",
 "All tests encapsulate only to honestly generated keys; non-canonical and extremal public keys are never tried.",
 KEMF, [("crypto_kem_enc_derand", "ref/kem.c"), ("indcpa_enc", "ref/indcpa.c, avx2/indcpa.c"), ("poly_frombytes", "ref/poly.c, avx2/shuffle.S")], ["crypto_kem_enc_derand"])
prop("C05", "Decapsulation is the standard's function of secret key and ciphertext",
 "For every secret-key and ciphertext byte string of the right length, decapsulation returns status 0 and the shared secret of ML-KEM decapsulation without input checks, using the public key, public-key hash and rejection value stored in the secret key and taking stored coefficients modulo q.",
 ["inputs", "configurations"], "all secret-key byte strings (honest, random, mixed from several keys, unreduced coefficients), all ciphertexts, three parameter sets, both implementations",
 "Tests decapsulate honest keys, one corrupted byte, or one uniformly random secret key and check inequality only.",
 KEMF, [("crypto_kem_dec", "ref/kem.c"), ("indcpa_dec", "ref/indcpa.c, avx2/indcpa.c")], ["crypto_kem_dec"])
prop("C06", "Reference and AVX2 implementations are interchangeable",
 "On identical arguments the reference and the AVX2 implementation of a parameter set produce identical bytes in every output buffer and the same status, for key generation, encapsulation and decapsulation, including malformed keys and ciphertexts.",
 ["inputs", "configurations"], "all argument byte strings of the right lengths, three parameter sets",
 "Each implementation is tested alone against stored sums of 10000 honest vectors; disagreement on malformed or extremal inputs is invisible.",
 KEMF + ["avx2/ntt.S", "avx2/invntt.S", "avx2/basemul.S", "avx2/fq.S", "avx2/shuffle.S", "avx2/consts.c"], [("two implementations of the same API", "ref/, avx2/")], API)
prop("C07", "Matrix sampling follows the XOF stream exactly",
 "Every entry of the public matrix is the sequence of the first 256 12-bit values below 3329 of the SHAKE128 stream seeded with rho and the entry's indices (transposed for encapsulation), in stream order, however many values the stream makes the sampler reject and whatever block the last one comes from.",
 ["inputs", "configurations"], "all SHAKE128 output streams (any pattern of acceptances and rejections, any number of squeezed blocks), all matrix positions, three parameter sets, both implementations",
 "Random seeds virtually never need a fifth block, never reject long runs, and hit boundary values 3328/3329 at random alignments only.",
 ["ref/indcpa.c", "avx2/indcpa.c", "avx2/rejsample.c", "ref/symmetric-shake.c"], [("gen_matrix, rej_uniform", "ref/indcpa.c"), ("gen_matrix, rej_uniform_avx", "avx2/indcpa.c, avx2/rejsample.c")], API,
 [("rejection-sampler position", "accepted count, stream offset, block number", "gen_matrix")])
prop("C08", "Noise is the centred binomial of the right PRF stream",
 "Every secret and error polynomial is the centred binomial expansion (eta = 3 for the first noise of the smallest set, else 2) of SHAKE256(seed || n), the nonce n counting 0,1,2,... through the polynomials in the standard's order so that no two polynomials of one operation share a stream; this holds for every value of the stream.",
 ["inputs", "configurations"], "all PRF output bytes, all polynomials of each operation, three parameter sets, both implementations",
 "Pinned vectors sample the 4-/6-bit groups only through random seeds, and an unused AVX2 lane or a nonce slip that cancels is not distinguishable from outside by round-trip tests.",
 ["ref/cbd.c", "avx2/cbd.c", "ref/poly.c", "avx2/poly.c", "avx2/indcpa.c", "ref/indcpa.c"], [("cbd2/cbd3", "ref/cbd.c, avx2/cbd.c"), ("poly_getnoise_eta1/eta2(_4x)", "ref/poly.c, avx2/poly.c")], API)
prop("C09", "Serialisation and compression are exact and canonical",
 "Coefficients are packed and unpacked as little-endian 12-bit values, ciphertext coefficients are rounded to nearest to d bits (d = 10 and 4, or 11 and 5 for the largest set) and expanded by the standard's rounding, and message bits are decoded by rounding to nearest, for every coefficient value 0..3328 (and unreduced input up to 4095) at every coefficient position.",
 ["inputs", "configurations"], "all 3329 (4096 on input) coefficient values x 256 positions x all d, all byte strings on input, both implementations",
 "Pinned vectors reach coefficient values and the rounding boundaries only at random; an off-by-one at one of the ~2^d boundary values can survive.",
 ["ref/poly.c", "ref/polyvec.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/shuffle.S"], [("poly_compress/decompress/tobytes/frombytes/frommsg/tomsg", "ref/poly.c, avx2/poly.c"), ("polyvec_compress/decompress", "ref/polyvec.c, avx2/polyvec.c")], API)
prop("C10", "Polynomial arithmetic is exact for all admissible operands",
 "All computations on keys, noise and ciphertexts equal the exact computation in Z_3329[X]/(X^256+1): no intermediate overflow, missing reduction or wrong twiddle factor changes any result, for any stored coefficients 0..4095, any matrix, any noise and any ciphertext.",
 ["inputs", "configurations"], "all operand polynomials reachable through the API, in particular sign-aligned and extremal ones that maximise lazily reduced intermediates; three parameter sets, both implementations",
 "Random operands keep lazily reduced 16-bit intermediates far from their limits; overflow needs aligned extremal coefficients.",
 ["ref/ntt.c", "ref/reduce.c", "ref/poly.c", "ref/polyvec.c", "avx2/ntt.S", "avx2/invntt.S", "avx2/basemul.S", "avx2/fq.S", "avx2/consts.c"], [("ntt/invntt/basemul", "ref/ntt.c, avx2/*.S"), ("montgomery/barrett reduction", "ref/reduce.c, avx2/fq.inc")], API)
prop("C11", "SHA-3 and SHAKE equal the standard for every chunking",
 "One-shot SHA3-256/512 and SHAKE128/256 equal FIPS 202 for every message and output length, and the incremental interface gives the same stream for every way of splitting the message over absorb calls (including empty and exactly block-sized pieces) and the output over squeeze and squeeze-blocks calls.",
 ["inputs", "histories"], "all messages, all sequences of absorb/finalize/squeeze calls and lengths, both builds of the hash library",
 "The KEM uses a handful of fixed lengths; the exported incremental interface is exercised by no test at all beyond those.",
 ["ref/fips202.c", "ref/fips202.h"], [("keccak_absorb/finalize/squeeze/squeezeblocks/absorb_once", "ref/fips202.c"), ("KeccakF1600_StatePermute", "ref/fips202.c")], ["the exported fips202 functions"],
 [("sponge state and position", "25 lanes and the byte position inside the rate", "keccak_state")])
prop("C12", "Four-way hashing equals four single hashes",
 "The four-way SHAKE128/256 functions return in each of the four lanes exactly the single-lane result for that lane's input, for every input and output length, and read and write no byte outside the buffers they are given.",
 ["inputs", "histories"], "all four-tuples of inputs, all input and output lengths, any sequence of block squeezes",
 "The four-way functions are only reached through the KEM with 33/34-byte inputs and one or three blocks.",
 ["avx2/fips202x4.c", "avx2/keccak4x/KeccakP-1600-times4-SIMD256.c"], [("keccakx4_absorb_once/squeezeblocks", "avx2/fips202x4.c"), ("KeccakP1600times4_PermuteAll_24rounds", "avx2/keccak4x")], ["the exported fips202x4 functions"])
prop("C13", "System randomness fills the whole buffer or the process stops",
 "Whatever sequence of short reads, interruptions and transient open failures the operating system returns, a randomness request either fills every byte of exactly the requested buffer with bytes the source delivered, in order, or ends the process on a permanent error; it never returns early, skips, repeats or overruns, and leaks no descriptor.",
 ["fault_sequences", "inputs", "configurations"], "all result sequences of the system calls, all request lengths including 0 and beyond 2^32, each platform branch of the source",
 "No test can make the kernel return short, interrupted or failing reads, and only the Linux branch is ever compiled.",
 ["ref/randombytes.c"], [("randombytes (win32, getrandom, netbsd, /dev/urandom)", "ref/randombytes.c")], ["randombytes, with the system calls interposed"],
 [("remaining length", "bytes still to fill", "randombytes"), ("fd", "open descriptor of the random device", "randombytes")])
prop("C14", "Randomised operations use fresh coins exactly once",
 "Randomised key generation and encapsulation equal their deterministic variants applied to exactly 64 respectively 32 bytes newly drawn from the randomness source in order; no drawn byte is used twice, dropped, shared between operations or replaced, and decapsulation and the deterministic variants draw nothing.",
 ["histories", "inputs", "configurations"], "all histories of operations over one randomness stream, all stream values, three parameter sets, both implementations",
 "test_kyber cannot see which random bytes were drawn; a reused, truncated or constant coin still round-trips.",
 ["ref/kem.c", "ref/randombytes.c"], [("crypto_kem_keypair, crypto_kem_enc", "ref/kem.c")], ["crypto_kem_keypair / crypto_kem_enc with the randomness source interposed"],
 [("randomness stream position", "how many bytes were drawn", "environment")])
prop("C15", "Operations are pure: history, interleaving and threads do not matter",
 "The result of every deterministic operation depends only on its arguments' bytes: not on earlier calls (with other keys, related keys, reused buffers, failed decapsulations), on buffer addresses, on other parameter sets in the same process, or on operations running concurrently in other threads.",
 ["histories", "schedules", "configurations"], "all finite histories of operations on any keys, all interleavings of threads, all six builds in one process",
 "Tests run one parameter set in one thread and never repeat an operation in a different history.",
 ["ref/kem.c", "ref/indcpa.c", "avx2/indcpa.c", "ref/fips202.c", "avx2/fips202x4.c", "avx2/consts.c"], [("absence of mutable global state", "ref/, avx2/")], API)
prop("C16", "Calls write exactly their outputs, read only their inputs, at any alignment",
 "Each KEM operation works for buffers at every address alignment, writes exactly the documented number of bytes to each output buffer, leaves every input buffer unchanged, and accesses no byte outside the buffers it was given.",
 ["inputs", "configurations"], "all alignments, all argument values, buffers bounded on either side by inaccessible pages; three parameter sets, both implementations",
 "Tests use compiler-aligned stack arrays next to other live memory; over-reads and over-writes go unnoticed, and misalignment is never tried.",
 ["ref/kem.c", "ref/poly.c", "ref/polyvec.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/shuffle.S", "avx2/verify.c", "avx2/rejsample.c", "ref/api.h"], [("sized buffers", "ref/params.h, ref/api.h"), ("unaligned loads/stores", "avx2/*.c, avx2/*.S")], API)
prop("C17", "All builds coexist and match their published sizes and names",
 "The shared libraries export only symbols of their own namespace, define every function their public header declares with the published sizes, take hash and randomness functions from outside only under the documented names, and all parameter sets of both implementations can be linked into one program where each behaves as it does alone.",
 ["configurations"], "all subsets and link orders of the eight shared libraries, static linking of all builds into one executable, all public header declarations",
 "Every test links exactly one parameter set statically with default names.",
 ["ref/api.h", "avx2/api.h", "ref/params.h", "avx2/params.h", "ref/Makefile", "avx2/Makefile", "ref/fips202.h", "avx2/fips202x4.h", "README.md"], [("KYBER_NAMESPACE / FIPS202_NAMESPACE", "ref/params.h, avx2/params.h, ref/fips202.h, avx2/fips202x4.h"), ("published sizes", "ref/api.h, ref/params.h")], ["symbol tables of the shared libraries; calls through api.h names"])
prop("C18", "Execution is independent of secrets",
 "The sequence of executed instructions and of accessed memory addresses, and the operands of variable-time instructions, of key generation, encapsulation and decapsulation depend only on public data (sizes, matrix seed, public key, ciphertext), never on coins, message, secret key, rejection value or on whether decapsulation accepts or rejects.",
 ["inputs", "configurations"], "all pairs of secret inputs with equal public inputs (two-safety), accepting and rejecting decapsulations, three parameter sets, both implementations",
 "Tests compare outputs only; a secret-dependent branch, table index or division changes no output. (Compiler-dependent: decided for the installed compiler and the project's flags.)",
 ["ref/verify.c", "avx2/verify.c", "ref/poly.c", "ref/polyvec.c", "ref/reduce.c", "ref/cbd.c", "ref/kem.c", "ref/indcpa.c", "avx2/poly.c"], [("branch-free compare, select and message encoding", "ref/verify.c, ref/poly.c"), ("division-free compression", "ref/poly.c, ref/polyvec.c")], ["instruction and address traces of the compiled operations"])
prop("C19", "Compare and conditional move are correct for every length",
 "The constant-time comparison returns 0 exactly when the two byte strings are equal and 1 otherwise, and the conditional move copies all of its source when the condition is 1 and nothing when it is 0, for every length (including 0 and lengths that are not a multiple of the vector width), alignment, content and pattern of differences, touching nothing outside the strings.",
 ["inputs"], "all lengths, alignments, contents and sets of differing positions; both implementations",
 "The KEM only calls them with two fixed lengths (the vector tail is dead code there) and tests only single random differences.",
 ["ref/verify.c", "avx2/verify.c"], [("verify, cmov, cmov_int16", "ref/verify.c, avx2/verify.c")], ["verify / cmov as declared in verify.h"])
prop("C20", "The KAT random generator is the NIST AES-256-CTR DRBG",
 "For every entropy input, optional personalisation string and every sequence of request lengths, the deterministic generator used for known-answer tests returns exactly the bytes of the NIST AES-256-CTR DRBG (no derivation function, no prediction resistance), with key and counter updated after each request and counters carrying across all 16 bytes.",
 ["inputs", "histories"], "all 48-byte inputs, all sequences of initialisations and requests of any length (0, partial blocks, multi-block), all counter values including full carries",
 "The KAT programs only check that the KEM round-trips; the generator's output is compared with nothing.",
 ["ref/nistkat/rng.c", "ref/nistkat/rng.h"], [("randombytes_init, randombytes, AES256_CTR_DRBG_Update", "ref/nistkat/rng.c")], ["rng.h functions"],
 [("Key, V, reseed counter", "generator working state", "DRBG_ctx")])
prop("C21", "The seed expander delivers one stream within its budget",
 "The KAT seed expander returns consecutive bytes of AES-256-CTR under the seed, starting from the block diversifier || length || 0, independently of how requests are split; a request that is not smaller than the remaining budget, a null output and an over-long budget are refused with their documented codes and change nothing.",
 ["histories", "inputs"], "all seeds, diversifiers, budgets and sequences of request lengths, including refused ones and 32-bit block-counter carries",
 "No test or program in the repository calls it.",
 ["ref/nistkat/rng.c", "ref/nistkat/rng.h"], [("seedexpander_init, seedexpander", "ref/nistkat/rng.c")], ["rng.h functions"],
 [("buffer, buffer position, counter, remaining length", "expander state", "AES_XOF_struct")])
prop("C22", "The KAT generator's files state what the library computes",
 "The request and response files written by the known-answer generator contain, for counts 0..99, the seeds the DRBG yields from the fixed entropy input and, for each, the public key, secret key, ciphertext and shared secret that the library computes from the DRBG re-seeded with that seed, in the NIST format; every reported record decapsulates to its shared secret.",
 ["inputs", "configurations"], "all 100 records of three parameter sets",
 "The test suite only looks at the generator's exit status.",
 ["ref/nistkat/PQCgenKAT_kem.c", "ref/nistkat/rng.c", "ref/kem.c"], [("main, ReadHex, FindMarker, fprintBstr", "ref/nistkat/PQCgenKAT_kem.c")], ["PQCkemKAT_*.req / .rsp"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
