#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Decapsulation is the FO transform with implicit rejection",
 "For every secret key and every ciphertext, decapsulation returns 0 and outputs the shared key derived from the decrypted message and the stored public-key hash exactly when re-encrypting that message under the stored public key reproduces every bit of the ciphertext; in every other case it outputs SHAKE256(z || ciphertext) with the stored rejection secret z. No ciphertext bit and no secret-key byte is ignored or misplaced in that decision, for all three parameter sets and both implementations.",
 ["inputs", "configurations"],
 "all secret keys and all ciphertexts (valid, corrupted in any set of bits, adversarially chosen); Kyber512/768/1024; ref and avx2",
 "the tests corrupt one random byte of a handful of ciphertexts; a comparison that ignores one bit or byte, or a select that mixes the two keys for rare values, passes them",
 ["ref/kem.c", "ref/verify.c", "avx2/verify.c", "ref/symmetric-shake.c", "ref/fips202.c", "ref/indcpa.c", "avx2/indcpa.c"],
 [("re-encrypt, compare, conditional overwrite", "ref/kem.c:crypto_kem_dec"), ("byte compare and conditional move", "ref/verify.c, avx2/verify.c"), ("rejection key", "ref/symmetric-shake.c:kyber_shake256_rkprf")],
 [("sk", "indcpa sk || pk || H(pk) || z", "ref/params.h")], ["crypto_kem_dec"])

prop("C02", "Key generation and encapsulation derive every output byte as specified",
 "From 64 bytes of seed, key generation outputs the public key, and a secret key that is exactly the decryption key, the public key, SHA3-256 of the public key and the second half of the seed; from 32 bytes of coins, encapsulation outputs as shared key the first half of SHA3-512(coins || SHA3-256(pk)) and a ciphertext encrypting the coins under the second half as randomness. The randomised entry points behave as the seeded ones fed with exactly 64 (respectively 32) bytes of system randomness, and all of them return 0.",
 ["inputs", "configurations"],
 "all seeds, coins and public-key contents; Kyber512/768/1024; ref and avx2",
 "deterministic vectors sample 10000 seeds, tests never check key layout for arbitrary (adversarial) public keys nor the randomised wrappers against the seeded ones",
 ["ref/kem.c", "ref/symmetric-shake.c", "ref/fips202.c", "ref/indcpa.c", "avx2/indcpa.c"],
 [("seeded key generation", "ref/kem.c:crypto_kem_keypair_derand"), ("seeded encapsulation", "ref/kem.c:crypto_kem_enc_derand"), ("wrappers", "ref/kem.c:crypto_kem_keypair, crypto_kem_enc")],
 [("sk layout", "offsets of pk, H(pk), z", "ref/params.h")], ["crypto_kem_keypair_derand", "crypto_kem_enc_derand", "crypto_kem_keypair", "crypto_kem_enc"])

prop("C03", "Decryption returns the exact message whenever the noise is small enough",
 "Decryption computes, for every secret key and ciphertext, the message obtained by decompressing both ciphertext parts, subtracting the product of the secret vector with the first part in Z_q[X]/(X^256+1) and rounding every coefficient to the nearer of 0 and ceil(q/2). Hence for every message, if every coefficient of the accumulated noise (including compression error) has magnitude at most 831, decryption of the ciphertext returns that message bit for bit.",
 ["inputs", "configurations"],
 "all secret vectors, all ciphertexts, all messages and all noise polynomials within the bound; Kyber512/768/1024; ref and avx2",
 "with honest noise the coefficients stay far from the decision boundary, so a wrong boundary or a rare arithmetic slip is never sampled by round-trip tests",
 ["ref/indcpa.c", "ref/poly.c", "ref/polyvec.c", "ref/ntt.c", "avx2/indcpa.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/ntt.S", "avx2/invntt.S", "avx2/basemul.S"],
 [("decrypt", "ref/indcpa.c:indcpa_dec"), ("message rounding", "ref/poly.c:poly_tomsg"), ("decompression", "ref/poly.c:poly_decompress, ref/polyvec.c:polyvec_decompress")],
 [], ["indcpa_dec"])

prop("C04", "Key (de)serialisation is exact for every coefficient value",
 "Serialising a polynomial or vector packs each coefficient's canonical residue modulo q into 12 bits in the specified order, and deserialising returns each 12-bit field unchanged and in order. Serialise-after-deserialise is the identity on every encoding with all fields below q, and deserialise-after-serialise is the identity on residues.",
 ["inputs", "configurations"],
 "all coefficient vectors in the documented input range and all byte strings; both implementations and all vector lengths",
 "boundary residues (0, q-1, q, negative) and the bit positions of individual coefficients are reached only by chance through full KEM runs",
 ["ref/poly.c", "ref/polyvec.c", "avx2/poly.c", "avx2/shuffle.S", "avx2/polyvec.c"],
 [("pack/unpack 12 bit", "ref/poly.c:poly_tobytes, poly_frombytes; avx2/shuffle.S")], [], ["poly_tobytes", "poly_frombytes", "polyvec_tobytes", "polyvec_frombytes"])

prop("C05", "Ciphertext compression rounds exactly and decompression is exact",
 "For every coefficient in the documented range, compression to d bits (4/5 for the second ciphertext part, 10/11 for the first) yields round(2^d/q * x) mod 2^d of the canonical residue, packed in the specified bit order; decompression of every d-bit field yields round(q/2^d * y). Compressing after decompressing is the identity on every byte string, and decompressing after compressing moves a coefficient by at most round(q/2^(d+1)) modulo q.",
 ["inputs", "configurations"],
 "all coefficient values, all byte strings, d in {4,5,10,11}; ref and avx2",
 "a rounding slip at one of 3329 residues changes one coefficient by one step: rarely sampled, and error tolerance plus self-consistency hide it",
 ["ref/poly.c", "ref/polyvec.c", "avx2/poly.c", "avx2/polyvec.c"],
 [("multiply-and-shift rounding", "ref/poly.c:poly_compress, ref/polyvec.c:polyvec_compress; avx2/poly.c, avx2/polyvec.c"), ("decompression", "poly_decompress, polyvec_decompress")], [],
 ["poly_compress", "poly_decompress", "polyvec_compress", "polyvec_decompress"])

prop("C06", "Message encoding and rounding are exact on every coefficient",
 "Every 32-byte message becomes the polynomial whose i-th coefficient is (q+1)/2 if message bit i is set and 0 otherwise; every polynomial in the documented range becomes the message whose bit i is set exactly when the canonical residue of coefficient i lies in [833, 2496]. Decoding an encoded message after adding any error of magnitude at most 831 per coefficient returns the message.",
 ["inputs", "configurations"],
 "all messages, all coefficient values in the documented range, all 256 positions; ref and avx2",
 "honest executions keep coefficients near 0 and q/2; the decision boundaries 832/833 and 2496/2497 are never hit",
 ["ref/poly.c", "avx2/poly.c", "ref/verify.c"],
 [("constant-time encode", "poly_frommsg"), ("multiply-and-shift decode", "poly_tomsg")], [], ["poly_frommsg", "poly_tomsg"])

prop("C07", "Noise is sampled exactly from the centered binomial distribution",
 "Every noise coefficient is (sum of its first eta bits) minus (sum of its next eta bits) of the SHAKE256(seed || nonce) stream of 64*eta bytes, in order, with eta=3 for the Kyber512 secret/ephemeral noise and eta=2 otherwise. This holds for every seed and every nonce byte, whether samples are produced one at a time or four at a time.",
 ["inputs", "configurations"],
 "all seeds, all 256 nonces, all 64*eta-byte streams; both implementations, all parameter sets",
 "a wrong bit order or a wrong tail in one lane yields noise with the same distribution, which round trips cannot notice; fixed vectors pin only sampled values",
 ["ref/cbd.c", "ref/poly.c", "ref/symmetric-shake.c", "avx2/cbd.c", "avx2/poly.c", "avx2/fips202x4.c"],
 [("bit-sliced sums", "cbd2, cbd3"), ("PRF", "kyber_shake256_prf"), ("4-way noise", "avx2/poly.c:poly_getnoise_eta1_4x, poly_getnoise_eta1122_4x")], [],
 ["poly_getnoise_eta1", "poly_getnoise_eta2", "poly_getnoise_eta1_4x", "poly_getnoise_eta1122_4x", "poly_cbd_eta1", "poly_cbd_eta2"])

prop("C08", "Uniform sampling is exact rejection sampling for every XOF stream",
 "Every matrix entry consists of the first 256 12-bit little-endian fields below q of its XOF stream, in stream order, however many are rejected and however many extra blocks are needed; no field at or above q is ever used and no field is skipped, repeated or truncated at a block boundary. Sampling never writes beyond the polynomial.",
 ["inputs", "histories"],
 "all XOF output streams (every pattern of accepted/rejected candidates) with up to a stated number of extra blocks; ref and avx2",
 "a second refill needs a seed with probability far below what 10000 vectors reach; a wrong carry-over at a block boundary shows only on such seeds",
 ["ref/indcpa.c", "avx2/indcpa.c", "avx2/rejsample.c"],
 [("rejection loop", "ref/indcpa.c:rej_uniform, gen_matrix"), ("vector rejection with table", "avx2/rejsample.c:rej_uniform_avx"), ("refill loop", "avx2/indcpa.c:gen_matrix")], [],
 ["gen_matrix", "rej_uniform_avx"])

prop("C09", "NTT-domain multiplication is negacyclic multiplication modulo q",
 "The forward transform, pointwise products and inverse transform together compute the product in Z_q[X]/(X^256+1) for every pair of inputs in the documented ranges, each transform being the specified linear map modulo q, with the documented output order. No 16- or 32-bit intermediate overflows for any input in the documented range, and the outputs stay in their documented ranges.",
 ["inputs", "configurations"],
 "all polynomials with coefficients in the documented ranges (including extremes); ref C code and avx2 assembly",
 "overflow needs coefficients at their extreme values in specific positions simultaneously, which random vectors essentially never produce",
 ["ref/ntt.c", "ref/reduce.c", "ref/poly.c", "ref/polyvec.c", "avx2/ntt.S", "avx2/invntt.S", "avx2/basemul.S", "avx2/fq.S", "avx2/shuffle.S", "avx2/consts.c"],
 [("butterflies and zeta table", "ref/ntt.c, avx2/ntt.S, avx2/invntt.S, avx2/consts.c"), ("basemul", "ref/ntt.c:basemul, avx2/basemul.S")], [],
 ["poly_ntt", "poly_invntt_tomont", "poly_basemul_montgomery", "polyvec_basemul_acc_montgomery"])

prop("C10", "Modular reductions are exact over their whole input range",
 "Montgomery reduction maps every integer in (-q*2^15, q*2^15) to a representative of x*2^-16 mod q of magnitude below q; Barrett reduction maps every 16-bit integer to its documented representative modulo q; conversion to the Montgomery domain multiplies by 2^16 mod q. Polynomial addition, subtraction and reduction apply coefficientwise for every coefficient.",
 ["inputs", "configurations"],
 "all 2^16 (resp. q*2^16) inputs per coefficient and all 256 positions; ref and avx2",
 "single extreme inputs (for example -32768 or the boundary of the Montgomery range) are not exercised by any test",
 ["ref/reduce.c", "ref/poly.c", "ref/polyvec.c", "avx2/fq.S", "avx2/fq.inc", "avx2/poly.c", "avx2/polyvec.c"],
 [("montgomery_reduce, barrett_reduce", "ref/reduce.c"), ("vector reductions", "avx2/fq.S, avx2/fq.inc")], [],
 ["montgomery_reduce", "barrett_reduce", "poly_reduce", "poly_tomont", "poly_add", "poly_sub"])

prop("C11", "Public-key encryption computes exactly the specified ring equations",
 "For every seed, key generation outputs t = A*s + e with A expanded from the public seed and s, e sampled with the specified nonces; for every public key, message and coins, encryption outputs Compress(A^T*r + e1) and Compress(t*r + e2 + encoded message) with t read from the public key. Outputs are byte-exact encodings of these ring elements for every parameter set and both implementations.",
 ["inputs", "configurations"],
 "all seeds, coins, messages, public-key byte strings and all matrix entries in [0,q); K in {2,3,4}; ref and avx2",
 "vectors check only sampled honest keys; arbitrary public keys and every output byte as a function of all inputs are outside what they settle",
 ["ref/indcpa.c", "ref/polyvec.c", "ref/poly.c", "avx2/indcpa.c", "avx2/polyvec.c", "avx2/poly.c"],
 [("keygen/encrypt composition and nonces", "indcpa_keypair_derand, indcpa_enc")], [("nonce", "domain separation between noise polynomials", "ref/indcpa.c, avx2/indcpa.c")],
 ["indcpa_keypair_derand", "indcpa_enc"])

prop("C12", "SHA-3 and SHAKE are exact for every message and every chunking",
 "SHA3-256, SHA3-512, SHAKE128 and SHAKE256 produce the FIPS 202 output for every message and output length, one-shot or incremental. Splitting the same message over any sequence of absorb calls (including empty ones) and the same output over any sequence of squeeze calls and block-squeeze calls (the latter at block boundaries, as documented) never changes the bytes, and hashing never modifies its input.",
 ["inputs", "histories"],
 "all message contents; message and output lengths and call sequences up to stated bounds covering every residue modulo the rate and several blocks",
 "the tests use a few fixed lengths through the KEM; the incremental interface at rate boundaries is not exercised at all",
 ["ref/fips202.c", "ref/symmetric-shake.c", "avx2/fips202.c"],
 [("permutation", "KeccakF1600_StatePermute"), ("sponge bookkeeping", "keccak_absorb, keccak_squeeze, keccak_finalize, keccak_absorb_once, keccak_squeezeblocks")],
 [("pos", "bytes absorbed/squeezed in the current block", "ref/fips202.h:keccak_state")],
 ["shake128*", "shake256*", "sha3_256", "sha3_512"])

prop("C13", "Four-way parallel SHAKE equals four independent SHAKE computations",
 "Each of the four lanes of the parallel SHAKE128/SHAKE256 interface produces exactly the output of an independent SHAKE over that lane's own input, for every four inputs of a common length and every output length, one-shot or block-wise. No lane reads or influences another lane's data.",
 ["inputs", "histories"],
 "all contents of the four inputs; all input lengths and output lengths up to stated bounds covering every residue modulo the rate",
 "the KEM uses only 33/34-byte inputs and fixed output sizes; other lengths and the one-shot calls are never run by a test",
 ["avx2/fips202x4.c", "avx2/keccak4x/KeccakP-1600-times4-SIMD256.c", "avx2/keccak4x/KeccakP-1600-unrolling.macros"],
 [("gather-based absorb", "avx2/fips202x4.c:keccakx4_absorb_once"), ("4-way permutation", "KeccakP1600times4_PermuteAll_24rounds")], [],
 ["shake128x4*", "shake256x4*"])

prop("C14", "The AVX2 implementation is byte-for-byte equivalent to the reference",
 "For every parameter set and every input, the AVX2 and the reference implementation produce identical bytes: the same keys from the same seeds, the same ciphertext and shared key from the same public key and coins, and the same shared key from the same secret key and ciphertext. This includes malformed inputs such as public keys with coefficients at or above q and arbitrary ciphertext bytes.",
 ["inputs", "configurations"],
 "all seeds, coins, keys, ciphertexts (honest or malformed); K in {2,3,4}",
 "the shared vectors sample honest seeds only; divergence on extreme or malformed inputs is not sampled",
 ["avx2/indcpa.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/cbd.c", "avx2/rejsample.c", "avx2/ntt.S", "avx2/invntt.S", "avx2/basemul.S", "avx2/fq.S", "avx2/shuffle.S", "avx2/consts.c", "avx2/verify.c", "avx2/fips202x4.c", "ref/indcpa.c", "ref/poly.c", "ref/polyvec.c", "ref/ntt.c", "ref/cbd.c"],
 [("vectorised counterparts of every reference kernel", "avx2/*")], [], ["crypto_kem_keypair_derand", "crypto_kem_enc_derand", "crypto_kem_dec"])

prop("C15", "Control flow and memory addresses never depend on secrets",
 "In key generation, encapsulation and decapsulation, no branch decision, no memory address and no operand of a division instruction in the source depends on secret data: seeds, coins, secret-key material, noise, decrypted messages, shared keys, or whether a ciphertext was rejected. Only the public matrix seed, public keys and ciphertexts may influence them.",
 ["inputs", "configurations"],
 "all pairs of secrets for all public inputs; K in {2,3,4}; ref and avx2",
 "functional tests cannot observe timing or access patterns at all",
 ["ref/kem.c", "ref/indcpa.c", "ref/poly.c", "ref/polyvec.c", "ref/ntt.c", "ref/cbd.c", "ref/reduce.c", "ref/verify.c", "ref/fips202.c", "avx2/poly.c", "avx2/polyvec.c", "avx2/cbd.c", "avx2/verify.c", "avx2/indcpa.c"],
 [("branch-free select and compare", "ref/verify.c"), ("division-free rounding", "ref/poly.c:poly_compress, poly_tomsg"), ("branch-free message encoding", "poly_frommsg")], [],
 ["crypto_kem_keypair_derand", "crypto_kem_enc_derand", "crypto_kem_dec"])

prop("C16", "No out-of-bounds access, uninitialised read or undefined behaviour",
 "Given buffers of exactly the documented sizes, no entry point of the KEM or of the SHA-3/SHAKE libraries (including the four-way one) reads or writes outside them or outside its own objects, makes a misaligned vector access, reads uninitialised memory into a result, or executes signed overflow, an out-of-range shift or another undefined operation. This holds for all input contents and for caller buffers of any alignment.",
 ["inputs", "configurations"],
 "all input contents, exact-size buffers; K in {2,3,4}; ref and avx2; hash lengths up to stated bounds",
 "over-reads of a few bytes land in neighbouring valid memory, and signed overflow or misalignment wraps silently; tests and valgrind use stack buffers with slack and sampled inputs",
 ["ref/kem.c", "ref/indcpa.c", "ref/poly.c", "ref/polyvec.c", "ref/fips202.c", "avx2/polyvec.c", "avx2/indcpa.c", "avx2/cbd.c", "avx2/fips202x4.c", "avx2/rejsample.c", "avx2/verify.c"],
 [("padded local buffers", "avx2/align.h, avx2/indcpa.c"), ("loop bounds", "all")], [],
 ["all public entry points"])

prop("C17", "System randomness fills the whole buffer or the process aborts",
 "A request for n random bytes returns only after every one of the n bytes has been written exactly by the operating-system source, in order, whatever sequence of interruptions, short reads and transient failures occurs. Any unrecoverable failure aborts the process instead of returning with bytes unfilled, and nothing beyond the buffer is written.",
 ["fault_sequences", "inputs"],
 "all request lengths and all sequences (up to a stated number of system calls) of results: full, short, interrupted, failed; all compiled-in variants",
 "interrupted and short reads practically never happen in tests",
 ["ref/randombytes.c"],
 [("retry loops", "ref/randombytes.c:randombytes")], [], ["randombytes"])

prop("C18", "Results depend only on declared inputs; inputs are left unmodified",
 "Every seeded operation, decapsulation and hash is a deterministic function of its arguments: results never depend on earlier calls, on global or static state, on uninitialised memory, on buffer addresses or alignment, or on the prior contents of the output buffers. Input buffers are never modified, and nothing but the declared outputs is written.",
 ["histories", "inputs"],
 "all call histories (arbitrary contents of all mutable global state and of stack memory) and all inputs; K in {2,3,4}; ref and avx2",
 "tests run one fixed order of calls; a cached or stale value shows only for particular sequences of calls",
 ["ref/kem.c", "ref/indcpa.c", "avx2/indcpa.c", "ref/fips202.c", "avx2/fips202x4.c"],
 [("no mutable static data", "all sources")], [], ["crypto_kem_keypair_derand", "crypto_kem_enc_derand", "crypto_kem_dec", "fips202 API"])

prop("C19", "Malformed keys and ciphertexts are processed exactly modulo q",
 "Encapsulation and decapsulation accept every byte string of the right length as public key, secret key or ciphertext: 12-bit fields at or above q act as their residue modulo q in all ring computations, while the hashes cover the raw bytes. No such input causes an error, overflow, or a deviation from the specified equations.",
 ["inputs", "configurations"],
 "all byte strings as pk, sk, ct, including every field in [q, 4095]; K in {2,3,4}; ref and avx2",
 "the tests only feed honestly generated keys, whose fields are all below q",
 ["ref/poly.c", "ref/polyvec.c", "ref/indcpa.c", "avx2/poly.c", "avx2/shuffle.S", "avx2/basemul.S", "avx2/indcpa.c", "ref/kem.c"],
 [("deserialisation without range check", "poly_frombytes"), ("reductions tolerate 12-bit inputs", "basemul, montgomery_reduce")], [], ["crypto_kem_enc_derand", "crypto_kem_dec"])

prop("C20", "The matrix is expanded from the right seed and indices, transposed properly",
 "Entry (i,j) of the public matrix is sampled from SHAKE128(seed || j || i), and of its transpose from SHAKE128(seed || i || j), for every 32-byte seed; all entries lie in [0,q). The seed is never modified, and the result does not depend on whether entries are sampled one at a time or four in parallel.",
 ["inputs", "configurations"],
 "all seeds, all index pairs, both orientations, K in {2,3,4}; ref and avx2",
 "a swapped index that is consistent in key generation and encryption survives every round trip; vectors pin only sampled seeds",
 ["ref/indcpa.c", "ref/symmetric-shake.c", "avx2/indcpa.c", "avx2/fips202x4.c"],
 [("XOF seeding", "kyber_shake128_absorb; avx2/indcpa.c:gen_matrix")], [], ["gen_matrix", "kyber_shake128_absorb"])

prop("C21", "The KAT generator's DRBG follows AES-256 CTR_DRBG for every request",
 "For every DRBG state and request length, the known-answer generator's random stream is AES-256 in counter mode over a 128-bit big-endian counter with full carry, followed by one state update, and seeding mixes every byte of entropy and personalisation. Its seed expander returns the same stream however the requests are split and refuses requests beyond its budget without output.",
 ["inputs", "histories"],
 "all keys, counters (including all-0xff carries), entropy inputs, request lengths and splits up to stated bounds",
 "the KAT program is only compared with itself; a carry beyond the low counter bytes is never reached",
 ["ref/nistkat/rng.c"],
 [("counter increment and update", "ref/nistkat/rng.c:AES256_CTR_DRBG_Update, randombytes"), ("buffered stream", "ref/nistkat/rng.c:seedexpander")],
 [("DRBG_ctx", "key, counter, reseed counter", "ref/nistkat/rng.c")], ["randombytes", "randombytes_init", "seedexpander"])

prop("C22", "All variants can be linked into one program without symbol clashes",
 "Every externally visible symbol of each parameter set and implementation carries that variant's own prefix (or is shared, identical hash code), so that any combination of the libraries can be linked and used in one program, each call reaching its own variant.",
 ["configurations"],
 "all pairs of libraries (three parameter sets, two implementations, hash libraries)",
 "each test program links exactly one variant",
 ["ref/params.h", "avx2/params.h", "ref/fips202.h", "avx2/fips202x4.h", "ref/symmetric.h"],
 [("name-spacing macros", "ref/params.h:KYBER_NAMESPACE")], [], ["nm of the shared libraries"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
