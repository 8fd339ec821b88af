TECH = {}
LEAF = 'Symbolic execution of the real functions (clang -O0 IR; AVX2 assembly decoded from the assembled objects) with every input element symbolic over its documented range; every output element is decided by z3 lemmas. Bounds: none left open (fixed-size data, loops run to their end); K=2,3,4, ref and avx2. Trusted: clang front end, the executor (its encodings are compared with the compiled code on concrete inputs every run), z3.'
KEMN = 'Symbolic execution of the KEM/PKE entry points with all input bytes symbolic; sub-functions that other properties decide are uninterpreted functions with solver-proved argument equality; every output byte is decided. A refuted lemma is reported only after the same inputs contradict the oracle in the compiled current tree.'
NOTE = {
 'C01': KEMN + ' Keccak permutation and PKE functions uninterpreted.', 'C02': KEMN + ' Keccak permutation and PKE functions uninterpreted.',
 'C03': KEMN + ' Ring arithmetic by per-coefficient lemmas modulo q; the noise margin is one lemma over all noise values.',
 'C11': KEMN + ' Matrix entries arbitrary in [0,q).', 'C14': KEMN + ' Both implementations are decided against one specification with the same symbolic inputs.',
 'C19': KEMN + ' Every 12-bit field of keys ranges over [0,4095].',
 'C04': LEAF, 'C05': LEAF, 'C06': LEAF, 'C07': LEAF + ' The Keccak permutation DAG must be identical to the FIPS 202 oracle DAG.',
 'C09': LEAF + ' Transforms and products are decided separately; that their composition is the negacyclic product is the exact linear-algebra identity of the oracle.',
 'C10': LEAF,
 'C08': 'Symbolic execution of gen_matrix and the rejection samplers over streams of symbolic 12-bit candidates. Bounds: windows of 8 (avx2) / 12 (ref) jointly free candidates at every group position, around completion and block boundaries; elsewhere candidates are symbolic within a fixed accepted/rejected class pattern; up to 7 extra blocks. Counterexamples are replayed in the real key generation/encryption linked with a stand-in XOF.',
 'C20': 'Symbolic execution of gen_matrix with the real SHAKE128 and four-way SHAKE128 code over an uninterpreted Keccak permutation; 32-byte seed symbolic, all index pairs and orientations, up to 3 extra blocks with fixed class patterns. Replay: real SHAKE against the specification with solver-chosen seeds.',
 'C12': 'Symbolic execution of the real sponge code over call sequences with symbolic message bytes; the permutation is an uninterpreted function there and is itself decided over all 1600 state bits against FIPS 202. Lengths are concrete: every residue of absorb/squeeze positions up to a few blocks and selected lengths up to 65536+rate.',
 'C13': 'Symbolic execution of the four-way sponge code with four independent symbolic messages, against four FIPS 202 instances; the 4-way permutation is decided over all 6400 state bits.',
 'C17': 'Symbolic execution of the four compiled variants of randombytes with a symbolic request length (below 2^40) and every system-call result symbolic (counts, failures, errno), up to 4 calls per request (thorough 6).',
 'C15': 'Self-composition: every branch condition, address, division operand and scalar selection met while all entry points are executed symbolically, and that depends on a secret symbol, is asked of z3: can two runs with equal public inputs differ here? All seeds, coins, keys, ciphertexts symbolic; clang -O0 IR and the assembled AVX2 objects. Counterexamples are replayed in an instrumented build of the tree. What optimising compilers make of branch-free source is outside.',
 'C16': 'Symbolic execution of all entry points with objects of exact size, alignment and initialisation tracking; each arithmetic operation whose operand ranges do not exclude overflow, an out-of-range shift or division by zero is a solver obligation. Matrix sampling and sponge call sequences within the bounds of C08/C12/C13. Counterexamples are replayed under ASan/UBSan and against guard pages.',
 'C18': 'Symbolic execution of all entry points with output buffers, stack memory and every mutable global the code writes holding arbitrary symbolic contents; no output may mention them, no input may change. Counterexamples are replayed as call histories in fresh processes.',
 'C21': 'Symbolic execution of rng.c with AES-256 uninterpreted behind the EVP interface: every key, counter, entropy, personalisation, seed; request lengths and splits up to the stated bounds.',
}
NA = {
 'C22': 'symbol visibility and link-time naming are properties of the linker symbol tables, not of any computation with symbolic inputs: there is no formula for a solver to decide',
}
