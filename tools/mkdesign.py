T = r'''# Design

Contract-based deductive verification of the C code of faest-ref, function by function, from its LLVM IR, on every run.

## 1. Method in short

* **Contracts** are executable C functions (`contract_X`, in `ob/*.c`) with the signature of the real function X: they state
  preconditions (`fv_require`), what X writes and returns, in terms of independent specification functions (`spec/spec_*.c`,
  written from the FAEST v1 specification, FIPS 197, FIPS 202 and the Rijndael submission), and nothing else.
* **Proof units** ("obligations", `ob/ob_*.c`, listed in `ob/obligations.py`) call a real function of /repo on fully symbolic
  data, compare every output bit with the specification (`fv_eq`, `fv_check`), bracket the call with a frame
  (`fv_frame_begin` / `fv_assigns`: every write elsewhere is an obligation that fails) and a heap balance
  (`fv_heap_mark`/`fv_heap_check`). Callees are replaced by their contracts with `FV_CONTRACT(X, contract_X)`; a caller is
  thus checked against the contract of X, not its body. Every unit declares the contracts it `uses` and those it `proves`;
  an undeclared use is an error, a used contract that nothing proves and that is not in `ASSUMED` is an error.
* **Back end**: `engine/fve.cpp` is a verification-condition generator written for this task (none of the installed tools
  fits: CBMC's SAT back end cannot do Keccak, GF(2^256) products or the 300 000-AND witness constraints; Frama-C has no WP
  here; VeriFast/VST are not installed). It executes the IR of /repo's sources with concrete control and addresses and
  symbolic data, and *normalises* as it goes: bits are XOR/AND normal forms (algebraic normal form below `--and-limit`),
  bytes and vectors of bytes are XOR lists over byte atoms, abstract functions (AES round keys are not abstract, but e.g.
  `PRG`, SHAKE of a ghost list, GF(2^8) inversion) are uninterpreted with congruence. Equality of normal forms is decided by
  128-bit fingerprints (structural hashing; collision probability about 2^-128); what the normal form leaves open goes to z3.
  In `--ring` mode (universal hashes and proof) a bit is an element of the polynomial ring over GF(2^8nb) and identities are
  checked by evaluation at a pseudo-random point (Schwartz-Zippel; error about 2^-128), which makes
  field identities over thousands of unknowns instant.
* **What is proved is what runs.** /repo is configured with its own meson build (default and portable options), every
  library source is compiled by clang from /repo's working tree with the flags of that build, the units are linked to it, and
  LLVM's `sroa, early-cse, simplifycfg, lowerswitch` are applied. Nothing is extracted or rewritten by hand; no file of
  /repo carries annotations. `crypto_sign.c` is compiled twelve times as in the build, with the three exported names
  suffixed by the set. The only changes by `-D`: `FAEST_STATIC`, `FAEST_EXPORT=` (visibility attribute).
* **CBMC** decides three units whose loops run over an *unbounded length* (message lengths): `SpongeAbsorb`'s call sequence
  for every length up to 2^60, and the NIST wrappers for every message length and placement. All unwinding is asserted, so no
  bound is left; lengths are symbolic, the watched byte of the message is symbolic.
* **Loops**: loops over parameter-set constants are unrolled completely (they are bounded by the set, all twelve sets are
  enumerated); loops over data that has no bound in the set use invariants: the rejection loop of key generation (`fv_loop_point`:
  state havocked except what the invariant keeps; partial correctness), `zk_hash_update` (representation invariant over
  named members, one update from any state), message hashing (ghost lists of symbolic length), sponge absorption (CBMC).
* **Judging what the code does.** Contracts sit on header-level functions. Two file-local helpers (`xor_u8_array`,
  `ConvertToVole`) carry contracts if they exist under that name and are inlined otherwise; all other static functions are
  inlined. Splitting, merging or reordering code inside those boundaries does not matter.
* **Failure**: a refuted obligation is reported with its label, location and the counterexample. `driver/check.py` then
  builds /repo and the same unit natively (gcc, address and undefined sanitizers) and replays the counterexample and a
  number of random and edge inputs; if the real code fails, the VIOLATION line carries a replay file with that input, else
  it ends with `no-failing-input-found`. A unit the prover no longer accepts for want of reach (engine limit, memory, time; a
  second try on its own with twice the memory comes first) is treated alike: the proof redone from the changed source fails.
  For both, `fve --hints` runs the unit once more and solves the first data-dependent branch conditions of /repo's functions
  either way; these directed inputs are replayed too (this is how b22 and b24 below get their failing input).
  Exit 2 is left for a tree whose library does not compile.

## 2. Properties and how each is decided

| id | units | what is quantified symbolically | what is enumerated |
|---|---|---|---|
| P01 | `ob_bf*` | both operands, all bits | five fields; vector-extension and plain-struct builds |
| P02 | `ob_bf*_embed/byte_combine/sum_poly` | all inputs | three fields, both builds |
| P03 | `ob_aes_*` | key and block (S-box via the contract of `bf8_inv`) | five ciphers |
| P04 | `ob_prg`, `ob_increment_iv` | seed, IV | lengths 0..1040 (default), used lengths and 0..79 (portable quick; 0..1040 thorough) |
| P05 | `ob_owf` | key and input; output and acceptance | six functions |
| P06 | `ob_extend_witness` | key and input | 12 sets |
| P07 | `ob_snp_*`, `ob_sponge*`, `ob_oracle*`, `cbmc_absorb` | state, data, (CBMC) length and position | permutation as 24 rounds symbolic; position x chunk around the block edges; every length by CBMC; both Keccak back ends |
| P08 | `ob_vc_*` | root/seeds, IV, sibling path | (λ, depth) of the sets; every hidden index at depth 8; sampled at 11/12 (every index in thorough) |
| P09 | `ob_vole_commit`, `ob_vole_reconstruct`, `ob_convert`, `ob_chaldec`, lemma | root, IV, *symbolic challenge*, openings | 12 sets |
| P10 | `ob_vole_hash`, `ob_zk_hash`, `ob_zk_step`, lemma | seed and input | all lengths in use and more; any number of updates by induction |
| P11 | `ob_prove`, `ob_verify`, lemmas | witness, mask, tags / matrix, challenges, public key | 12 sets, two builds |
| P12 | `ob_sign`, `ob_verify_signature` | key, public key, signature bytes, message and randomness *with symbolic length* | 12 sets, null/empty/any |
| P13 | same units, per field of the layout | as P12 | 12 sets |
| P14 | `ob_api_*`, `ob_crypto_*`, `ob_bcmp`, `ob_clear`, `cbmc_crypto_sign*` | contents, lengths, null combinations | 12 sets; placements of overlapping buffers (CBMC: any placement) |
| P15 | `ob_keygen`, `ob_api_sign`, `ob_validate`, `ob_rand_bytes` | entropy output (arbitrarily many rejections), key, message, randomness | 12 sets |
| P16 | every unit again, `--safety-only` | as there | as there |
| P17 | `ob_params*` | the identifier (invalid ones) | 12 sets |
| P18 | `ob_rand_bytes`, `ob_keygen`, `ob_api_sign`, `ob_crypto_keypair` | which draw fails, error code, how many bytes arrive | 12 sets |
| P19 | signing and key generation units again, `--ct` | as there; all inputs secret but the named public ones | as there |
| P21 | `ob_complete` + lemmas | key (accepted), message, randomness of symbolic length | 12 sets |

Why this reaches what the tests cannot: every row is decided for *all* values of the symbolic column; a fault tied to one
byte value, one challenge bit, one length or one tree index refutes an obligation no matter how rare it is.

Composition (paper steps; each ingredient is a discharged unit):

* **VOLE correlation (P09)**: `ob_vole_commit` gives u, V as the conversion of the leaf seeds; `ob_vole_reconstruct` gives Q
  as the conversion of the leaf seeds permuted by XOR with the hidden index (symbolic challenge bits), `ob_convert` says what
  conversion is, `ob_vc_consistent` that the seeds agree except the hidden one, `ob_vole_lemma` that then Q_d = V_d + δ_d u.
* **Additivity (P10)** is a lemma over the specification that `ob_vole_hash` proves of the code.
* **Proof (P11)**: `ob_prove`/`ob_verify` tie the code to `spec_prove`/`spec_verify`, which evaluate one constraint per
  S-box over committed bits (value and tag). `ob_proof_lemma`: on correlated rows the verifier's value is the prover's plus
  (Δ²+Δ)·hash(residuals); `ob_witness_satisfies`, `ob_embed_inverse`: the witness of an accepted key has no residuals.
* **Completeness (P21)**: the contracts of the verifier's parts on honest inputs (`honest_*` in `ob_sign.c`) are exactly these
  consequences; under them the real `faest_*_sign_with_randomness` followed by the real `faest_*_verify` returns 0.
* **P12** proves "accepts iff the challenge recomputed from the specified transcript equals the stored one". That changing an
  input changes the hash is the collision resistance of SHAKE, i.e. not claimed; what is claimed is that every byte enters.

### Particular points

* **P16** is every unit once more with postconditions off: obligations are bounds of each access (also of symbolic
  addresses), lifetimes, frees, leaks, uninitialised branch conditions, shifts, division, overlap of memcpy, signed
  overflow (`nsw` is checked), preconditions of callees. Verification runs on arbitrary signature bytes.
* **P15/P18**: the contract of `rand_bytes` may fail at any draw with any nonzero (odd) code after writing anything.
  `ob_rand_bytes` proves it about `randomness.c` under the assumed contract of `getrandom` (returns -1 or the number of
  bytes written; requests are at most 256 bytes).
* **P19** is stated at the level of the source: in LLVM IR before optimisation no branch condition, no operand of a select, no
  symbolic address, no range given to `memcmp` in /repo's functions may have a secret in the support of its normal form; all
  inputs of a unit and all values returned by contracts are secret except the names in `ct=`. Compiler-introduced branches,
  instruction timing, OpenSSL's AES and the kernel are outside. Keys rejected during generation are declassified (they are
  thrown away). A failure has no concrete input (it is about a pair of runs), so it ends with `no-failing-input-found`.
* **P07** for long messages: `ob_sponge_absorb` covers every position and lengths up to two blocks; `cbmc_absorb` covers the
  sequence of block operations for every length ≤ 2^60 on the real `Keccak_HashUpdate`/`SpongeAbsorb`. The four-lane
  absorb is only used by the code with fixed short lengths. The lane-wise fast loop is checked for 0..3 blocks per call
  (**bounded**); if a CBMC unit cannot decide (e.g. a loop was restructured), its property falls back to the stated bounded
  units and the evidence lists it under `bounded_only`.
  `ob_oracle_length` hashes an input of *symbolic* length through the oracles H0..H3 (ghost list), so a length that
  is narrowed or limited on its way to the sponge is seen; its replay compares one call with the same input in 4096-byte
  pieces for sizes up to 4 GiB + 3.
* **P10**: the induction unit of the ZK hash speaks about the members `h0, h1, s, t, sd` of the context; if they do not
  exist it passes vacuously and only the fixed numbers of updates (0,1,2,3,5,8 and those used by the sets) are decided.

## 3. Not applicable

* **P20** (unforgeability) quantifies over all probabilistic polynomial-time adversaries; no contract over the code expresses it.

## 4. Genuine defects found (`known_findings.txt`)

* `fix: sponge absorb/squeeze…` (P07): the sponge computed the length of a partial block in 32 bits, so one call with 4 GiB
  or more could overrun the state (the upstream defect CVE-2022-37454).
* `fix: report entropy failure…` (P18): key generation/signing ignored `rand_bytes` failures.

Both are repaired; the checks report them again if they return. No finding is left open.

## 5. Limits and trusted base

* `engine/fve.cpp`, `term.h`, `ring.h` (unverified code; kept honest by the planted bugs of section 6, by native runs of all
  units with random inputs on the real code, which must agree with the specifications, and by `fv_cover`/obligation
  counts against vacuity), clang 18 front end and the four LLVM passes, z3, CBMC for its units.
* Hash fingerprints: equality of normal forms errs with probability about 2^-128 per run.
* Assumed contracts: OpenSSL EVP AES-CTR (`EVP_*`), `getrandom`, allocation succeeds, `memcmp` returns 0 iff equal
  and any nonzero value otherwise.
* Not covered: AVX2/NEON/S390 Keccak back ends, PQClean/liboqs/SUPERCOP glue, Windows and other entropy sources, the
  `benchmarks`/`tools` programs, the compiler's optimisation passes.
* A select over a partly uninitialised object does not report reading it; uninitialised data is reported at branches,
  addresses and outputs.
* Engine features that end in "undecided": loops with a symbolic bound without a loop point (more than 24 forks), products of
  two wide symbolic integers, pointers merged across objects, most stores at symbolic offsets.

## 6. Planted bugs

`seeded/<id>/`: patch, demonstration, meta. Which checks catch them:

@BUGS@

Rejected candidates (caught by the existing tests, or not counted): dropping the report of a zero S-box input (the test suite's
key vectors see it); swapping the roles of depth parameters (vectors); a bug in `KeccakSponge.inc` (language of the file not
accepted for planted bugs; the check P07 caught it).

## 7. Approaches tried and dropped

* CBMC `--dfcc` on the field code: multiplication in GF(2^128) already takes minutes, GF(2^256) does not finish.
* z3 on the bit level for the proof constraints: replaced by ring mode.
* A symbolic hidden index for vector commitments: addresses depend on it; every index is enumerated instead.
* Contracts on static helpers of `faest_aes.c`: they made the checks depend on how the file is cut; inlined now.

## 8. Running

`bash engine/build.sh`, then `python3 driver/check.py Pxx [--tier thorough]`. Evidence in `evidence/Pxx.json`: units,
obligations and which back end discharged them, functions under proof, contracts used and where proved, assumptions.
'''
BUGS = open("/verif/tools/bugs.md").read()
open("/verif/DESIGN.md", "w").write(T.replace("@BUGS@", BUGS))
