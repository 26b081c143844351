import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Binary-field arithmetic is exact",
 "Multiplication in GF(2^8), GF(2^64), GF(2^128), GF(2^192) and GF(2^256), and multiplication of a large-field element by a GF(2^64) element or by a single bit, return the product of the two polynomials reduced modulo the field's specified irreducible polynomial; inversion in GF(2^8) maps 0 to 0 and every other element to its inverse. Loading and storing elements is the little-endian bit/byte encoding and round-trips, and no bits outside the field's width are ever produced.",
 ["inputs"],"every pair of field elements in each of the five fields (up to 2^512 operand pairs)",
 "The field tests compare a few hundred random products with NTL-style reference values; a reduction error that needs a specific carry between words or a specific operand bit is not hit by sampling a 2^512 space.",
 ["fields.c","fields.h","utils.h","endian_compat.h"],
 [("field multiplication and reduction","fields.c: bf8_mul, bf64_mul, bf128_mul, bf192_mul, bf256_mul"),("mixed products","fields.c: bf128_mul_64, bf192_mul_64, bf256_mul_64; fields.h: *_mul_bit"),("inversion","fields.c: bf8_inv")],
 ["fields.h API"])
p("P02","Byte/bit lifting into the large fields is the specified GF(2)-linear embedding",
 "Combining eight bits or eight field elements into one large-field element is the sum of the inputs weighted by the powers of the fixed root that embeds GF(2^8), so that lifting a byte is a ring homomorphism from GF(2^8) into each large field. Combining a vector of λ elements returns the sum of the i-th element times X^i, for every vector.",
 ["inputs"],"all 256 bytes and all byte pairs for the homomorphism; all 8-tuples and all λ-tuples of field elements for the combinations; all three large fields",
 "Existing tests check a handful of random tuples; a single wrong bit in one of 21 embedding constants, or an error for one coefficient position, changes proofs only for inputs that exercise it and is self-consistent between signer and verifier.",
 ["fields.c","fields.h"],
 [("embedding constants","fields.c: bf128_alpha, bf192_alpha, bf256_alpha"),("combination","fields.c: bf*_byte_combine, bf*_byte_combine_bits, bf*_sum_poly")],["fields.h API"])
p("P03","Block ciphers are AES / Rijndael exactly, and zero S-box inputs are reported",
 "For every key and every block, key expansion and encryption compute AES-128/192/256 (FIPS 197) and Rijndael-192-192 / Rijndael-256-256 exactly. Key expansion and encryption report failure if and only if some S-box evaluation of the key schedule or of the encryption receives a zero byte.",
 ["inputs"],"every key (128/192/256 bits) and every block (128/192/256 bits) for the five ciphers",
 "Known-answer tests use fewer than ten vectors per cipher; the zero-byte report is only visible for keys/blocks hitting zero at one specific S-box, and the tests sample a vanishing fraction of 2^256 inputs.",
 ["aes.c","aes.h","fields.c"],
 [("S-box and rounds","aes.c: compute_sbox, sub_bytes, shift_row, mix_column, add_round_key"),("key schedule","aes.c: expand_key, *_init_round_keys"),("zero detection","aes.c: contains_zero, *_encrypt_block, *_init_round_keys")],["aes.h API"])
p("P04","The PRG is AES-CTR for every seed, IV and length, in every build",
 "The pseudo-random generator writes exactly the first n bytes of AES-λ in counter mode under the seed, with the 128-bit big-endian counter starting at the given IV and wrapping modulo 2^128, for every output length n up to 1040 bytes (no parameter set requests more than 1024), and writes nothing beyond. The self-contained and the library-backed implementations of the generator request or compute the same stream.",
 ["inputs","configurations"],"every seed, IV (including those whose counter carries through any number of bytes), output lengths 0..1040, and both build configurations",
 "Tests compare a few fixed vectors with one IV; carries out of the low counter bytes need an IV ending in 0xff…, which happens with probability 2^-8 … 2^-120, and partial last blocks need specific lengths.",
 ["aes.c","aes.h"],
 [("counter increment","aes.c: aes_increment_iv"),("stream loop and tail","aes.c: prg")],["aes.h: prg"])
p("P05","The OWF is the specified cipher; key validity is exactly zero-free S-boxes",
 "For each parameter set the public output is the specified block-cipher encryption (two blocks where λ exceeds the block size, or the Even-Mansour form with the key fed as plaintext and xored into the output) of the public input under the secret. A key is accepted exactly when no S-box in the computation that the proof covers sees a zero byte.",
 ["inputs"],"every OWF key and input for all six one-way functions; acceptance over all of them",
 "The tests use a few known-answer keys; wrong treatment of one of the two blocks in the validity decision, or of the key schedule, only shows on rejected keys (a few percent of keys, never sampled systematically).",
 ["owf.c","owf.h","aes.c","instances.c"],
 [("one-way functions","owf.c: owf_128, owf_192, owf_256, owf_em_128, owf_em_192, owf_em_256")],["owf.h API","public key bytes"])
p("P06","The extended witness is exactly the committed cipher state",
 "For every key, input and parameter set, the witness the signer commits to is the concatenation the specification prescribes: the key (or Even-Mansour secret), the S-box outputs of the key schedule that are not linear in earlier ones, and the state after ShiftRows of every round except the last for each block. It has exactly the parameter set's witness length and nothing else is written.",
 ["inputs","configurations"],"every key and public input, all 12 parameter sets",
 "One known witness per OWF is compared; positions that depend on the second block, the round index or the 192/256-bit schedule variants are covered by single samples only.",
 ["aes.c","aes.h","faest.c"],
 [("witness extension","aes.c: aes_extend_witness, store_state, aes_192/256 key schedule copy")],["aes.h: aes_extend_witness"])
p("P07","Hashing is SHAKE of the concatenated input, however it is fed to the oracle",
 "Every hash oracle of the scheme returns SHAKE128 (λ=128) or SHAKE256 of the concatenation of all bytes fed to it followed by one oracle-specific domain byte, independent of how the input and the output are cut into calls; a single oracle absorbs inputs of any length, including beyond 4 GiB in one call. The four-lane interface returns in each lane what four independent single-lane computations return. Distinct oracles use distinct domain bytes.",
 ["inputs","histories"],"all byte strings, all ways of splitting them over absorb calls and splitting outputs over squeeze calls, including lengths that do not fit 32 bits; both the 64-bit and the 32-bit permutation back ends",
 "The hash tests compare a few known answers of a few lengths; most chunkings at the rate edge, most squeeze cuts and >4 GiB inputs never occur in tests.",
 ["random_oracle.c","hash_shake.h","sha3/KeccakHash.c","sha3/KeccakSponge.inc","sha3/KeccakSpongetimes4.inc","sha3/opt64/KeccakP-1600-opt64.c","sha3/plain32/KeccakP-1600-inplace32BI.c"],
 [("sponge absorb/squeeze","sha3/KeccakSponge.inc"),("domain bytes","random_oracle.c: domain_sep_*"),("permutation","sha3/opt64, sha3/plain32"),("x4","sha3/KeccakSpongetimes4.inc, PlSnP-Fallback.inc")],["random_oracle.h API"])
p("P08","Vector commitments open to all leaves but one, and reconstruct exactly those",
 "For every root seed, IV and depth, committing yields the specified GGM tree (children are PRG outputs of the parent), leaf seeds and commitments, and their hash; opening at any index returns exactly the sibling seeds on the path plus that leaf's commitment and reveals no other node. Reconstructing from an opening at index j returns every leaf seed except j and the same overall hash the committer computed.",
 ["inputs","configurations"],"every root seed and IV; every hidden index 0 ≤ j < 2^depth; every depth the parameter sets use",
 "Tests open one or two fixed indices per depth; an indexing error that affects one subtree or one index parity in one depth is missed, and leaking the hidden path is not observable through accept/reject behaviour at all.",
 ["vc.c","vc.h"],
 [("tree derivation","vc.c: vector_commitment, getNodeIndex"),("opening","vc.c: vector_open"),("reconstruction","vc.c: vector_reconstruction")],["vc.h API"])
p("P09","VOLE correlation holds exactly for every challenge",
 "For every seed, IV and challenge, the verifier's reconstructed matrix satisfies Q_i = V_i + δ_i·u_i (u_i the prover's i-th mask, corrected by the transmitted differences) column by column, where the δ bits are exactly the challenge bits assigned to the i-th instance, and the hash the verifier recomputes equals the prover's commitment hash. Splitting the challenge covers all λ bits exactly once, in order.",
 ["inputs","configurations"],"all root seeds, IVs and all 2^λ challenges, all 12 parameter sets (τ0 instances of depth k0 and τ1 of depth k1)",
 "Tests use one random challenge per set; errors confined to one challenge bit position or to the boundary between the two depths need the right challenge bits to show.",
 ["vole.c","vole.h","vc.c"],
 [("seed-to-VOLE conversion","vole.c: ConvertToVole"),("challenge split","vole.c: ChalDec; vc.c: NumRec/BitDec"),("commit/reconstruct","vole.c: vole_commit, vole_reconstruct")],["vole.h API"])
p("P10","Universal hashes are the specified linear maps",
 "The VOLE hash and the zero-knowledge hash compute, for every seed and every input, the specified field-linear combination of the input blocks (Horner evaluation in the λ-bit and the 64-bit field, then the final linear map, then the masking block). They are GF(2)-linear in the input, so signer and verifier results differ by exactly the challenge times the correlated value.",
 ["inputs","configurations"],"all seeds and all inputs of every length the parameter sets use (and any number of updates for the streaming form)",
 "Tests compare a few fixed vectors; an error in one block position, the padding of a last partial block, or one of four seed components is only visible in outputs that random vectors rarely isolate.",
 ["universal_hashing.c","universal_hashing.h","fields.c"],
 [("VOLE hash","universal_hashing.c: vole_hash_128/192/256, vole_hash"),("ZK hash","universal_hashing.c: zk_hash_*_init/update/finalize")],["universal_hashing.h API"])
p("P11","The proof checks exactly the AES constraints of the public key",
 "For every witness, mask and challenge the prover's two proof values and the verifier's recomputed value are the specified universal hash of the specified constraint polynomials — one per S-box of the key schedule and of each encryption — and for a witness that satisfies all constraints under a correct correlation the two sides agree identically. Every S-box of the computation contributes exactly one constraint, and each depends on the public input and output.",
 ["inputs","configurations"],"all witnesses, masks, challenges and public keys; all 12 parameter sets, prover and verifier side",
 "End-to-end tests only see honest transcripts; a dropped or duplicated constraint, or one that both sides mis-evaluate in the same way, still accepts every honest signature (soundness error is invisible to accept tests).",
 ["faest_aes.c","faest_aes.h","universal_hashing.c","fields.c"],
 [("key schedule constraints","faest_aes.c: aes_key_schedule_*"),("encryption constraints","faest_aes.c: aes_enc_*, em_enc_*"),("prove/verify","faest_aes.c: aes_prove, aes_verify")],["faest_aes.h API"])
p("P12","A signature is accepted exactly when the recomputed challenge matches",
 "Verification accepts if and only if the final challenge recomputed by the specified Fiat-Shamir transcript — binding public key, message, IV, all VOLE corrections, both universal hash values and the masked witness — equals, in all λ bits, the challenge stored in the signature. The prover derives its challenges, seeds and IV from the same transcript over the same bytes, so changing any signature, message or public key bit changes an input of a hash that decides acceptance.",
 ["inputs","configurations"],"all public keys, messages of any length and all signature byte strings, all 12 parameter sets",
 "Tests verify honest signatures and flip very few bytes; a transcript that omits one field or compares only a prefix still accepts all honest and rejects most random forgeries, and quantifies over 2^(8·sigsize) strings.",
 ["faest.c","random_oracle.c","faest.h"],
 [("signer transcript","faest.c: faest_sign"),("verifier transcript and decision","faest.c: faest_verify"),("hash inputs","faest.c: hash_mu, hash_challenge_1/2/3")],["faest_*_verify return value"])
p("P13","The signature encoding is a fixed gap-free layout filled completely",
 "Signing writes every byte of exactly the parameter set's signature size in the specified order (corrections, universal hash, masked witness, proof value, per-instance decommitment sized by its depth, challenge, IV), and verification reads each field from the same offset and width. No byte of the signature is left unwritten, written twice or ignored by verification.",
 ["inputs","configurations"],"all signing inputs, all verification inputs, all 12 parameter sets (both depths per set)",
 "Round-trip tests use the same accessor macros on both sides, so an overlapping or ignored field is self-consistent; only a few signatures are compared with vectors.",
 ["faest.c","instances.c","parameters.h (generated)"],
 [("field accessors","faest.c: signature_*, dsignature_*"),("depth-dependent offsets","faest.c: get_offset/depth in signature_pdec, signature_com")],["signature bytes"])
p("P14","The public API validates its arguments and reports outcomes by return code",
 "Every entry point rejects missing required buffers, too small or wrong signature lengths and an absent randomness buffer with nonzero length, returning an error and writing nothing; on success signing returns 0 and sets the length to the exact signature size, verification returns 0 only for a valid signature, and key-pair validation distinguishes missing, unusable and mismatching keys. The NIST-style wrappers return the message followed by the signature and recover exactly the message, only after verification succeeded, also when buffers overlap.",
 ["inputs","configurations"],"every combination of null/non-null pointers, all length values, all key pairs, messages of any length, all 12 instances",
 "Tests call the API with valid arguments and a few tampered signatures; boundary lengths, null combinations and overlapping buffers per instance are not enumerated.",
 ["faest_param.c.in","crypto_sign.c.in","compat.c","faest_param.h.in"],
 [("argument checks","faest_param.c.in"),("wrappers","crypto_sign.c.in"),("constant-time compare and clearing","compat.c: faest_timingsafe_bcmp, faest_explicit_bzero")],["faest_*.h, crypto_sign.h"])
p("P15","Keys have the documented format and signing is a function of its inputs",
 "Key generation outputs a secret key (OWF input followed by OWF key) and public key (OWF input followed by OWF output) that always form a valid pair, whatever the entropy source returns. A signature is a deterministic function of secret key, message and supplied randomness, and every one of these reaches the derivation of its seeds; sampling the randomness internally gives the same function applied to fresh random bytes of full security length.",
 ["inputs","histories","configurations"],"all entropy source outputs (including ones that are rejected first), all messages, all randomness strings of any length, all 12 parameter sets",
 "Tests run key generation a few times; the rejection loop's retry path, zero-length or long randomness, and dependence on every secret byte are not sampled.",
 ["faest_param.c.in","faest.c","owf.c"],
 [("key layout","faest_param.c.in: PK_*/SK_* macros, keygen"),("seed derivation","faest.c: generate_root_key / H3 use in faest_sign")],["key and signature bytes"])
p("P16","No out-of-bounds access, memory leak or undefined behaviour on any input",
 "For all inputs, every library operation accesses only its arguments' documented extents and its own live allocations, releases everything it allocated on every path, never branches on uninitialised data and executes no undefined integer, shift or copy operation. Verification of arbitrary attacker-chosen signatures is included.",
 ["inputs","configurations"],"all secret keys, public keys, messages, randomness and all signature byte strings of the prescribed length; all 12 parameter sets",
 "Sanitizers only see the executed inputs (honest signatures and a few corruptions); memory errors that need a particular challenge or decoded index are not reached.",
 ["faest.c","faest_aes.c","vole.c","vc.c","aes.c","universal_hashing.c","fields.c","random_oracle.c"],
 [("allocation and release","all *.c: malloc/calloc/free pairs"),("index arithmetic","vc.c, vole.c, faest.c accessors, faest_aes.c"),],["every API"])
p("P17","Every parameter set is internally consistent and equals the specification",
 "The twelve parameter sets are those of the FAEST specification: security level, cipher, τ, k0/k1, τ0/τ1, witness length and the derived key, signature and challenge sizes; in each, τ0·k0 + τ1·k1 = λ, the witness length equals key plus schedule plus state bits, and the published size constants equal what the layout of the encoding requires. Looking up an identifier returns exactly that set's values, and fixed-capacity buffers suffice for every set.",
 ["configurations"],"all 12 parameter sets and all identifiers",
 "Tests print and use the parameters but never compare them with an independent statement; a consistent change (τ0/τ1, β, ell) keeps sign/verify round trips passing where no vectors exist for that set.",
 ["instances.c","instances.h","meson.build","faest_param.h.in"],
 [("table","instances.c; parameters.h generated by meson.build"),("capacity","faest_defines.h / instances.h: MAX_LAMBDA, MAX_DEPTH, MAX_TAU")],["faest_get_paramset, FAEST_*_SIZE macros"])
p("P18","Entropy failure is reported, never ignored",
 "If the system entropy source fails, key generation and randomised signing return an error instead of producing a key or signature from unfilled buffers. When it succeeds, all requested bytes come from it.",
 ["fault_sequences","configurations"],"every point at which the entropy source can fail (first or any later request), all 12 instances",
 "Tests never make the entropy source fail.",
 ["faest_param.c.in","randomness.c","randomness.h"],
 [("entropy use","faest_param.c.in: keygen, sign"),("entropy source","randomness.c: rand_bytes")],["faest_*_keygen, faest_*_sign return value"])
p("P19","Control flow and memory addresses do not depend on secrets",
 "The sequence of branches taken, memory addresses accessed and variable-time comparisons made by the source code while generating keys and signing does not depend on the secret key, the random seeds, the expanded witness or any value derived from them, except through values that are public: lengths, whether a drawn key was rejected, whether the entropy source failed, and data published in the signature (such as the IV and the index left hidden in each vector commitment).",
 ["inputs","configurations"],"all pairs of secrets with equal public data (message length, parameter set), all 12 parameter sets, both cipher and Keccak back ends of the portable C code",
 "A relational property over pairs of executions; tests observe single executions and only their results.",
 ["fields.c","aes.c","vc.c","vole.c","faest_aes.c","faest.c","faest_param.c.in","owf.c"],[("branch-free selection","fields.h: *_mul_bit; aes.c: compute_sbox"),("secret handling on the signing path","faest.c: faest_sign; vole.c; vc.c; faest_aes.c: aes_prove"),("key generation","faest_param.c.in: keygen; owf.c")],["conditional branches and memory addresses"])
p("P21","Every honest signature verifies",
 "For every valid key pair, message and randomness string, signing succeeds and the resulting signature is accepted by verification under the public key, with certainty and not only with high probability: there is no key, message, randomness or challenge value for which an honestly produced signature is rejected.",
 ["inputs","configurations"],"all key pairs the one-way function accepts, messages and randomness strings of any length (including absent ones), all 12 parameter sets",
 "Tests sign a handful of messages; a failure tied to one hidden index, one challenge bit pattern, one witness byte or one key shows up with probability far below what tests sample, and nobody notices until a user's signature is rejected.",
 ["faest.c","faest_param.c.in","vole.c","vc.c","faest_aes.c","universal_hashing.c"],
 [("signer","faest.c: faest_sign"),("verifier","faest.c: faest_verify"),("correlation between the two sides","vole.c: vole_commit, vole_reconstruct"),("proof","faest_aes.c: aes_prove, aes_verify")],["faest_*_sign then faest_*_verify"])
p("P20","Signatures are existentially unforgeable",
 "No efficient adversary that obtains signatures on chosen messages can produce a valid signature on a new message under the same public key.",
 ["programs"],"all probabilistic polynomial-time adversaries",
 "A computational statement over adversaries; no test can sample it.",
 ["faest.c"],[("Fiat-Shamir transformed VOLE-in-the-head proof","faest.c: faest_sign, faest_verify")],["faest_*_verify"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
