"""The table of proof units: which harness, for which arguments, proves which contracts using which."""
class O:
    def __init__(s, entry, props, args=None, targs=None, uses=(), proves=(), cfgs=("default",), flags=(), cost=1,
                 timeout=600, mem_mb=8000, replays=40, replay_time=60, noreplay=False, hang_is_failure=False,
                 lemma=False, cbmc=None, cbmc_defs=(), cbmc_functions=(), cbmc_replay=None, bounded_fallback=None, ct=None):
        s.entry, s.props, s.args, s.targs = entry, set(props.split()), args or [[]], targs
        s.uses, s.proves, s.cfgs, s.flags, s.cost = list(uses), list(proves), list(cfgs), list(flags), cost
        # cbmc = (harness, source pattern, names of the -D arguments, counterexample variables)
        s.cbmc_defs, s.lemma, s.safety = list(cbmc_defs), lemma, False
        s.cbmc, s.cbmc_functions, s.cbmc_replay, s.bounded_fallback = cbmc, cbmc_functions, cbmc_replay, bounded_fallback
        s.ct = ct # names of the public inputs in constant-flow mode (None: not on the signing or key generation side)
        s.timeout, s.mem_mb, s.replays, s.replay_time, s.noreplay, s.hang_is_failure = timeout, mem_mb, replays, replay_time, noreplay, hang_is_failure
OBS = []
def ob(*a, **k):
    OBS.append(O(*a, **k))

SET_NAMES = ["128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"]
def spec_sig(i): # signature sizes of the FAEST v1 specification
    return [5006, 6336, 12744, 16792, 22100, 28400, 4566, 5696, 10824, 13912, 20956, 26736][i - 1]
# how far the obligations behind used contracts are repeated in the check of a property (default: all the way down)
DEPTH = {"P21": 1, "P13": 1, "P14": 1, "P15": 1, "P18": 1}
PROPS = {}
ASSUMED = {}
LEVEL = {}
COMMON_TB = [
    "engine/fve.cpp + term.h: the verification-condition generator and normaliser written for this work",
    "clang 18 front end and LLVM 18 passes sroa, early-cse, simplifycfg, lowerswitch (C to IR)",
    "z3 4.8.12 for obligations the normal form does not close",
    "the specification functions in spec/*.c (written from the FAEST v1 specification, FIPS 197, FIPS 202)",
]
def assumptions_for(prop, contracts):
    a = ["malloc/calloc/aligned_alloc succeed", "memcmp/bcmp return 0 exactly on equal ranges"]
    for c in sorted(contracts):
        if c in ASSUMED:
            a.append("assumed contract: %s: %s" % (c, ASSUMED[c]))
    return a

FIELD_CFGS = ("default", "structs")
# ---- P01 field arithmetic
ob("ob_bf8_mul", "P01", proves=["bf8_mul"], cfgs=FIELD_CFGS, ct="-")
ob("ob_bf8_inv", "P01", proves=["bf8_inv"], cfgs=FIELD_CFGS, ct="-")
ob("ob_bf64_mul", "P01", proves=["bf64_mul"], cfgs=FIELD_CFGS, ct="-")
for n in (128, 192, 256):
    ob("ob_bf%d_mul" % n, "P01", proves=["bf%d_mul" % n], cfgs=FIELD_CFGS, ct="-")
    ob("ob_bf%d_mul_64" % n, "P01", proves=["bf%d_mul_64" % n], cfgs=FIELD_CFGS, ct="-")
    ob("ob_bf%d_misc" % n, "P01", cfgs=FIELD_CFGS, ct="-")
# ---- P02 lifting
    ob("ob_bf%d_embed" % n, "P02", proves=["bf%d_byte_combine_bits" % n], cfgs=FIELD_CFGS, ct="-")
    ob("ob_bf%d_byte_combine" % n, "P02", proves=["bf%d_byte_combine" % n], cfgs=FIELD_CFGS, ct="-")
    ob("ob_bf%d_sum_poly" % n, "P02", proves=["bf%d_sum_poly" % n], cfgs=FIELD_CFGS, ct="-")

# ---- P03 ciphers
ob("ob_aes_keys", "P03", args=[[c] for c in range(5)], uses=["bf8_inv"], ct="-")
ob("ob_aes_encrypt", "P03", args=[[c, i] for c in range(5) for i in (0, 1)], uses=["bf8_inv"], ct="-")
ob("ob_aes_cipher", "P03", args=[[c] for c in range(5)], uses=["bf8_inv"])
# ---- P04 generator
EVP = ["EVP_aes_128_ctr", "EVP_aes_192_ctr", "EVP_aes_256_ctr", "EVP_CIPHER_CTX_new", "EVP_CIPHER_CTX_free",
       "EVP_EncryptInit_ex", "EVP_EncryptUpdate", "EVP_EncryptFinal_ex"]
for f in EVP:
    ASSUMED[f] = "OpenSSL EVP AES-CTR interface (context = cipher, key, counter block, stream position; calls succeed)"
ob("ob_increment_iv", "P04", cfgs=("default", "portable"), proves=["aes_increment_iv"], ct="iv")
LENS = [[l, a, min(a + 79, 1040)] for l in (128, 192, 256) for a in range(0, 1041, 80)]
ob("ob_prg", "P04", args=LENS, proves=["prg"], uses=EVP, ct="-")
# the lengths the parameter sets ask for: 2 lambda / 8, lambda tau / 8, ell_hat / 8
USED = {128: [176, 256, 234, 194], 192: [384, 576, 458, 338], 256: [704, 1024, 566, 514]}
ob("ob_prg", "P04", args=[[l, a, a + 15] for l in USED for a in (0, 16, 32, 48, 64)] + [[l, n, n] for l in USED for n in USED[l]],
   targs=[[l, a, min(a + 15, 1040)] for l in (128, 192, 256) for a in range(0, 1041, 16)],
   uses=["bf8_inv", "aes_increment_iv"], cfgs=("portable",), cost=20, timeout=1500, ct="-")
# ---- P05 one-way functions
ob("ob_owf", "P05", args=[[f] for f in range(6)], uses=["bf8_inv"], proves=["owf_128", "owf_192", "owf_256", "owf_em_128", "owf_em_192", "owf_em_256"], ct="-")
# ---- P06 extended witness
ob("ob_extend_witness", "P06", args=[[i] for i in range(1, 13)], uses=["bf8_inv"], proves=["aes_extend_witness"], ct="-")
# ---- P07 hashing
KC = ("default", "portable")
SNP = ["KeccakP1600_Initialize", "KeccakP1600_AddBytes", "KeccakP1600_AddByte", "KeccakP1600_ExtractBytes",
       "KeccakP1600_Permute_24rounds", "KeccakF1600_FastLoop_Absorb"]
HASH = ["Keccak_HashInitialize", "Keccak_HashUpdate", "Keccak_HashFinal", "Keccak_HashSqueeze",
        "Keccak_HashInitializetimes4", "Keccak_HashUpdatetimes4", "Keccak_HashFinaltimes4", "Keccak_HashSqueezetimes4"]
KF = ["--and-limit", "1"]
ob("ob_snp_basic", "P07", cfgs=KC, flags=KF, proves=["KeccakP1600_Initialize", "KeccakP1600_AddByte"], ct="-")
ob("ob_snp_permute", "P07", cfgs=KC, flags=KF, proves=["KeccakP1600_Permute_24rounds"], ct="-")
ob("ob_snp_bytes", "P07", cfgs=KC, flags=KF, args=[[a, a + 24, 7] for a in range(0, 200, 25)], targs=[[a, a + 4, 1] for a in range(0, 200, 5)],
   proves=["KeccakP1600_AddBytes", "KeccakP1600_ExtractBytes"], ct="-")
ob("ob_snp_fastloop", "P07", flags=KF, args=[[l, n] for l in (21, 17) for n in (0, 8 * l - 1, 8 * l, 8 * l + 1, 24 * l + 5)],
   proves=["KeccakF1600_FastLoop_Absorb"], ct="-")
ob("ob_sponge_init", "P07", args=[[128], [256]], uses=SNP, proves=["Keccak_HashInitialize", "Keccak_HashFinal"], cfgs=KC, ct="-")
POS = [[b, a, a + 41] for b in (128, 256) for a in range(0, 168 if b == 128 else 136, 42)]
TPOS = [[b, a, a + 6] for b in (128, 256) for a in range(0, 168 if b == 128 else 136, 7)]
for x in ("", "4"):
    t = "times4" if x else ""
    if x:
        ob("ob_sponge4_init", "P07", args=[[128], [256]], uses=SNP, proves=["Keccak_HashInitializetimes4", "Keccak_HashFinaltimes4"], cfgs=KC, ct="-")
    ob("ob_sponge%s_absorb" % x, "P07", args=[p + [0] for p in POS], targs=[p + [1] for p in TPOS], uses=SNP, proves=["Keccak_HashUpdate" + t], cfgs=KC, cost=5, ct="-")
    ob("ob_sponge%s_squeeze" % x, "P07", args=[p + [0] for p in POS], targs=[p + [1] for p in TPOS], uses=SNP, proves=["Keccak_HashSqueeze" + t], cfgs=KC, cost=5, ct="-")
ob("ob_oracle", "P07", args=[[w, l] for w in range(4) for l in (128, 192, 256)], uses=HASH[:4], ct="-")
ob("ob_oracle_length", "P07", args=[[w, l] for w in range(4) for l in (128, 192, 256)], uses=HASH[:4], replay_time=120)
ob("ob_oracle_x4", "P07", args=[[l] for l in (128, 192, 256)], uses=HASH[4:], ct="-")

def absorb_inputs(models, args):
    c = []
    for m in models:
        if m.get("total", 1 << 62) <= (1 << 33) and "p" in m:
            c.append((m["p"], m["total"]))
    c += [(1, (1 << 32) - 1), (0, (1 << 32) + 3), (5, 1000003)]
    return [(args[0], p, n >> 32, (n >> 16) & 0xffff, n & 0xffff) for p, n in c]
ob("cbmc_absorb", "P07", args=[[1], [0]], uses=[], cbmc=("absorb.c", r"sha3/Keccak(Hash|Sponge)\.c$", ["S128"], ["total", "p"]),
   flags=["--unwind", "5", "--unwinding-assertions", "--bounds-check", "--no-pointer-check"], cost=50, replay_time=240,
   cbmc_functions=[("Keccak_HashUpdate", "sha3/KeccakHash.c"), ("SpongeAbsorb", "sha3/KeccakSponge.inc")],
   cbmc_replay=("ob_absorb_long", absorb_inputs),
   bounded_fallback="every position and length up to two blocks beyond it (ob_sponge_absorb) and the long inputs of the replay")
# ---- P08 vector commitments
DEPTHS = [(128, 8), (128, 11), (128, 12), (192, 8), (192, 12), (256, 8), (256, 11), (256, 12)]
ob("ob_vc_index", "P08", args=[[d] for d in (8, 11, 12)])
ob("ob_vc_commit", "P08", args=[list(x) for x in DEPTHS], uses=["prg"] + HASH, proves=["vector_commitment", "vec_com_clear"], ct="-")
ob("ob_vc_open", "P08", args=[list(x) for x in DEPTHS], proves=["vector_open"], ct="-")
def indices(all_):
    r = []
    for l, d in DEPTHS:
        n = 1 << d
        if d == 8 or all_:
            r += [[l, d, a, a + (n >> 4), 1] for a in range(0, n, n >> 4)]
        else: # both ends, and every 61st index (all residues modulo small powers of two, all subtrees)
            r += [[l, d, 0, 6, 1], [l, d, n - 6, n, 1], [l, d, 7, n // 2, 61], [l, d, n // 2 - 1, n, 61]]
    return r
for e in ("ob_vc_reconstruct", "ob_vc_consistent"):
    ob(e, "P08 P21", args=indices(False), targs=indices(True), uses=(["prg"] + HASH) if e == "ob_vc_reconstruct" else [],
       proves=["vector_reconstruction", "vec_com_rec_clear"] if e == "ob_vc_reconstruct" else [], cost=8, replays=4, lemma=e == "ob_vc_consistent")
# ---- P09 VOLE
SETS = list(range(1, 13))
KFX = ["--and-limit", "1"]
ob("ob_xor", "P09", args=[[a, min(a + 129, 1040)] for a in range(0, 1041, 130)], proves=["xor_u8_array"], ct="-")
CONV = [[i, w, b] for i in SETS for w in (0, 1) for b in (0, 1) if not (w and i not in (1, 5, 7, 11))]
ob("ob_convert", "P09", args=CONV, uses=["prg", "xor_u8_array"], proves=["ConvertToVole"], cost=5, replays=2, ct="-")
ob("ob_chaldec", "P09", args=[[i] for i in SETS], proves=["ChalDec"], ct="-")
ob("ob_vole_commit", "P09", args=[[i] for i in SETS], uses=["prg", "xor_u8_array", "ConvertToVole", "vector_commitment"] + HASH,
   proves=["vole_commit"], cost=10, replays=2, timeout=800, mem_mb=16000, ct="-")
ob("ob_vole_reconstruct", "P09", args=[[i] for i in SETS], uses=["prg", "xor_u8_array", "ConvertToVole", "vector_reconstruction"] + HASH,
   proves=["vole_reconstruct"], flags=KFX, cost=10, replays=2, timeout=800, mem_mb=16000)
ob("ob_vole_lemma", "P09 P21", lemma=True, args=[[8, 0, 256, 1]] + [[d, a, 1 << d, 97] for d in (11, 12) for a in (0, 50)],
   targs=[[8, 0, 256, 1]] + [[d, a, a + 256, 1] for d in (11, 12) for a in range(0, 1 << d, 256)], cost=3)
# ---- P10 universal hashes
RING = ["--ring", "--and-limit", "1"]
FIELDMUL = ["bf64_mul"] + ["bf%d_mul%s" % (n, x) for n in (128, 192, 256) for x in ("", "_64")]
HASHLEN = [[128, 1600], [192, 3264], [256, 4000], [128, 1280], [192, 2304], [256, 3584]]
ob("ob_vole_hash", "P10", args=HASHLEN, targs=HASHLEN + [[l, l * k + d] for l in (128, 192, 256) for k in range(1, 9) for d in (0, 8, 64, 120)],
   uses=FIELDMUL + ["xor_u8_array"], proves=["vole_hash"], flags=RING, cfgs=FIELD_CFGS, ct="-")
ob("ob_vole_hash_linear", "P10 P21", lemma=True, args=HASHLEN, flags=RING)
ob("ob_zk_hash", "P10", args=[[l, n] for l in (128, 192, 256) for n in (0, 1, 2, 3, 5, 8)] +
   [[128, 200], [192, 416], [256, 500], [128, 160], [192, 288], [256, 448]], uses=FIELDMUL, flags=RING, cfgs=FIELD_CFGS, ct="-")
ob("ob_zk_step", "P10", args=[[128], [192], [256]], uses=FIELDMUL, flags=RING, cfgs=FIELD_CFGS, ct="-")
# ---- P11 proof
PF = ["bf8_inv", "xor_u8_array"] + FIELDMUL
for e, f in (("ob_prove", "aes_prove"), ("ob_verify", "aes_verify")):
    ob(e, "P11", args=[[i] for i in SETS], uses=PF, proves=[f], flags=RING, cfgs=FIELD_CFGS, cost=10, replays=2, timeout=800, mem_mb=12000, ct="-" if e == "ob_prove" else None)
ob("ob_proof_lemma", "P11 P21", lemma=True, args=[[i] for i in SETS], uses=PF, flags=RING, cost=6)
ob("ob_witness_satisfies", "P11 P21", lemma=True, args=[[i] for i in SETS])
ob("ob_embed_inverse", "P11 P21", lemma=True, args=[[128], [192], [256]])
# ---- P12 P13 signing and verification
SIGN = HASH + ["xor_u8_array", "vole_hash"]
# message kind + 4 * randomness kind (0 absent, 1 any positive length, 2 present and empty, 3 null with a length)
ob("ob_sign", "P12 P13", args=[[i, m] for i in SETS for m in (5, 1, 4)] + [[i, m] for i in (1, 9) for m in (0, 2, 9, 10, 13)],
   uses=SIGN + ["vole_commit", "vector_open", "aes_extend_witness", "aes_prove"], proves=["faest_sign"], replays=6, ct="msg,rho")
ob("ob_verify_signature", "P12 P13", args=[[i, m] for i in SETS for m in (0, 1)] + [[1, 2], [9, 2]],
   uses=SIGN + ["vole_reconstruct", "aes_verify"], proves=["faest_verify"], replays=12)
# ---- P14 P15 P18 the public interface
KFA = ["--and-limit", "16"]
OWF = ["owf_128", "owf_192", "owf_256", "owf_em_128", "owf_em_192", "owf_em_256"]
ASSUMED["getrandom"] = "returns -1 or the number r of bytes written, r at most the request (requests of at most 256 bytes)"
API = OWF + ["rand_bytes", "faest_sign", "faest_verify"]
ob("ob_rand_bytes", "P18 P15", args=[[n] for n in (16, 24, 32, 40, 48, 56, 64)], uses=["getrandom"], proves=["rand_bytes"], flags=KFA, ct="-")
ob("ob_keygen", "P18 P15", args=[[i, m] for i in SETS for m in (0,)], uses=API, flags=KFA, ct="owf_valid*,entropy_ok,entropy_error")
ob("ob_keygen", "P14", args=[[i, m] for i in SETS for m in (1, 2, 3)], uses=API, flags=KFA, ct="owf_valid*,entropy_ok,entropy_error")
ob("ob_crypto_keypair", "P18 P15 P14", args=[[i, 0] for i in SETS], uses=API, flags=KFA, ct="owf_valid*,entropy_ok,entropy_error")
# message kind + 4 * randomness kind, as above; 16: drawn by the function
ob("ob_api_sign", "P14 P15", args=[[i, m, 0] for i in SETS for m in (5, 1, 4, 0)] + [[i, m, 0] for i in (1, 9) for m in (2, 8, 9, 12, 13)],
   uses=API, flags=KFA, replays=20, ct="owf_valid*,entropy_ok,entropy_error,msg,rho,siglen")
ob("ob_api_sign", "P14 P15 P18", args=[[i, m, 0] for i in SETS for m in (16, 17)], uses=API, flags=KFA, replays=20, ct="owf_valid*,entropy_ok,entropy_error,msg,rho,siglen")
ob("ob_api_sign", "P14", args=[[i, m, n] for i in SETS for m in (5, 17) for n in (1, 2, 4, 8, 15)] + [[i, 13, n] for i in SETS for n in (0, 8)], uses=API, flags=KFA, replays=20, ct="owf_valid*,entropy_ok,entropy_error,msg,rho,siglen")
ob("ob_api_verify", "P14", args=[[i, m, n] for i in SETS for m in (0, 1) for n in (0, 1, 2, 4, 7)] + [[1, 2, 0], [9, 2, 0]], uses=API, flags=KFA, replays=20)
ob("ob_validate", "P14 P15", args=[[i, n] for i in SETS for n in range(4)], uses=OWF, flags=KFA)
ob("ob_clear", "P14", args=[[i] for i in SETS], ct="-")
ob("ob_bcmp", "P14 P12", args=[[0, 40], [41, 66]], flags=KFA, ct="-")
MLEN = (0, 1, 2, 15, 16, 17, 100)
ob("ob_crypto_sign", "P14", args=[[i, n, p] for i in (1, 9) for n in MLEN for p in range(5)] + [[i, 33, p] for i in SETS for p in (0, 2)],
   uses=API, flags=KFA, replays=8, ct="owf_valid*,entropy_ok,entropy_error")
ob("ob_crypto_open", "P14", args=[[i, spec_sig(i) + n, p] for i in (1, 9) for n in (-1,) + MLEN for p in range(4)] +
   [[i, spec_sig(i) + n, p] for i in SETS for n in (-1, 33) for p in (0, 2)] + [[i, 0, 0] for i in SETS], uses=API, flags=KFA, replays=8)
def wrap_inputs(models, args):
    return [(args[0], n, p) for n in (5, 0, 1, 70000, 300) for p in range(5)]
def unwrap_inputs(models, args):
    return [(args[0], spec_sig(args[0]) + n, p) for n in (5, -1, 0, 1, 70000) for p in range(4)] + [(args[0], 0, 0), (args[0], 1, 0)]
for h, f, cands in (("ob_crypto_sign", "crypto_sign", wrap_inputs), ("ob_crypto_open", "crypto_sign_open", unwrap_inputs)):
    ob("cbmc_" + f, "P14", args=[[i] for i in SETS], cbmc=("crypto_sign.c", lambda a: r"/faest_%s/crypto_sign\.c$" % SET_NAMES[a[0] - 1], ["SET"], []),
       flags=["--unwind", "14", "--unwinding-assertions", "--bounds-check", "--no-pointer-check"], cbmc_defs=["-DOPEN=1"] if "open" in f else [],
       replay_time=240, cost=4, cbmc_functions=[(f, "crypto_sign.c (generated from crypto_sign.c.in)")], cbmc_replay=(h, cands),
       bounded_fallback="the message lengths and placements of the %s units" % h)
# ---- P21 completeness
ob("ob_complete", "P21", args=[[i, m] for i in SETS for m in (5, 1, 4, 0)], uses=SIGN + OWF + ["vole_commit", "vector_open", "aes_extend_witness",
   "aes_prove", "vole_reconstruct", "aes_verify"], flags=KFA, replays=10, replay_time=120)
# ---- P17 parameter sets
ob("ob_params", "P17", args=[[i] for i in SETS])
ob("ob_params_invalid", "P17", flags=KFA)
