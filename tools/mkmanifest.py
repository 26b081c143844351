import json, os
NOTE = {
 "P01": "field operations against polynomial arithmetic, bit-precise for all operands, vector-extension and plain-struct builds",
 "P02": "lifting functions against the embedding defined from the specification constants, all inputs",
 "P03": "five ciphers against a byte-level FIPS-197/Rijndael specification, all keys and blocks",
 "P04": "generator against AES-CTR, all seeds and IVs, lengths 0..1040 (default build) resp. the lengths in the unit list (portable build, quick tier)",
 "P05": "six one-way functions against specification, output and acceptance, all inputs",
 "P07": "Keccak-f and its byte interface, sponge absorb/squeeze per position and chunk length around the block boundaries with abstract data, absorbing of every 64-bit length by CBMC contracts, oracles on ghost strings; 64-bit and 32-bit permutations; the four-lane absorb and the block loop for 0..3 blocks per call",
 "P08": "GGM tree commitment, opening and reconstruction for every root seed, IV and sibling path; every index at depth 8, sampled indices at depths 11 and 12 in the quick tier, every index in the thorough tier",
 "P09": "commitment and reconstruction for the 12 parameter sets with a symbolic challenge, conversion per depth and index (every index at depth 8, sampled at 11 and 12 in the quick tier), challenge decoding",
 "P10": "VOLE hash for every length the sets use and more against Horner evaluation, additivity, zero-knowledge hash per update by induction over its state; vector-extension and plain-struct builds",
 "P11": "prover and verifier values for the 12 sets against the specified constraints over committed bits (symbolic witness, mask, tags, challenge, public key), with the identity that relates both sides and the zero residual of honest witnesses; vector-extension and plain-struct builds; field identities by evaluation at a pseudo-random point (error about 2^-128)",
 "P12": "signing transcript and acceptance condition for the 12 sets over contracts of the parts (each proved in the same run), symbolic key, public key, signature, and messages and randomness of symbolic length",
 "P13": "every signature byte against the specified layout, for signing (written) and verification (read), symbolic contents, 12 sets",
 "P14": "argument handling and outcomes of every public function for the 12 sets, symbolic keys, signatures, lengths, messages of symbolic length, over the contracts of signing and verification (proved in the same run); the NIST-style wrappers for every message length below 2^53 and every placement of the buffers by CBMC contracts",
 "P15": "key generation under an entropy source that delivers arbitrary bytes (loop by induction; partial correctness), signatures as function of key, message and randomness, randomness drawn internally",
 "P17": "the twelve sets against values derived from lambda, tau and family, published sizes, capacities, every other identifier",
 "P18": "every caller of the entropy source under a contract that may fail at any draw, and rand_bytes against getrandom failing or delivering any shorter number of bytes",
 "P16": "every unit of the other checks once more with postconditions off: bounds, lifetimes, frames, releases, uninitialised branches, shifts, overlaps, preconditions of callees, for all data; both Keccak/AES back ends, sizes and indices as in the unit list",
 "P19": "every unit on the signing and key generation side once more with all inputs secret except the named public ones: no branch, selection, address or compared range of /repo's code may have secret support in normal form (values returned by contracts count as secret); at the level of LLVM IR before optimisation, so what a compiler makes of it is outside; OpenSSL and the kernel's entropy source assumed constant-flow; the message contents are treated as secret too",
 "P21": "real signing followed by real verification through the public API for the 12 sets with symbolic key, message and randomness, over contracts that relate the verifier's parts to the signer's (consequences of the proved part contracts and the lemmas run here: openings, VOLE correlation, additivity, proof identity, zero residuals); those part contracts one level down are proved in the same run",
 "P06": "witness extension for the 12 sets against specification, all keys and inputs",
}
EXTRA = " Relies on the self-written VC generator in engine/, the clang front end, and the specifications in spec/."
NA = {
 "P20": "a computational statement over all probabilistic polynomial-time adversaries; no program contract expresses it",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 driver/check.py %s" % i, "thorough_cmd": "python3 driver/check.py %s --tier thorough" % i,
          "technique": "contract-based deductive verification: executable contracts on /repo's functions, obligations generated from their LLVM IR and discharged by normalisation and SMT",
          "level": "proof", "level_note": NOTE[i] + "." + EXTRA})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "bash engine/build.sh", "checks": checks, "not_applicable": na}, open("/verif/MANIFEST.json", "w"), indent=1)
