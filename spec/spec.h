// Specification functions (written from the FAEST v1 specification, FIPS 197, FIPS 202 and the Rijndael
// submission; no code of the repository is used).
#ifndef SPEC_H
#define SPEC_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

// ---- finite fields: GF(2^8), GF(2^64), GF(2^128), GF(2^192), GF(2^256); nb = bytes
void spec_gfmul_def(uint8_t* out, const uint8_t* a, const uint8_t* b, size_t nb);
const uint8_t* spec_alpha(size_t nb);
void spec_alpha_pow(uint8_t* out, size_t nb, unsigned i);
const uint8_t* spec_alpha_table(size_t nb);
void spec_embed(uint8_t* out, uint8_t x, size_t nb);
void spec_byte_combine(uint8_t* out, const uint8_t* x, size_t stride, size_t nb);
void spec_xtimes(uint8_t* out, const uint8_t* a, size_t nb);
void spec_sum_poly(uint8_t* out, const uint8_t* x, size_t stride, size_t nb);
const uint8_t* spec_inv8_table(void);

// ---- AES / Rijndael / PRG / OWF
uint8_t spec_sbox(uint8_t x);
void spec_key_expansion(uint8_t* w, const uint8_t* key, unsigned Nk, unsigned Nb, unsigned Nr, int* zero);
void spec_rijndael(uint8_t* out, const uint8_t* in, const uint8_t* w, unsigned Nb, unsigned Nr, int* zero, uint8_t* trace);
void spec_ctr_inc_def(uint8_t* ctr);
void spec_ctr_inc(uint8_t* ctr);
void spec_aes_ctr(uint8_t* out, const uint8_t* key, const uint8_t* iv, unsigned lambda, size_t len);
void spec_prg(uint8_t* out, const uint8_t* key, const uint8_t* iv, unsigned lambda, size_t len);
int spec_owf(uint8_t* out, const uint8_t* key, const uint8_t* in, unsigned lambda, int em);
size_t spec_extend_witness(uint8_t* out, const uint8_t* key, const uint8_t* in, unsigned lambda, int em);

// ---- Keccak
void spec_keccakf_def(uint8_t* s);
void spec_keccakf(uint8_t* s);
void spec_absorb_byte(uint8_t* s, unsigned* pos, unsigned rate, uint8_t b);
void spec_pad(uint8_t* s, unsigned* pos, unsigned rate, uint8_t suffix);
uint8_t spec_squeeze_byte(uint8_t* s, unsigned* pos, unsigned rate);
void spec_shake(unsigned bits, const uint8_t* in, size_t n, uint8_t* out, size_t skip, size_t len);

// ---- vector commitments
void spec_leaf(unsigned lambda, const uint8_t* node, const uint8_t* iv, uint8_t* sd, uint8_t* com);
void spec_H1(unsigned lambda, const uint8_t* in, size_t n, uint8_t* h);
void spec_vc_commit(unsigned lambda, unsigned depth, const uint8_t* root, const uint8_t* iv, uint8_t* k, uint8_t* sd,
                    uint8_t* com, uint8_t* h);
size_t spec_vc_sibling(unsigned depth, size_t j, unsigned i);
void spec_vc_reconstruct(unsigned lambda, unsigned depth, size_t j, const uint8_t* iv, const uint8_t* cop,
                         const uint8_t* com_j, uint8_t* k, uint8_t* s, uint8_t* com, uint8_t* h);

// ---- the twelve parameter sets (FAEST v1, table of parameters), index 1..12 = identifier of the set
typedef struct {
  const char* name;
  unsigned lambda, em, tau, k0, k1, t0, t1, Nwd, Ske, R, Senc, l, Lke, Lenc, C, sig, pk, sk, ell_hat;
} spec_params;
const spec_params* spec_set(int id);
void spec_convert(unsigned lambda, unsigned depth, const uint8_t* iv, const uint8_t* sd, int bot, size_t n, uint8_t* u, uint8_t* v);
int spec_depth_ok(unsigned lambda, unsigned depth);
int spec_convert_len_ok(unsigned lambda, unsigned depth, size_t n);
void spec_name(char* out, const char* what, unsigned a, unsigned b);
unsigned spec_chal_depth(const spec_params* s, unsigned i);
unsigned spec_chal_first(const spec_params* s, unsigned i);

// ---- universal hashes
void spec_vole_hash(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned ell, unsigned lambda);
typedef struct {
  uint8_t h0[32], h1[32], t[32];
  const uint8_t* sd;
  size_t L;
} spec_zk;
void spec_zk_init(spec_zk* z, const uint8_t* sd, unsigned lambda);
void spec_zk_update(spec_zk* z, const uint8_t* v);
void spec_zk_final(spec_zk* z, uint8_t* h, const uint8_t* mask);

// ---- proof
size_t spec_prove(int set, const uint8_t* w, const uint8_t* mask, const uint8_t* tags, const uint8_t* in, const uint8_t* out,
                  const uint8_t* chall, uint8_t* a_tilde, uint8_t* b_tilde);
size_t spec_verify(int set, const uint8_t* rows, const uint8_t* chall_2, const uint8_t* delta, const uint8_t* a_tilde,
                   const uint8_t* in, const uint8_t* out, uint8_t* q_tilde);
void spec_residual(int set, const uint8_t* w, const uint8_t* in, const uint8_t* out, const uint8_t* chall, uint8_t* h);
size_t spec_constraint_bytes(int set, const uint8_t* w, const uint8_t* in, const uint8_t* out, uint8_t* x, uint8_t* y);
void spec_rows(uint8_t* rows, uint8_t** col, size_t n, size_t lambda);

void spec_native_uf(const char* name, uint8_t* out, size_t outlen, int nargs, const uint8_t** p, const size_t* l);
void spec_native_stream(const char* name, const uint8_t* in, size_t n, uint8_t* out, size_t skip, size_t len);
#endif
