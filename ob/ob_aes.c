#include "contracts.h"
#include "aes.h"
#include "owf.h"
#include "instances.h"
#if defined(HAVE_OPENSSL)
#include <openssl/evp.h>
#endif

// prg writes the first outlen bytes of the stream of (key, iv)
void contract_prg(const uint8_t* key, const uint8_t* iv, uint8_t* out, unsigned int seclvl, size_t outlen) {
  fv_require("prg: security level", seclvl == 128 || seclvl == 192 || seclvl == 256);
  fv_require("prg: length among those proved", outlen <= 1040);
  fv_require("prg: the output does not overlap the inputs", fv_disjoint(out, outlen, key, seclvl / 8) && fv_disjoint(out, outlen, iv, 16));
  spec_prg(out, key, iv, seclvl, outlen);
}

void prg_contract(void) { FV_CONTRACT(prg, contract_prg); }

// cipher: 0..4 = aes128, aes192, aes256, rijndael192, rijndael256
static int init_keys(int c, aes_round_keys_t* rk, const uint8_t* key) {
  switch (c) {
  case 0: return aes128_init_round_keys(rk, key);
  case 1: return aes192_init_round_keys(rk, key);
  case 2: return aes256_init_round_keys(rk, key);
  case 3: return rijndael192_init_round_keys(rk, key);
  default: return rijndael256_init_round_keys(rk, key);
  }
}
static int encrypt(int c, const aes_round_keys_t* rk, const uint8_t* in, uint8_t* out) {
  switch (c) {
  case 0: return aes128_encrypt_block(rk, in, out);
  case 1: return aes192_encrypt_block(rk, in, out);
  case 2: return aes256_encrypt_block(rk, in, out);
  case 3: return rijndael192_encrypt_block(rk, in, out);
  default: return rijndael256_encrypt_block(rk, in, out);
  }
}
static const unsigned Nks[5] = {4, 6, 8, 6, 8}, Nbs[5] = {4, 4, 4, 6, 8};

// key expansion: round keys and zero report
void ob_aes_keys(int c) {
  unsigned Nk = Nks[c], Nb = Nbs[c], Nr = Nk + 6;
  uint8_t key[32], w[4 * 8 * 15];
  aes_round_keys_t rk;
  FV_CONTRACT(bf8_inv, contract_bf8_inv);
  fv_sym(key, 4 * Nk, "key");
  fv_frame_begin("init_round_keys writes only the round keys");
  fv_assigns(&rk, sizeof rk);
  int ret = init_keys(c, &rk, key);
  fv_frame_end();
  int z = 0;
  spec_key_expansion(w, key, Nk, Nb, Nr, &z);
  for (unsigned i = 0; i < Nb * (Nr + 1); i++)
    fv_eq("key schedule: round key word", &rk.round_keys[i / Nb][i % Nb][0], w + 4 * i, 4);
  fv_check("key schedule: zero S-box input reported exactly", (ret != 0) == (z != 0));
}
// encryption under arbitrary round keys
void ob_aes_encrypt(int c, int inplace) {
  unsigned Nk = Nks[c], Nb = Nbs[c], Nr = Nk + 6;
  uint8_t in[32], in0[32], out[32], ref[32], w[4 * 8 * 15];
  aes_round_keys_t rk;
  FV_CONTRACT(bf8_inv, contract_bf8_inv);
  fv_sym(in, 4 * Nb, "in");
  memcpy(in0, in, 4 * Nb);
  fv_sym(w, 4 * Nb * (Nr + 1), "roundkeys");
  for (unsigned i = 0; i < Nb * (Nr + 1); i++)
    memcpy(&rk.round_keys[i / Nb][i % Nb][0], w + 4 * i, 4);
  uint8_t* o = inplace ? in : out;
  fv_frame_begin("encrypt_block writes only the output block");
  fv_assigns(o, 4 * Nb);
  int ret = encrypt(c, &rk, in, o);
  fv_frame_end();
  int z = 0;
  spec_rijndael(ref, in0, w, Nb, Nr, &z, NULL);
  fv_eq("encryption: ciphertext", o, ref, 4 * Nb);
  fv_check("encryption: zero S-box input reported exactly", (ret != 0) == (z != 0));
}
// whole cipher
void ob_aes_cipher(int c) {
  unsigned Nk = Nks[c], Nb = Nbs[c], Nr = Nk + 6;
  uint8_t key[32], in[32], out[32], ref[32], w[4 * 8 * 15];
  aes_round_keys_t rk;
  FV_CONTRACT(bf8_inv, contract_bf8_inv);
  fv_sym(in, 4 * Nb, "in");
  fv_sym(key, 4 * Nk, "key");
  int ret = init_keys(c, &rk, key);
  ret |= encrypt(c, &rk, in, out);
  int z = 0;
  spec_key_expansion(w, key, Nk, Nb, Nr, &z);
  spec_rijndael(ref, in, w, Nb, Nr, &z, NULL);
  fv_eq("cipher: ciphertext", out, ref, 4 * Nb);
  fv_check("cipher: zero S-box input reported exactly", (ret != 0) == (z != 0));
}
// counter increment
void ob_increment_iv(void) {
  uint8_t iv[16], s[16];
  fv_sym(iv, 16, "iv");
  memcpy(s, iv, 16);
  aes_increment_iv(iv);
  spec_ctr_inc_def(s);
  fv_eq("counter increment is +1 modulo 2^128, big endian", iv, s, 16);
}

#if defined(HAVE_OPENSSL)
// assumed contracts of the OpenSSL EVP interface (what prg uses of it): a context holds the cipher, key,
// counter block and the position in the key stream; updates xor the input with the next bytes.
typedef struct {
  unsigned lambda;
  uint8_t key[32], iv[16];
  size_t pos;
} evp_model;
static char evp128, evp192, evp256;
const EVP_CIPHER* model_EVP_aes_128_ctr(void) { return (const EVP_CIPHER*)&evp128; }
const EVP_CIPHER* model_EVP_aes_192_ctr(void) { return (const EVP_CIPHER*)&evp192; }
const EVP_CIPHER* model_EVP_aes_256_ctr(void) { return (const EVP_CIPHER*)&evp256; }
EVP_CIPHER_CTX* model_EVP_CIPHER_CTX_new(void) { return (EVP_CIPHER_CTX*)calloc(1, sizeof(evp_model)); }
void model_EVP_CIPHER_CTX_free(EVP_CIPHER_CTX* c) { free(c); }
int model_EVP_EncryptInit_ex(EVP_CIPHER_CTX* ctx, const EVP_CIPHER* c, ENGINE* e, const unsigned char* key, const unsigned char* iv) {
  evp_model* m = (evp_model*)ctx;
  m->lambda    = (const char*)c == &evp128 ? 128 : (const char*)c == &evp192 ? 192 : 256;
  memcpy(m->key, key, m->lambda / 8);
  memcpy(m->iv, iv, 16);
  m->pos = 0;
  return 1;
}
int model_EVP_EncryptUpdate(EVP_CIPHER_CTX* ctx, unsigned char* out, int* outl, const unsigned char* in, int inl) {
  evp_model* m = (evp_model*)ctx;
  uint8_t ks[2048];
  fv_require("EVP_EncryptUpdate: initialised context", m->lambda != 0);
  fv_require("EVP_EncryptUpdate: length", inl >= 0 && m->pos + (size_t)inl <= sizeof ks);
  spec_prg(ks, m->key, m->iv, m->lambda, m->pos + (size_t)inl);
  for (int i = 0; i < inl; i++)
    out[i] = in[i] ^ ks[m->pos + (size_t)i];
  m->pos += (size_t)inl;
  *outl = inl;
  return 1;
}
int model_EVP_EncryptFinal_ex(EVP_CIPHER_CTX* ctx, unsigned char* out, int* outl) {
  *outl = 0;
  return 1;
}
static void evp_contracts(void) {
  FV_CONTRACT(EVP_aes_128_ctr, model_EVP_aes_128_ctr);
  FV_CONTRACT(EVP_aes_192_ctr, model_EVP_aes_192_ctr);
  FV_CONTRACT(EVP_aes_256_ctr, model_EVP_aes_256_ctr);
  FV_CONTRACT(EVP_CIPHER_CTX_new, model_EVP_CIPHER_CTX_new);
  FV_CONTRACT(EVP_CIPHER_CTX_free, model_EVP_CIPHER_CTX_free);
  FV_CONTRACT(EVP_EncryptInit_ex, model_EVP_EncryptInit_ex);
  FV_CONTRACT(EVP_EncryptUpdate, model_EVP_EncryptUpdate);
  FV_CONTRACT(EVP_EncryptFinal_ex, model_EVP_EncryptFinal_ex);
}
#endif
void contract_aes_increment_iv(uint8_t* iv) { spec_ctr_inc(iv); }
// prg: all lengths lo..hi
void ob_prg(int lambda, int lo, int hi) {
  static uint8_t key[32], iv[16], ref[2048];
  fv_sym(key, (size_t)lambda / 8, "key");
  fv_sym(iv, 16, "iv");
#if defined(HAVE_OPENSSL)
  evp_contracts();
#else
  FV_CONTRACT(bf8_inv, contract_bf8_inv);
  FV_CONTRACT(aes_increment_iv, contract_aes_increment_iv);
#endif
#if defined(HAVE_OPENSSL) && !defined(FV_NATIVE)
  spec_prg(ref, key, iv, (unsigned)lambda, (size_t)hi);
#else
  spec_aes_ctr(ref, key, iv, (unsigned)lambda, (size_t)hi);
#endif
  for (int n = lo; n <= hi; n++) {
    uint8_t* out = malloc((size_t)n + 1);
    out[n]       = 0xa5;
    fv_heap_mark();
    fv_frame_begin("prg writes only its output");
    fv_assigns(out, (size_t)n);
    prg(key, iv, out, (unsigned)lambda, (size_t)n);
    fv_frame_end();
    fv_heap_check("prg leaks nothing", 0);
    fv_eq("prg: output is the key stream", out, ref, (size_t)n);
    fv_check("prg: nothing written past the output", out[n] == 0xa5);
    free(out);
  }
}

// one-way functions; f = 0..5: 128, 192, 256, em_128, em_192, em_256
void ob_owf(int f) {
  static const unsigned lam[6] = {128, 192, 256, 128, 192, 256};
  unsigned lambda = lam[f], em = f >= 3, blk = em ? lambda / 8 : lambda == 128 ? 16 : 32;
  uint8_t key[32], in[32], out[33], ref[32];
  FV_CONTRACT(bf8_inv, contract_bf8_inv);
  fv_sym(key, lambda / 8, "key");
  fv_sym(in, blk, "in");
  bool r;
  fv_frame_begin("owf writes only its output");
  fv_assigns(out, blk);
  switch (f) {
  case 0: r = owf_128(key, in, out); break;
  case 1: r = owf_192(key, in, out); break;
  case 2: r = owf_256(key, in, out); break;
  case 3: r = owf_em_128(key, in, out); break;
  case 4: r = owf_em_192(key, in, out); break;
  default: r = owf_em_256(key, in, out); break;
  }
  fv_frame_end();
  int v = spec_owf(ref, key, in, lambda, (int)em);
  fv_eq("owf: output", out, ref, blk);
  fv_check("owf: validity", (r != 0) == (v != 0));
}

// extended witness of parameter set id
void ob_extend_witness(int id) {
  const spec_params* s = spec_set(id);
  static uint8_t key[32], in[32], ref[1024];
  FV_CONTRACT(bf8_inv, contract_bf8_inv);
  fv_sym(key, s->lambda / 8, "key");
  fv_sym(in, s->pk / 2, "in");
  faest_paramset_t params = faest_get_paramset((faest_paramid_t)id);
  fv_heap_mark();
  fv_frame_begin("aes_extend_witness writes only its result");
  uint8_t* w = aes_extend_witness(key, in, &params);
  fv_frame_end();
  size_t n = spec_extend_witness(ref, key, in, s->lambda, (int)s->em);
  fv_check("extended witness: length", n == s->l / 8);
  fv_eq("extended witness", w, ref, n);
  free(w);
  fv_heap_check("aes_extend_witness leaks nothing", 0);
}
