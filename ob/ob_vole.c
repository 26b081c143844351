#include "contracts.h"
#include "instances.h"
#include "vole.h"
#include "aes.h"
#include "utils.h"
#include <stdio.h>

// ================================================= xor_u8_array
#define XMAX 1040
void contract_xor_u8_array(const uint8_t* a, const uint8_t* b, uint8_t* out, size_t len) {
  fv_require("xor_u8_array: length among those proved", len <= XMAX);
  fv_require("xor_u8_array: output is disjoint from or equal to an input",
             (fv_disjoint(out, len, a, len) || out == a) && (fv_disjoint(out, len, b, len) || out == b));
  fv_xor(out, a, b, len);
}
typedef void (*xor_fn)(const uint8_t*, const uint8_t*, uint8_t*, size_t);
void ob_xor(int lo, int hi) {
  static uint8_t a[XMAX + 1], b[XMAX + 1], o[XMAX + 1], r[XMAX + 1];
  xor_fn f = (xor_fn)fv_find_static("xor_u8_array", (fv_fn)contract_xor_u8_array);
  fv_check("the contract of xor_u8_array is proved or not used", 1);
  if (!f)
    return;
  for (int n = lo; n <= hi; n++)
    for (int alias = 0; alias < 3; alias++) {
      fv_sym(a, (size_t)n, "a"), fv_sym(b, (size_t)n, "b");
      fv_xor(r, a, b, (size_t)n);
      uint8_t* out = alias == 0 ? o : alias == 1 ? a : b;
      fv_frame_begin("xor_u8_array writes only its output");
      fv_assigns(out, (size_t)n);
      f(a, b, out, (size_t)n);
      fv_frame_end();
      fv_eq("xor_u8_array", out, r, (size_t)n);
    }
}
int xor_contract(void) { return fv_contract_static("xor_u8_array", (fv_fn)contract_xor_u8_array); }

// ================================================= abstract values of the vector commitments (functions of root and IV;
// what they are is proved about the code in ob_vc.c)
static void abs_vc(const char* what, unsigned lambda, unsigned depth, const uint8_t* root, const uint8_t* iv, uint8_t* out, size_t n) {
  char nm[64];
  spec_name(nm, what, lambda, depth);
  fv_uf(nm, out, n, 2, root, (size_t)lambda / 8, iv, (size_t)16);
}
void contract_vector_commitment(const uint8_t* rootKey, const uint8_t* iv, const faest_paramset_t* params,
                                uint32_t lambda, vec_com_t* vc, uint32_t depth) {
  const size_t L = lambda / 8, N = (size_t)1 << depth;
  fv_require("vector_commitment: level", lambda == params->faest_param.lambda);
  fv_require("vector_commitment: depth among those proved", spec_depth_ok(lambda, depth));
  uint8_t* h   = malloc(2 * L);
  uint8_t* com = malloc(2 * L * N);
  uint8_t* sd  = malloc(L * N);
  uint8_t* k   = malloc(L * (2 * N - 1));
  abs_vc("vc_h", lambda, depth, rootKey, iv, h, 2 * L);
  abs_vc("vc_com", lambda, depth, rootKey, iv, com, 2 * L * N);
  abs_vc("vc_sd", lambda, depth, rootKey, iv, sd, L * N);
  abs_vc("vc_k", lambda, depth, rootKey, iv, k, L * (2 * N - 1));
  vc->h   = h;
  vc->com = com;
  vc->sd  = sd;
  vc->k   = k;
}
void contract_vector_open(const uint8_t* k, const uint8_t* com, const uint8_t* b, uint8_t* cop, uint8_t* com_j,
                          uint32_t depth, uint32_t L) {
  const size_t N = (size_t)1 << depth;
  char nm[64];
  for (uint32_t i = 0; i < depth; i++)
    fv_require("vector_open: index bits are bits", b[i] <= 1);
  fv_require("vector_open: depth among those proved", spec_depth_ok(8 * L, depth));
  spec_name(nm, "vc_open", 8 * L, depth);
  uint8_t tmp[14 * 32];
  fv_uf(nm, tmp, L * (depth + 2), 3, k, L * (2 * N - 1), com, 2 * L * N, b, (size_t)depth);
  memcpy(cop, tmp, L * depth);
  memcpy(com_j, tmp + L * depth, 2 * L);
}
void contract_vector_reconstruction(const uint8_t* iv, const uint8_t* cop, const uint8_t* com_j, const uint8_t* b,
                                    uint32_t lambda, uint32_t depth, vec_com_rec_t* rec) {
  const size_t L = lambda / 8, N = (size_t)1 << depth;
  char nm[64];
  for (uint32_t i = 0; i < depth; i++)
    fv_require("vector_reconstruction: index bits are bits", b[i] <= 1);
  fv_require("vector_reconstruction: depth among those proved", spec_depth_ok(lambda, depth));
  uint8_t h[64];
  spec_name(nm, "vr_h", lambda, depth);
  fv_uf(nm, h, 2 * L, 4, iv, (size_t)16, cop, L * depth, com_j, 2 * L, b, (size_t)depth);
  spec_name(nm, "vr_s", lambda, depth);
  fv_uf(nm, rec->s, L * N, 4, iv, (size_t)16, cop, L * depth, com_j, 2 * L, b, (size_t)depth);
  fv_havoc(rec->k, (2 * N - 1) * L);
  fv_havoc(rec->com, 2 * N * L);
  memcpy(rec->h, h, 2 * L);
}

// ================================================= ConvertToVole
typedef void (*conv_fn)(const uint8_t*, const uint8_t*, bool, unsigned int, unsigned int, unsigned int, uint8_t*, uint8_t*);
static int abstract_convert;
// u and v from the seeds, as the contract of ConvertToVole or, if the code has no such function, explicitly
static void conv(unsigned lambda, unsigned depth, const uint8_t* iv, const uint8_t* sd, int bot, size_t n, uint8_t* u, uint8_t* v) {
  const size_t L = lambda / 8, N = (size_t)1 << depth;
  if (!abstract_convert) {
    spec_convert(lambda, depth, iv, sd, bot, n, u, v);
    return;
  }
  char nm[64];
  fv_require("ConvertToVole: depth among those proved", spec_depth_ok(lambda, depth));
  spec_name(nm, bot ? "conv_bot" : "conv", lambda, depth);
  fv_uf(nm, v, depth * n, 3, iv, (size_t)16, sd + (bot ? L : 0), L * (N - (bot ? 1 : 0)), &n, sizeof n);
  spec_name(nm, "conv_u", lambda, depth);
  if (!bot)
    fv_uf(nm, u, n, 3, iv, (size_t)16, sd, L * N, &n, sizeof n);
}
void contract_ConvertToVole(const uint8_t* iv, const uint8_t* sd, bool sd0_bot, unsigned int lambda, unsigned int depth,
                            unsigned int outLenBytes, uint8_t* u, uint8_t* v) {
  fv_require("ConvertToVole: a mask is asked for exactly when all seeds are known", (u != NULL) == !sd0_bot);
  fv_require("ConvertToVole: length among those proved", spec_convert_len_ok(lambda, depth, outLenBytes));
  conv(lambda, depth, iv, sd, sd0_bot, outLenBytes, u, v);
}
// for set id, first (which = 0) or second depth
void ob_vole_commit(int id);
void ob_convert(int id, int which, int bot) {
  const spec_params* s = spec_set(id);
  const size_t L = s->lambda / 8, n = s->ell_hat / 8;
  const unsigned depth = which ? s->k1 : s->k0;
  conv_fn f = (conv_fn)fv_find_static("ConvertToVole", (fv_fn)contract_ConvertToVole);
  fv_check("the contract of ConvertToVole is proved or not used", 1);
  if (!f) {
    if (!fv_symbolic())
      ob_vole_commit(id);
    return;
  }
  static uint8_t iv[16], sd[4096 * 32], u[1040], v[12 * 1040], u0[1040], v0[12 * 1040];
  prg_contract();
  xor_contract();
  fv_sym(iv, 16, "iv");
  fv_sym(sd, L << depth, "sd");
  fv_heap_mark();
  fv_frame_begin("ConvertToVole writes only its outputs");
  fv_assigns(v, depth * n);
  if (!bot)
    fv_assigns(u, n);
  f(iv, sd, bot, s->lambda, depth, (unsigned)n, bot ? NULL : u, v);
  fv_frame_end();
  fv_heap_check("ConvertToVole leaks nothing", 0);
  spec_convert(s->lambda, depth, iv, sd, bot, n, u0, v0);
  if (!bot)
    fv_eq("convert: mask", u, u0, n);
  fv_eq("convert: columns", v, v0, depth * n);
}
static void convert_contract(void) {
  abstract_convert = fv_contract_static("ConvertToVole", (fv_fn)contract_ConvertToVole) != 0;
}

// ================================================= the challenge split
void ob_chaldec(int id) {
  const spec_params* s = spec_set(id);
  static uint8_t chal[32], out[13];
  unsigned covered = 0;
  fv_sym(chal, s->lambda / 8, "chal");
  for (unsigned i = 0; i < s->tau; i++) {
    unsigned d = spec_chal_depth(s, i);
    memset(out, 0xcc, sizeof out);
    fv_frame_begin("ChalDec writes only its output");
    fv_assigns(out, d);
    fv_check("ChalDec: accepts every instance", ChalDec(chal, i, s->k0, s->t0, s->k1, s->t1, out) == 1);
    fv_frame_end();
    for (unsigned j = 0; j < d; j++, covered++)
      fv_check("ChalDec: the bits in order", out[j] == (chal[covered / 8] >> (covered % 8) & 1));
  }
  fv_check("ChalDec: every challenge bit once", covered == s->lambda);
  fv_check("ChalDec: rejects other instances", ChalDec(chal, s->tau, s->k0, s->t0, s->k1, s->t1, out) == 0);
}

// ================================================= commit and reconstruct
#define TAU 32
static uint8_t root[32], iv[16], keys[1024], c[31 * 1040], u[1040], hcom[64];
static uint8_t c0[31 * 1040], u0[TAU * 1040], hcom0[64];
void ob_vole_commit(int id) {
  const spec_params* s = spec_set(id);
  const size_t L = s->lambda / 8, n = s->ell_hat / 8;
  faest_paramset_t params = faest_get_paramset((faest_paramid_t)id);
  prg_contract();
  hash_contracts();
  xor_contract();
  convert_contract();
  FV_CONTRACT(vector_commitment, contract_vector_commitment);
  vec_com_t vc[TAU];
  uint8_t* v[256];
  memset(vc, 0xcc, sizeof vc);
  uint8_t* V = malloc(s->lambda * n);
  uint8_t* V0 = malloc(s->lambda * n);
  for (unsigned i = 0; i < s->lambda; i++)
    v[i] = V + i * n;
  fv_sym(root, L, "root");
  fv_sym(iv, 16, "iv");
  fv_heap_mark();
  fv_frame_begin("vole_commit writes only its results");
  fv_assigns(V, s->lambda * n), fv_assigns(vc, s->tau * sizeof vc[0]), fv_assigns(hcom, 2 * L);
  fv_assigns(c, (s->tau - 1) * n), fv_assigns(u, n);
  vole_commit(root, iv, (unsigned)(8 * n), &params, hcom, vc, c, u, v);
  fv_frame_end();
  fv_heap_check("vole_commit leaves exactly the commitments", 4 * s->tau);
  // specification
  spec_prg(keys, root, iv, s->lambda, L * s->tau);
  uint8_t* hs = malloc(2 * L * s->tau);
  for (unsigned i = 0; i < s->tau; i++) {
    unsigned d = spec_chal_depth(s, i);
    faest_paramset_t ps = params;
    vec_com_t w;
    (fv_symbolic() ? contract_vector_commitment : vector_commitment)(keys + L * i, iv, &ps, s->lambda, &w, d);
    fv_eq("vole_commit: tree of the instance", vc[i].k, w.k, L * ((2u << d) - 1));
    fv_eq("vole_commit: commitments of the instance", vc[i].com, w.com, 2 * L << d);
    memcpy(hs + 2 * L * i, w.h, 2 * L);
    conv(s->lambda, d, iv, w.sd, 0, n, u0 + n * i, V0 + n * spec_chal_first(s, i));
    vec_com_clear(&w);
    vec_com_clear(&vc[i]);
  }
  spec_H1(s->lambda, hs, 2 * L * s->tau, hcom0);
  free(hs);
  fv_eq("vole_commit: u is the mask of the first instance", u, u0, n);
  for (unsigned i = 1; i < s->tau; i++) {
    fv_xor(c0, u0, u0 + n * i, n);
    fv_eq("vole_commit: correction", c + n * (i - 1), c0, n);
  }
  fv_eq("vole_commit: columns", V, V0, s->lambda * n);
  fv_eq("vole_commit: hash", hcom, hcom0, 2 * L);
  free(V), free(V0);
}
void ob_vole_reconstruct(int id) {
  const spec_params* s = spec_set(id);
  const size_t L = s->lambda / 8, n = s->ell_hat / 8;
  faest_paramset_t params = faest_get_paramset((faest_paramid_t)id);
  static uint8_t chal[32], pdec[TAU][12 * 32], comj[TAU][64], sd[4096 * 32];
  prg_contract();
  hash_contracts();
  xor_contract();
  convert_contract();
  FV_CONTRACT(vector_reconstruction, contract_vector_reconstruction);
  uint8_t* q[256];
  const uint8_t *pd[TAU], *cj[TAU];
  uint8_t* Q  = malloc(s->lambda * n);
  uint8_t* Q0 = malloc(s->lambda * n);
  for (unsigned i = 0; i < s->lambda; i++)
    q[i] = Q + i * n;
  fv_sym(chal, L, "chal");
  fv_sym(iv, 16, "iv");
  for (unsigned i = 0; i < s->tau; i++) {
    fv_sym(pdec[i], L * spec_chal_depth(s, i), "pdec");
    fv_sym(comj[i], 2 * L, "com_j");
    pd[i] = pdec[i];
    cj[i] = comj[i];
  }
  fv_heap_mark();
  fv_frame_begin("vole_reconstruct writes only its results");
  fv_assigns(Q, s->lambda * n), fv_assigns(hcom, 2 * L);
  vole_reconstruct(iv, chal, pd, cj, hcom, q, (unsigned)(8 * n), &params);
  fv_frame_end();
  fv_heap_check("vole_reconstruct leaks nothing", 0);
  // specification
  uint8_t* hs = malloc(2 * L * s->tau);
  for (unsigned i = 0; i < s->tau; i++) {
    unsigned d = spec_chal_depth(s, i), f = spec_chal_first(s, i), idx = 0;
    uint8_t b[12];
    vec_com_rec_t r;
    r.h = malloc(2 * L), r.k = malloc(L * ((2u << d) - 1)), r.com = malloc(2 * L << d), r.s = malloc(L << d);
    for (unsigned j = 0; j < d; j++) {
      b[j] = chal[(f + j) / 8] >> ((f + j) % 8) & 1;
      idx |= (unsigned)b[j] << j;
    }
    (fv_symbolic() ? contract_vector_reconstruction : vector_reconstruction)(iv, pdec[i], comj[i], b, s->lambda, d, &r);
    memset(sd, 0, L);
    for (unsigned j = 1; j < 1u << d; j++)
      memcpy(sd + L * j, r.s + L * (j ^ idx), L);
    conv(s->lambda, d, iv, sd, 1, n, u0, Q0 + n * f);
    memcpy(hs + 2 * L * i, r.h, 2 * L);
    vec_com_rec_clear(&r);
  }
  spec_H1(s->lambda, hs, 2 * L * s->tau, hcom0);
  free(hs);
  fv_eq("vole_reconstruct: columns", Q, Q0, s->lambda * n);
  fv_eq("vole_reconstruct: hash", hcom, hcom0, 2 * L);
  free(Q), free(Q0);
}

// ================================================= lemma: the correlation
// For seeds s_0..s_{N-1} with r_j = PRG(s_j) one byte each, hidden index idx: the columns from the reordered seeds
// s_{j ^ idx} (j = 0 unknown) are V_d + idx_d u.
void ob_vole_lemma(int depth, int lo, int hi, int step) {
  static uint8_t r[4096], x[4096], u1[1], v1[12];
  const unsigned N = 1u << depth;
  fv_sym(r, N, "r");
  u1[0] = 0;
  memset(v1, 0, sizeof v1);
  for (unsigned j = 0; j < N; j++) {
    u1[0] ^= r[j];
    for (int d = 0; d < depth; d++)
      if (j >> d & 1)
        v1[d] ^= r[j];
  }
  for (unsigned idx = (unsigned)lo; idx < (unsigned)hi; idx += (unsigned)step)
    for (int d = 0; d < depth; d++) {
      uint8_t q = 0, e;
      for (unsigned j = 1; j < N; j++)
        if (j >> d & 1)
          q ^= r[j ^ idx];
      e = v1[d] ^ ((idx >> d & 1) ? u1[0] : 0);
      fv_eq("correlation: Q_d = V_d + delta_d u", &q, &e, 1);
    }
}
