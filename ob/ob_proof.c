#include "contracts.h"
#include "faest_aes.h"
#include "instances.h"
#include "utils.h"
#include "vole.h"

void field_contracts(void);
int xor_contract(void);

typedef struct {
  const spec_params* p;
  const faest_paramset_t* ps;
  size_t L, n, pub;
} setup;
static setup start(int set) {
  setup s = {spec_set(set), 0, 0, 0, 0};
  static faest_paramset_t ps;
  ps    = faest_get_paramset((faest_paramid_t)set);
  s.ps  = &ps;
  s.L   = s.p->lambda / 8;
  s.n   = s.p->ell_hat / 8;
  s.pub = s.p->pk / 2;
  field_contracts();
  xor_contract();
  FV_CONTRACT(bf8_inv, contract_bf8_inv);
  return s;
}
static uint8_t* sym(size_t n, const char* name) {
  uint8_t* b = malloc(n);
  fv_sym(b, n, name);
  return b;
}
void ob_prove(int set) {
  setup s    = start(set);
  uint8_t *w = sym(s.p->l / 8, "w"), *u = sym(s.n, "u"), *in = sym(s.pub, "in"), *out = sym(s.pub, "out");
  uint8_t *ch = sym(3 * s.L + 8, "chall_2"), *a = malloc(s.L), *b = malloc(s.L), ra[32], rb[32];
  uint8_t* V[256];
  for (unsigned i = 0; i < s.p->lambda; i++)
    V[i] = sym(s.n, "V");
  fv_heap_mark();
  fv_frame_begin("aes_prove writes only the proof values");
  fv_assigns(a, s.L), fv_assigns(b, s.L);
  aes_prove(w, u, V, in, out, ch, a, b, s.ps);
  fv_frame_end();
  fv_heap_check("aes_prove leaks nothing", 0);
  uint8_t* rows = malloc((s.p->l + s.p->lambda) * s.L);
  spec_rows(rows, V, s.p->l + s.p->lambda, s.p->lambda);
  const size_t c = spec_prove(set, w, u + s.p->l / 8, rows, in, out, ch, ra, rb);
  fv_check("one constraint per S-box", c == s.p->C);
  fv_eq("aes_prove: a_tilde", a, ra, s.L);
  fv_eq("aes_prove: b_tilde", b, rb, s.L);
}
void ob_verify(int set) {
  setup s    = start(set);
  uint8_t *d = sym(s.p->l / 8, "d"), *in = sym(s.pub, "in"), *out = sym(s.pub, "out"), *ch = sym(3 * s.L + 8, "chall_2");
  uint8_t *delta = sym(s.L, "chall_3"), *a = sym(s.L, "a_tilde"), r[32];
  uint8_t *Q[256], *C[256];
  for (unsigned c = 0; c < s.p->lambda; c++) {
    Q[c] = sym(s.n, "Q");
    C[c] = malloc(s.n);
    memcpy(C[c], Q[c], s.n);
    for (size_t i = 0; i < s.p->l / 8; i++)
      C[c][i] ^= d[i] & (uint8_t) - ((delta[c / 8] >> (c % 8)) & 1);
  }
  uint8_t* rows = malloc((s.p->l + s.p->lambda) * s.L);
  spec_rows(rows, C, s.p->l + s.p->lambda, s.p->lambda);
  const size_t c = spec_verify(set, rows, ch, delta, a, in, out, r);
  fv_check("one constraint per S-box", c == s.p->C);
  fv_heap_mark();
  fv_frame_begin("aes_verify writes only the matrix");
  for (unsigned i = 0; i < s.p->lambda; i++)
    fv_assigns(Q[i], s.n);
  uint8_t* q = aes_verify(d, Q, ch, delta, a, in, out, s.ps);
  fv_frame_end();
  fv_heap_check("aes_verify leaks nothing but its result", 1);
  fv_eq("aes_verify: value", q, r, s.L);
  free(q);
}
// with rows q_i = v_i + w_i Delta (i < l) and v_i + u_i Delta (the mask), the value of the verifier is the prover's second
// value plus (Delta^2 + Delta) times the hash of what the constraints are off by
void ob_proof_lemma(int set) {
  setup s    = start(set);
  const size_t n = s.p->l + s.p->lambda, L = s.L;
  uint8_t *w = sym(n / 8, "w and mask"), *in = sym(s.pub, "in"), *out = sym(s.pub, "out"), *ch = sym(3 * L + 8, "chall_2");
  uint8_t *delta = sym(L, "delta"), *v = sym(n * L, "v"), *q = malloc(n * L), a[32], b[32], x[32], r[32], d2[32];
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < L; j++)
      q[i * L + j] = v[i * L + j] ^ (delta[j] & (uint8_t) - ((w[i / 8] >> (i % 8)) & 1));
  spec_prove(set, w, w + s.p->l / 8, v, in, out, ch, a, b);
  spec_verify(set, q, ch, delta, a, in, out, x);
  spec_residual(set, w, in, out, ch, r);
  fv_gfmul(d2, delta, delta, L);
  fv_xor(d2, d2, delta, L);
  fv_gfmul(r, r, d2, L);
  fv_xor(b, b, r, L);
  fv_eq("verifier's value = prover's value + (Delta^2 + Delta) hash(residuals)", x, b, L);
}
// for a valid key and its output, every constraint relates a byte that occurs as S-box input to its inverse
void ob_witness_satisfies(int set) {
  const spec_params* p = spec_set(set);
  const unsigned sk = p->lambda / 8, pub = p->pk / 2;
  uint8_t *key = sym(sk, "key"), *in = sym(pub, "in"), *w = malloc(p->l / 8 + 64), *x = malloc(p->C), *y = malloc(p->C), out[64];
  spec_owf(out, key, in, p->lambda, (int)p->em);
  spec_extend_witness(w, key, in, p->lambda, (int)p->em);
  fv_check("number of constraints", spec_constraint_bytes(set, w, in, out, x, y) == p->C);
  for (unsigned i = 0; i < p->C; i++)
    x[i] = fv_uf8("inv8", spec_inv8_table(), x[i]);
  fv_eq("S-box output is the inverse of its input", x, y, p->C);
}
// the embedding of a nonzero byte times the embedding of its inverse is one
void ob_embed_inverse(int lambda) {
  const size_t L = (size_t)lambda / 8;
  uint8_t a[32], b[32], one[32] = {1};
  for (unsigned i = 1; i < 256; i++) {
    spec_embed(a, (uint8_t)i, L);
    spec_embed(b, spec_inv8_table()[i], L);
    spec_gfmul_def(a, a, b, L);
    fv_eq("embedding of x times embedding of 1/x", a, one, L);
  }
}
