#include "fv.h"
#include "spec.h"
#include <string.h>
// FAEST v1: constraints of the one-way function as statements about committed bits.  A committed bit is a bit s together
// with a tag t in GF(2^lambda) (prover), or only a tag (verifier).  Linear operations act on both; a public bit c is
// (c, 0) for the prover and the tag c Delta for the verifier.  Every S-box contributes one constraint: input times
// inverse-affine output is one.
typedef struct {
  uint8_t s;
  uint8_t t[8][32];
} fbyte;
static size_t L;
static const uint8_t* Delta; // 0: prover

static void f_xor(fbyte* r, const fbyte* a, const fbyte* b) {
  r->s = a->s ^ b->s;
  for (int i = 0; i < 8; i++)
    fv_xor(r->t[i], a->t[i], b->t[i], L);
}
static void f_const(fbyte* r, uint8_t c) {
  memset(r, 0, sizeof *r);
  if (!Delta)
    r->s = c;
  else
    for (unsigned i = 0; i < 8; i++)
      for (size_t j = 0; j < L; j++)
        r->t[i][j] = Delta[j] & (uint8_t) - ((c >> i) & 1);
}
static void f_xor_const(fbyte* r, const fbyte* a, uint8_t c) {
  static fbyte k;
  f_const(&k, c);
  f_xor(r, a, &k);
}
// bit i of the result is bit i+2 + bit i+5 + bit i+7 + bit i of 0x05 (inverse of the affine map of the S-box)
static void f_inv_affine(fbyte* r, const fbyte* a) {
  static fbyte x;
  x.s = 0;
  for (unsigned i = 0; i < 8; i++) {
    x.s |= (uint8_t)(((a->s >> ((i + 2) % 8)) ^ (a->s >> ((i + 5) % 8)) ^ (a->s >> ((i + 7) % 8))) & 1) << i;
    fv_xor(x.t[i], a->t[(i + 2) % 8], a->t[(i + 5) % 8], L);
    fv_xor(x.t[i], x.t[i], a->t[(i + 7) % 8], L);
  }
  f_xor_const(r, &x, 0x05);
}
static void f_x2(fbyte* r, const fbyte* a) { // times X modulo X^8 + X^4 + X^3 + X + 1
  r->s = (uint8_t)((a->s << 1) ^ (0x1b & (uint8_t) - (a->s >> 7)));
  for (unsigned i = 0; i < 8; i++) {
    if (i)
      memcpy(r->t[i], a->t[i - 1], L);
    else
      memset(r->t[i], 0, L);
    if (0x1b >> i & 1)
      fv_xor(r->t[i], r->t[i], a->t[7], L);
  }
}
static void f_witness(fbyte* r, const uint8_t* w, const uint8_t* tags, size_t byte) {
  memset(r, 0, sizeof *r);
  if (w)
    r->s = w[byte];
  for (unsigned i = 0; i < 8; i++)
    memcpy(r->t[i], tags + (8 * byte + i) * L, L);
}
static unsigned row_shift(unsigned r, unsigned Nb) { return Nb == 8 && r >= 2 ? r + 1 : r; }
static void (*sink)(void*, const fbyte*, const fbyte*);
static void* sink_ctx;
static size_t emitted;
static void emit(const fbyte* in, const fbyte* out) {
  static fbyte o;
  f_inv_affine(&o, out);
  emitted++;
  sink(sink_ctx, in, &o);
}
// one encryption: x -> y under the round keys k; st: committed states after ShiftRows of rounds 1 .. R-1 (witness bytes
// from `first` on); x and y: public and committed parts
static void encryption(const fbyte* x, const fbyte* y, const fbyte* k, unsigned Nb, unsigned R, const uint8_t* w,
                       const uint8_t* tags, size_t first) {
  static fbyte in[32], out[32], t, t2;
  const unsigned n = 4 * Nb;
  for (unsigned i = 0; i < n; i++)
    f_xor(&in[i], &x[i], &k[i]); // state before SubBytes of round 1
  for (unsigned rnd = 1; rnd <= R; rnd++) {
    for (unsigned i = 0; i < n; i++)
      if (rnd < R)
        f_witness(&out[i], w, tags, first + (rnd - 1) * n + i);
      else
        f_xor(&out[i], &y[i], &k[R * n + i]);
    for (unsigned c = 0; c < Nb; c++) // ShiftRows moves row r left: the S-box in column c ends up in column c - shift
      for (unsigned r = 0; r < 4; r++)
        emit(&in[4 * c + r], &out[4 * ((c + Nb - row_shift(r, Nb)) % Nb) + r]);
    if (rnd < R)
      for (unsigned c = 0; c < Nb; c++)
        for (unsigned r = 0; r < 4; r++) { // MixColumns and AddRoundKey
          const fbyte* o = out + 4 * c;
          f_xor(&t, &o[r], &o[(r + 1) % 4]);
          f_x2(&t2, &t);
          f_xor(&t2, &t2, &o[(r + 1) % 4]);
          f_xor(&t2, &t2, &o[(r + 2) % 4]);
          f_xor(&t2, &t2, &o[(r + 3) % 4]);
          f_xor(&in[4 * c + r], &t2, &k[rnd * n + 4 * c + r]);
        }
  }
}
static void all_constraints(const spec_params* p, const uint8_t* w, const uint8_t* tags, const uint8_t* in, const uint8_t* out) {
  static fbyte k[4 * 8 * 15], x[32], y[32], t;
  const unsigned Nk = p->lambda / 32, R = Nk + 6;
  emitted = 0;
  if (p->em) { // the input is the key of the cipher and public, the committed key is its input
    static uint8_t pub[4 * 8 * 15];
    int z = 0;
    spec_key_expansion(pub, in, Nk, Nk, R, &z);
    for (unsigned i = 0; i < 4 * Nk * (R + 1); i++)
      f_const(&k[i], pub[i]);
    for (unsigned i = 0; i < 4 * Nk; i++) {
      f_witness(&x[i], w, tags, i);
      f_xor_const(&y[i], &x[i], out[i]);
    }
    encryption(x, y, k, Nk, R, w, tags, p->lambda / 8);
    return;
  }
  size_t pos   = 0;
  uint8_t rcon = 1;
  for (unsigned i = 0; i < 4 * Nk; i++)
    f_witness(&k[i], w, tags, pos++);
  for (unsigned i = Nk; i < 4 * (R + 1); i++) {
    if (i % Nk == 0 || (Nk > 6 && i % Nk == 4)) {
      for (unsigned j = 0; j < 4; j++)
        f_witness(&k[4 * i + j], w, tags, pos++);
      for (unsigned j = 0; j < 4; j++) {
        f_xor(&t, &k[4 * i + j], &k[4 * (i - Nk) + j]);
        if (i % Nk == 0 && j == 0) {
          f_xor_const(&t, &t, rcon);
          rcon = (uint8_t)((rcon << 1) ^ (0x1b & (uint8_t) - (rcon >> 7)));
        }
        emit(&k[4 * (i - 1) + (i % Nk == 0 ? (j + 1) % 4 : j)], &t);
      }
    } else
      for (unsigned j = 0; j < 4; j++)
        f_xor(&k[4 * i + j], &k[4 * (i - 1) + j], &k[4 * (i - Nk) + j]);
  }
  for (unsigned b = 0; b < (p->lambda > 128 ? 2u : 1u); b++) {
    for (unsigned i = 0; i < 16; i++) {
      f_const(&x[i], in[16 * b + i]);
      f_const(&y[i], out[16 * b + i]);
    }
    encryption(x, y, k, 4, R, w, tags, pos);
    pos += 16 * (R - 1);
  }
}
static const uint8_t one[32] = {1};
typedef struct {
  spec_zk a0, a1;
} prover;
static void prover_step(void* c, const fbyte* x, const fbyte* y) {
  prover* z = c;
  uint8_t tx[32], ty[32], sx[32], sy[32], a0[32], a1[32];
  spec_byte_combine(tx, x->t[0], 32, L);
  spec_byte_combine(ty, y->t[0], 32, L);
  spec_embed(sx, x->s, L);
  spec_embed(sy, y->s, L);
  fv_gfmul(a0, tx, ty, L);
  fv_xor(sx, sx, tx, L);
  fv_xor(sy, sy, ty, L);
  fv_gfmul(a1, sx, sy, L);
  fv_xor(a1, a1, a0, L);
  fv_xor(a1, a1, one, L);
  spec_zk_update(&z->a0, a0);
  spec_zk_update(&z->a1, a1);
}
// tags: l + lambda rows; mask: lambda bits
size_t spec_prove(int set, const uint8_t* w, const uint8_t* mask, const uint8_t* tags, const uint8_t* in, const uint8_t* out,
                  const uint8_t* chall, uint8_t* a_tilde, uint8_t* b_tilde) {
  const spec_params* p = spec_set(set);
  static prover z;
  uint8_t m[32];
  L = p->lambda / 8, Delta = 0;
  spec_zk_init(&z.a0, chall, p->lambda);
  spec_zk_init(&z.a1, chall, p->lambda);
  sink = prover_step, sink_ctx = &z;
  all_constraints(p, w, tags, in, out);
  spec_zk_final(&z.a1, a_tilde, mask);
  spec_sum_poly(m, tags + p->l * L, L, L);
  spec_zk_final(&z.a0, b_tilde, m);
  return emitted;
}
typedef struct {
  spec_zk b;
  uint8_t d2[32];
} verifier;
static void verifier_step(void* c, const fbyte* x, const fbyte* y) {
  verifier* z = c;
  uint8_t tx[32], ty[32];
  spec_byte_combine(tx, x->t[0], 32, L);
  spec_byte_combine(ty, y->t[0], 32, L);
  fv_gfmul(tx, tx, ty, L);
  fv_xor(tx, tx, z->d2, L);
  spec_zk_update(&z->b, tx);
}
// rows: l + lambda rows of the corrected matrix
size_t spec_verify(int set, const uint8_t* rows, const uint8_t* chall_2, const uint8_t* delta, const uint8_t* a_tilde,
                   const uint8_t* in, const uint8_t* out, uint8_t* q_tilde) {
  const spec_params* p = spec_set(set);
  static verifier z;
  uint8_t m[32];
  L = p->lambda / 8, Delta = delta;
  spec_zk_init(&z.b, chall_2, p->lambda);
  fv_gfmul(z.d2, delta, delta, L);
  sink = verifier_step, sink_ctx = &z;
  all_constraints(p, 0, rows, in, out);
  spec_sum_poly(m, rows + p->l * L, L, L);
  spec_zk_final(&z.b, q_tilde, m);
  fv_gfmul(m, a_tilde, delta, L);
  fv_xor(q_tilde, q_tilde, m, L);
  return emitted;
}
// hash of what the constraints are off by: input times output plus one, per S-box
static void residual_step(void* c, const fbyte* x, const fbyte* y) {
  uint8_t sx[32], sy[32];
  spec_embed(sx, x->s, L);
  spec_embed(sy, y->s, L);
  fv_gfmul(sx, sx, sy, L);
  fv_xor(sx, sx, one, L);
  spec_zk_update(c, sx);
}
void spec_residual(int set, const uint8_t* w, const uint8_t* in, const uint8_t* out, const uint8_t* chall, uint8_t* h) {
  const spec_params* p = spec_set(set);
  static spec_zk z;
  static const uint8_t none[32];
  uint8_t* tags = calloc(p->l, p->lambda / 8);
  L = p->lambda / 8, Delta = 0;
  spec_zk_init(&z, chall, p->lambda);
  sink = residual_step, sink_ctx = &z;
  all_constraints(p, w, tags, in, out);
  spec_zk_final(&z, h, none);
  free(tags);
}
// the bytes every constraint relates: x[i], y[i] for i < number of constraints
typedef struct {
  uint8_t *x, *y;
} bytes;
static void bytes_step(void* c, const fbyte* x, const fbyte* y) {
  bytes* b  = c;
  *b->x++ = x->s;
  *b->y++ = y->s;
}
size_t spec_constraint_bytes(int set, const uint8_t* w, const uint8_t* in, const uint8_t* out, uint8_t* x, uint8_t* y) {
  const spec_params* p = spec_set(set);
  bytes b              = {x, y};
  uint8_t* tags        = calloc(p->l, p->lambda / 8);
  L = p->lambda / 8, Delta = 0;
  sink = bytes_step, sink_ctx = &b;
  all_constraints(p, w, tags, in, out);
  free(tags);
  return emitted;
}
// row r of the matrix with the given columns: bit c is bit r of column c
void spec_rows(uint8_t* rows, uint8_t** col, size_t n, size_t lambda) {
  memset(rows, 0, n * lambda / 8);
  for (size_t c = 0; c < lambda; c++)
    for (size_t r = 0; r < n; r++)
      rows[r * (lambda / 8) + c / 8] |= (uint8_t)(((col[c][r / 8] >> (r % 8)) & 1) << (c % 8));
}
