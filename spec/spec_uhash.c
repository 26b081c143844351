#include "fv.h"
#include "spec.h"
#include <string.h>
static void acc(uint8_t* h, const uint8_t* m, const uint8_t* v, size_t nb) { // h = h m + v
  fv_gfmul(h, h, m, nb);
  fv_xor(h, h, v, nb);
}
// Horner evaluation at m (in a field of nb bytes) of the blocks x_0 .. x_{n-1} of nb bytes, x_0 first
static void horner(uint8_t* h, const uint8_t* m, const uint8_t* x, size_t n, size_t nb) {
  memset(h, 0, nb);
  for (size_t i = 0; i < n; i++)
    acc(h, m, x + nb * i, nb);
}
// FAEST v1, VOLEHash: sd = r0 r1 r2 r3 s t, x = x0 (l + lambda bits) x1 (lambda + 16 bits)
void spec_vole_hash(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned ell, unsigned lambda) {
  const size_t L = lambda / 8, n0 = ell / 8 + L, blocks = (n0 + L - 1) / L;
  uint8_t h0[32], h1[32] = {0}, a[32], b[32];
  uint8_t* y = calloc(blocks, L); // x0, padded with zeros to full blocks
  memcpy(y, x, n0);
  horner(h0, sd + 4 * L, y, blocks, L);
  horner(h1, sd + 5 * L, y, blocks * (L / 8), 8);
  free(y);
  for (int k = 0; k < 2; k++) { // h2 = r0 h0 + r1 h1, h3 = r2 h0 + r3 h1; the output is h2 and 16 bits of h3
    fv_gfmul(a, sd + 2 * k * L, h0, L);
    fv_gfmul(b, sd + (2 * k + 1) * L, h1, L);
    fv_xor(a, a, b, L);
    fv_xor(h + k * L, a, x + n0 + k * L, k ? 2 : L);
  }
}
// FAEST v1, ZKHash: sd = r0 r1 s t, x_0 .. x_{n-1} of lambda bits, mask
void spec_zk_init(spec_zk* z, const uint8_t* sd, unsigned lambda) {
  memset(z, 0, sizeof *z);
  z->L  = lambda / 8;
  z->sd = sd;
  memcpy(z->t, sd + 3 * z->L, 8);
}
void spec_zk_update(spec_zk* z, const uint8_t* v) {
  acc(z->h0, z->sd + 2 * z->L, v, z->L);
  acc(z->h1, z->t, v, z->L);
}
void spec_zk_final(spec_zk* z, uint8_t* h, const uint8_t* mask) {
  uint8_t a[32], b[32];
  fv_gfmul(a, z->sd, z->h0, z->L);
  fv_gfmul(b, z->sd + z->L, z->h1, z->L);
  fv_xor(a, a, b, z->L);
  fv_xor(h, a, mask, z->L);
}
