#include "fv.h"
#include "spec.h"
#include <string.h>
// Conversion of a list of seeds to VOLE (FAEST v1): with r_j = PRG(sd_j), u = sum_j r_j and column d of V is the sum of
// the r_j with bit d of j set.  (The verifier does not know sd_0; then r_0 = 0.)
void spec_convert(unsigned lambda, unsigned depth, const uint8_t* iv, const uint8_t* sd, int bot, size_t n, uint8_t* u, uint8_t* v) {
  const size_t N = (size_t)1 << depth;
  uint8_t* t     = calloc(N, n); // t[p] = sum of the r_j with j >> d == p
  for (size_t j = bot ? 1 : 0; j < N; j++)
    spec_prg(t + n * j, sd + lambda / 8 * j, iv, lambda, n);
  memset(v, 0, depth * n);
  for (unsigned d = 0; d < depth; d++)
    for (size_t p = 0; p < N >> d; p += 2) {
      fv_xor(v + n * d, v + n * d, t + n * (p + 1), n);
      fv_xor(t + n * (p / 2), t + n * p, t + n * (p + 1), n);
    }
  memcpy(u, t, n);
  free(t);
}
// position and number of the challenge bits of instance i
unsigned spec_chal_depth(const spec_params* s, unsigned i) { return i < s->t0 ? s->k0 : s->k1; }
unsigned spec_chal_first(const spec_params* s, unsigned i) { return i < s->t0 ? i * s->k0 : s->t0 * s->k0 + (i - s->t0) * s->k1; }

// (level, depth) pairs and lengths occurring in the parameter sets
int spec_depth_ok(unsigned lambda, unsigned depth) {
  return depth == 8 || depth == 12 || (depth == 11 && lambda != 192);
}
int spec_convert_len_ok(unsigned lambda, unsigned depth, size_t n) {
  for (int i = 1; i <= 12; i++) {
    const spec_params* s = spec_set(i);
    if (s->lambda == lambda && (s->k0 == depth || s->k1 == depth) && s->ell_hat / 8 == n)
      return 1;
  }
  return 0;
}
void spec_name(char* o, const char* what, unsigned a, unsigned b) {
  while (*what)
    *o++ = *what++;
  for (int k = 0; k < 2; k++) {
    unsigned x = k ? b : a;
    *o++       = '_';
    *o++       = '0' + (char)(x / 100);
    *o++       = '0' + (char)(x / 10 % 10);
    *o++       = '0' + (char)(x % 10);
  }
  *o = 0;
}
