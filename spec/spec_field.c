#include "spec.h"
#include "fv.h"

// FAEST v1, section "finite fields": moduli given by their exponents below the degree.
static int modulus(size_t n, unsigned e[4]) {
  switch (n) {
  case 8: e[0] = 4, e[1] = 3, e[2] = 1, e[3] = 0; return 4;
  case 64: e[0] = 4, e[1] = 3, e[2] = 1, e[3] = 0; return 4;
  case 128: e[0] = 7, e[1] = 2, e[2] = 1, e[3] = 0; return 4;
  case 192: e[0] = 7, e[1] = 2, e[2] = 1, e[3] = 0; return 4;
  case 256: e[0] = 10, e[1] = 5, e[2] = 2, e[3] = 0; return 4;
  }
  return 0;
}
// schoolbook product of the coefficient vectors, then X^k -> X^(k-n) * (sum of low exponents), k downwards
void spec_gfmul_def(uint8_t* out, const uint8_t* a, const uint8_t* b, size_t nb) {
  static uint8_t c[512], x[256], y[256];
  size_t n = nb * 8;
  unsigned e[4];
  int ne = modulus(n, e);
  for (size_t i = 0; i < n; i++) {
    x[i] = (a[i / 8] >> (i % 8)) & 1;
    y[i] = (b[i / 8] >> (i % 8)) & 1;
  }
  for (size_t k = 0; k < 2 * n; k++)
    c[k] = 0;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      c[i + j] ^= x[i] & y[j];
  for (size_t k = 2 * n - 2; k >= n; k--)
    for (int t = 0; t < ne; t++)
      c[k - n + e[t]] ^= c[k];
  for (size_t i = 0; i < nb; i++) {
    uint8_t r = 0;
    for (unsigned j = 0; j < 8; j++)
      r |= (uint8_t)(c[8 * i + j] << j);
    out[i] = r;
  }
}

// the root of X^8+X^4+X^3+X+1 that FAEST v1 fixes in each large field (little-endian bytes)
static const uint8_t alpha128[16] = {0x0d, 0xce, 0x60, 0x55, 0xac, 0xe8, 0x3f, 0xa1, 0x1c, 0x9a, 0x97, 0xa9, 0x55, 0x85, 0x3d, 0x05};
static const uint8_t alpha192[24] = {0x63, 0x97, 0x38, 0x6f, 0xd5, 0xa3, 0xc8, 0xcc, 0xea, 0xbd, 0x6e, 0x96, 0x6c, 0xd7, 0x65, 0xe6, 0x62, 0x36, 0x6b, 0x0e, 0x14, 0xc8, 0x0b, 0x31};
static const uint8_t alpha256[32] = {0xe7, 0xfe, 0xde, 0x0b, 0x42, 0x88, 0x97, 0x96, 0x67, 0x4e, 0x47, 0xa0, 0x38, 0x8d, 0xd6, 0xbe, 0x6a, 0xe1, 0xf1, 0xf8, 0x45, 0x98, 0x22, 0xdf, 0x33, 0x58, 0xc9, 0x20, 0xcf, 0xa8, 0xc9, 0x04};

const uint8_t* spec_alpha(size_t nb) { return nb == 16 ? alpha128 : nb == 24 ? alpha192 : alpha256; }
// alpha^i, i < 8
void spec_alpha_pow(uint8_t* out, size_t nb, unsigned i) {
  static uint8_t t[32];
  for (size_t k = 0; k < nb; k++)
    out[k] = k == 0;
  while (i--) {
    spec_gfmul_def(t, out, spec_alpha(nb), nb);
    for (size_t k = 0; k < nb; k++)
      out[k] = t[k];
  }
}
const uint8_t* spec_alpha_table(size_t nb) {
  static uint8_t tab[33][8 * 32];
  static uint8_t done[33];
  if (!done[nb]) {
    for (unsigned i = 0; i < 8; i++)
      spec_alpha_pow(tab[nb] + i * nb, nb, i);
    done[nb] = 1;
  }
  return tab[nb];
}
// sum of bits x_i alpha^i
void spec_embed(uint8_t* out, uint8_t x, size_t nb) {
  const uint8_t* t = spec_alpha_table(nb);
  for (size_t k = 0; k < nb; k++) {
    uint8_t r = 0;
    for (unsigned i = 0; i < 8; i++)
      r ^= t[i * nb + k] & (uint8_t) - ((x >> i) & 1);
    out[k] = r;
  }
}
// sum of x_i alpha^i, x_i field elements at x + i*stride
void spec_byte_combine(uint8_t* out, const uint8_t* x, size_t stride, size_t nb) {
  static uint8_t t[32];
  const uint8_t* tab = spec_alpha_table(nb);
  for (size_t k = 0; k < nb; k++)
    out[k] = 0;
  for (unsigned i = 0; i < 8; i++) {
    fv_gfmul(t, x + i * stride, tab + i * nb, nb);
    for (size_t k = 0; k < nb; k++)
      out[k] ^= t[k];
  }
}
// multiply by X once
void spec_xtimes(uint8_t* out, const uint8_t* a, size_t nb) {
  unsigned e[4];
  int ne      = modulus(nb * 8, e);
  uint8_t top = a[nb - 1] >> 7, r[32];
  for (size_t k = nb; k-- > 0;)
    r[k] = (uint8_t)((a[k] << 1) | (k ? a[k - 1] >> 7 : 0));
  for (int t = 0; t < ne; t++)
    r[e[t] / 8] ^= (uint8_t)(top << (e[t] % 8));
  for (size_t k = 0; k < nb; k++)
    out[k] = r[k];
}
// sum of x_i X^i (i < 8 nb), as one polynomial of degree < 16 nb that is reduced at the end
void spec_sum_poly(uint8_t* out, const uint8_t* x, size_t stride, size_t nb) {
  static uint8_t c[512];
  size_t n = nb * 8;
  unsigned e[4];
  int ne = modulus(n, e);
  for (size_t k = 0; k < 2 * n; k++)
    c[k] = 0;
  for (size_t i = 0; i < n; i++)
    for (size_t j = 0; j < n; j++)
      c[i + j] ^= (x[i * stride + j / 8] >> (j % 8)) & 1;
  for (size_t k = 2 * n - 2; k >= n; k--)
    for (int t = 0; t < ne; t++)
      c[k - n + e[t]] ^= c[k];
  for (size_t i = 0; i < nb; i++) {
    uint8_t r = 0;
    for (unsigned j = 0; j < 8; j++)
      r |= (uint8_t)(c[8 * i + j] << j);
    out[i] = r;
  }
}
// inverse in GF(2^8), 0 -> 0, found by search
const uint8_t* spec_inv8_table(void) {
  static uint8_t tab[256], mul3[256], lg[256], ex[256];
  static int done;
  if (done)
    return tab;
  // 3 generates the multiplicative group
  uint8_t g = 1, three = 3;
  for (int i = 0; i < 255; i++) {
    ex[i]  = g;
    lg[g]  = (uint8_t)i;
    uint8_t r;
    spec_gfmul_def(&r, &g, &three, 1);
    g = r;
  }
  (void)mul3;
  tab[0] = 0;
  for (int x = 1; x < 256; x++)
    tab[x] = ex[(255 - lg[x]) % 255];
  done = 1;
  return tab;
}
