// FIPS 202
#include "spec.h"
#include "fv.h"
static int rc_bit(unsigned t) {
  unsigned R = 1;
  for (unsigned i = 0; i < t % 255; i++) {
    R <<= 1;
    if (R & 0x100)
      R ^= 0x171;
  }
  return R & 1;
}
static uint64_t rol(uint64_t x, unsigned n) { return n ? x << n | x >> (64 - n) : x; }
void spec_keccakf_def(uint8_t* s) {
  static uint64_t rc[24];
  static unsigned rho[25], done;
  if (!done) {
    for (unsigned i = 0; i < 24; i++)
      for (unsigned j = 0; j <= 6; j++)
        if (rc_bit(j + 7 * i))
          rc[i] |= 1ull << ((1u << j) - 1);
    unsigned x = 1, y = 0;
    for (unsigned t = 0; t < 24; t++) {
      rho[x + 5 * y] = ((t + 1) * (t + 2) / 2) % 64;
      unsigned ny = (2 * x + 3 * y) % 5;
      x = y;
      y = ny;
    }
    done = 1;
  }
  uint64_t a[25], b[25], c[5], d;
  for (int i = 0; i < 25; i++) {
    a[i] = 0;
    for (int j = 0; j < 8; j++)
      a[i] |= (uint64_t)s[8 * i + j] << (8 * j);
  }
  for (int r = 0; r < 24; r++) {
    for (int x = 0; x < 5; x++)
      c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
    for (int x = 0; x < 5; x++) {
      d = c[(x + 4) % 5] ^ rol(c[(x + 1) % 5], 1);
      for (int y = 0; y < 25; y += 5)
        a[x + y] ^= d;
    }
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++)
        b[y + 5 * ((2 * x + 3 * y) % 5)] = rol(a[x + 5 * y], rho[x + 5 * y]);
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 25; y += 5)
        a[x + y] = b[x + y] ^ (~b[(x + 1) % 5 + y] & b[(x + 2) % 5 + y]);
    a[0] ^= rc[r];
  }
  for (int i = 0; i < 200; i++)
    s[i] = (uint8_t)(a[i / 8] >> (8 * (i % 8)));
}
// the permutation: uninterpreted in proofs of the sponge
void spec_keccakf(uint8_t* s) {
  if (fv_symbolic())
    fv_uf("keccakf1600", s, 200, 1, s, (size_t)200);
  else
    spec_keccakf_def(s);
}
// byte-wise sponge
void spec_absorb_byte(uint8_t* s, unsigned* pos, unsigned rate, uint8_t b) {
  s[*pos] ^= b;
  if (++*pos == rate) {
    spec_keccakf(s);
    *pos = 0;
  }
}
void spec_pad(uint8_t* s, unsigned* pos, unsigned rate, uint8_t suffix) {
  s[*pos] ^= suffix;
  s[rate - 1] ^= 0x80;
  spec_keccakf(s);
  *pos = 0;
}
uint8_t spec_squeeze_byte(uint8_t* s, unsigned* pos, unsigned rate) {
  if (*pos == rate) {
    spec_keccakf(s);
    *pos = 0;
  }
  return s[(*pos)++];
}
void spec_shake(unsigned bits, const uint8_t* in, size_t n, uint8_t* out, size_t skip, size_t len) {
  uint8_t s[200];
  unsigned pos = 0, rate = bits == 128 ? 168 : 136;
  memset(s, 0, sizeof s);
  for (size_t i = 0; i < n; i++)
    spec_absorb_byte(s, &pos, rate, in[i]);
  spec_pad(s, &pos, rate, 0x1f);
  for (size_t i = 0; i < skip + len; i++) {
    uint8_t b = spec_squeeze_byte(s, &pos, rate);
    if (i >= skip)
      out[i - skip] = b;
  }
}
