#include "contracts.h"

// ---------------------------------------------------------------- contracts
bf8_t contract_bf8_inv(bf8_t x) { return fv_uf8("inv8", spec_inv8_table(), x); }
bf64_t contract_bf64_mul(bf64_t a, bf64_t b) {
  bf64_t r;
  fv_gfmul(&r, &a, &b, 8);
  return r;
}
// the 64-bit operand is the polynomial of degree < 64 it denotes
#define CONTRACT_MUL(N)                                                                            \
  bf##N##_t contract_bf##N##_mul(bf##N##_t a, bf##N##_t b) {                                       \
    bf##N##_t r = bf##N##_zero();                                                                  \
    fv_gfmul(&r, &a, &b, N / 8);                                                                   \
    return r;                                                                                      \
  }                                                                                                \
  bf##N##_t contract_bf##N##_mul_64(bf##N##_t a, bf64_t b) {                                       \
    bf##N##_t r = bf##N##_zero();                                                                  \
    bf##N##_t c = bf##N##_from_bf64(b);                                                            \
    fv_gfmul(&r, &a, &c, N / 8);                                                                   \
    return r;                                                                                      \
  }
CONTRACT_MUL(128)
CONTRACT_MUL(192)
CONTRACT_MUL(256)

// ---------------------------------------------------------------- obligations
// bf8_mul(a, b) == a * b in GF(2^8)
void ob_bf8_mul(void) {
  uint8_t a, b, r, s;
  fv_sym(&a, 1, "a");
  fv_sym(&b, 1, "b");
  r = bf8_mul(a, b);
  spec_gfmul_def(&s, &a, &b, 1);
  fv_eq("bf8_mul: result", &r, &s, 1);
  r = bf8_add(a, b);
  s = a ^ b;
  fv_eq("bf8_add: result", &r, &s, 1);
  uint8_t x = a;
  r         = bf8_load(&x);
  fv_eq("bf8_load", &r, &x, 1);
  r = 0;
  bf8_store(&r, x);
  fv_eq("bf8_store", &r, &x, 1);
  r = bf8_from_bit(a);
  s = a & 1;
  fv_eq("bf8_from_bit", &r, &s, 1);
  fv_check("bf8 constants", bf8_zero() == 0 && bf8_one() == 1);
}
// all 256 arguments (complete): bf8_inv is the inverse, 0 -> 0
void ob_bf8_inv(void) {
  const uint8_t* t = spec_inv8_table();
  for (unsigned x = 0; x < 256; x++) {
    uint8_t r = bf8_inv((bf8_t)x), u = (uint8_t)x, p;
    fv_eq("bf8_inv: result", &r, &t[x], 1);
    spec_gfmul_def(&p, &u, &t[x], 1);
    fv_check("bf8_inv: specification is the inverse", p == (x ? 1 : 0));
  }
  // and once with an unknown argument, for the obligations that are not about the result (safety, constant flow)
  uint8_t x, y;
  fv_sym(&x, 1, "x");
  y = bf8_inv(x);
  fv_check("bf8_inv: no bit beyond the byte", y <= 0xff);
}
void ob_bf64_mul(void) {
  uint8_t a[8], b[8], s[8], r[8], z[8] = {0};
  fv_sym(a, 8, "a");
  fv_sym(b, 8, "b");
  bf64_store(r, bf64_mul(bf64_load(a), bf64_load(b)));
  spec_gfmul_def(s, a, b, 8);
  fv_eq("bf64_mul: result", r, s, 8);
  bf64_store(r, bf64_load(a));
  fv_eq("bf64 load/store round trip", r, a, 8);
  bf64_store(r, bf64_add(bf64_load(a), bf64_load(b)));
  for (int i = 0; i < 8; i++)
    s[i] = a[i] ^ b[i];
  fv_eq("bf64_add: result", r, s, 8);
  bf64_store(r, bf64_from_bit(a[0]));
  z[0] = a[0] & 1;
  fv_eq("bf64_from_bit", r, z, 8);
  fv_check("bf64 constants", bf64_zero() == 0 && bf64_one() == 1);
}
static int upper_zero(const void* x, size_t nb, size_t size) {
  const uint8_t* p = x;
  uint8_t r        = 0;
  for (size_t i = nb; i < size; i++)
    r |= p[i];
  return r == 0;
}
#define OB_MUL(N)                                                                                  \
  void ob_bf##N##_mul(void) {                                                                      \
    uint8_t a[N / 8], b[N / 8], s[N / 8], r[N / 8];                                                \
    fv_sym(a, N / 8, "a");                                                                         \
    fv_sym(b, N / 8, "b");                                                                         \
    bf##N##_t x = bf##N##_mul(bf##N##_load(a), bf##N##_load(b));                                   \
    bf##N##_store(r, x);                                                                           \
    spec_gfmul_def(s, a, b, N / 8);                                                                \
    fv_eq("bf" #N "_mul: result", r, s, N / 8);                                                    \
    fv_check("bf" #N "_mul: nothing outside the field width", upper_zero(&x, N / 8, sizeof x));    \
  }                                                                                                \
  void ob_bf##N##_mul_64(void) {                                                                   \
    uint8_t a[N / 8], b[N / 8] = {0}, s[N / 8], r[N / 8];                                          \
    fv_sym(a, N / 8, "a");                                                                         \
    fv_sym(b, 8, "b");                                                                             \
    bf##N##_t x = bf##N##_mul_64(bf##N##_load(a), bf64_load(b));                                   \
    bf##N##_store(r, x);                                                                           \
    spec_gfmul_def(s, a, b, N / 8);                                                                \
    fv_eq("bf" #N "_mul_64: result", r, s, N / 8);                                                 \
    fv_check("bf" #N "_mul_64: nothing outside the field width", upper_zero(&x, N / 8, sizeof x)); \
  }                                                                                                \
  void ob_bf##N##_misc(void) {                                                                     \
    uint8_t a[N / 8], b[N / 8], s[N / 8], r[N / 8], c;                                             \
    fv_sym(a, N / 8, "a");                                                                         \
    fv_sym(b, N / 8, "b");                                                                         \
    fv_sym(&c, 1, "c");                                                                            \
    bf##N##_t x = bf##N##_load(a), y = bf##N##_load(b), z;                                         \
    bf##N##_store(r, x);                                                                           \
    fv_eq("bf" #N " load/store round trip", r, a, N / 8);                                          \
    fv_eq("bf" #N " little-endian words", &x, a, N / 8);                                           \
    fv_check("bf" #N "_load: nothing outside the field width", upper_zero(&x, N / 8, sizeof x));   \
    z = bf##N##_add(x, y);                                                                         \
    bf##N##_store(r, z);                                                                           \
    for (int i = 0; i < N / 8; i++)                                                                \
      s[i] = a[i] ^ b[i];                                                                          \
    fv_eq("bf" #N "_add: result", r, s, N / 8);                                                    \
    z = bf##N##_mul_bit(x, c & 1);                                                                 \
    bf##N##_store(r, z);                                                                           \
    for (int i = 0; i < N / 8; i++)                                                                \
      s[i] = a[i] & (uint8_t) - (c & 1);                                                           \
    fv_eq("bf" #N "_mul_bit: result", r, s, N / 8);                                                \
    memset(s, 0, sizeof s);                                                                        \
    s[0] = c;                                                                                      \
    z    = bf##N##_from_bf8(c);                                                                    \
    bf##N##_store(r, z);                                                                           \
    fv_eq("bf" #N "_from_bf8", r, s, N / 8);                                                       \
    fv_check("bf" #N "_from_bf8: width", upper_zero(&z, N / 8, sizeof z));                         \
    s[0] = c & 1;                                                                                  \
    z    = bf##N##_from_bit(c);                                                                    \
    bf##N##_store(r, z);                                                                           \
    fv_eq("bf" #N "_from_bit", r, s, N / 8);                                                       \
    fv_check("bf" #N "_from_bit: width", upper_zero(&z, N / 8, sizeof z));                         \
    memcpy(s, a, 8);                                                                               \
    z = bf##N##_from_bf64(bf64_load(a));                                                           \
    bf##N##_store(r, z);                                                                           \
    fv_eq("bf" #N "_from_bf64", r, s, N / 8);                                                      \
    fv_check("bf" #N "_from_bf64: width", upper_zero(&z, N / 8, sizeof z));                        \
    memset(s, 0, sizeof s);                                                                        \
    z = bf##N##_zero();                                                                            \
    bf##N##_store(r, z);                                                                           \
    fv_eq("bf" #N "_zero", r, s, N / 8);                                                           \
    fv_check("bf" #N "_zero: width", upper_zero(&z, N / 8, sizeof z));                             \
    s[0] = 1;                                                                                      \
    z    = bf##N##_one();                                                                          \
    bf##N##_store(r, z);                                                                           \
    fv_eq("bf" #N "_one", r, s, N / 8);                                                            \
    fv_check("bf" #N "_one: width", upper_zero(&z, N / 8, sizeof z));                              \
  }                                                                                                \
  /* byte_combine_bits(b) == sum b_i alpha^i; lifting is multiplicative; alpha is a root */        \
  void ob_bf##N##_embed(void) {                                                                    \
    uint8_t a, b, p, s[N / 8], r[N / 8], t[N / 8], u[N / 8];                                       \
    fv_sym(&a, 1, "a");                                                                            \
    fv_sym(&b, 1, "b");                                                                            \
    bf##N##_t x = bf##N##_byte_combine_bits(a);                                                    \
    bf##N##_store(r, x);                                                                           \
    spec_embed(s, a, N / 8);                                                                       \
    fv_eq("bf" #N "_byte_combine_bits: result", r, s, N / 8);                                      \
    fv_check("bf" #N "_byte_combine_bits: width", upper_zero(&x, N / 8, sizeof x));                \
    bf##N##_store(t, bf##N##_byte_combine_bits(b));                                                \
    spec_gfmul_def(&p, &a, &b, 1);                                                                 \
    spec_gfmul_def(u, r, t, N / 8);                                                                \
    bf##N##_store(s, bf##N##_byte_combine_bits(p));                                                \
    fv_eq("lifting into GF(2^" #N ") is multiplicative", u, s, N / 8);                             \
    uint8_t one[N / 8] = {1};                                                                      \
    bf##N##_store(r, bf##N##_byte_combine_bits(1));                                                \
    fv_eq("lifting into GF(2^" #N ") maps 1 to 1", r, one, N / 8);                                 \
  }                                                                                                \
  void ob_bf##N##_byte_combine(void) {                                                             \
    static uint8_t a[N];                                                                           \
    uint8_t s[N / 8], r[N / 8];                                                                    \
    bf##N##_t x[8], z;                                                                             \
    fv_sym(a, N, "a");                                                                             \
    for (int i = 0; i < 8; i++)                                                                    \
      x[i] = bf##N##_load(a + i * (N / 8));                                                        \
    z = bf##N##_byte_combine(x);                                                                   \
    bf##N##_store(r, z);                                                                           \
    spec_byte_combine(s, a, N / 8, N / 8);                                                         \
    fv_eq("bf" #N "_byte_combine: result", r, s, N / 8);                                           \
    fv_check("bf" #N "_byte_combine: width", upper_zero(&z, N / 8, sizeof z));                     \
    for (int i = 0; i < 8; i++) {                                                                  \
      bf##N##_store(r, x[i]);                                                                      \
      fv_eq("bf" #N "_byte_combine: argument unchanged", r, a + i * (N / 8), N / 8);               \
    }                                                                                              \
  }                                                                                                \
  void ob_bf##N##_sum_poly(void) {                                                                 \
    static uint8_t a[N * N / 8];                                                                   \
    static bf##N##_t x[N];                                                                         \
    uint8_t s[N / 8], r[N / 8];                                                                    \
    bf##N##_t z;                                                                                   \
    fv_sym(a, sizeof a, "a");                                                                      \
    for (int i = 0; i < N; i++)                                                                    \
      x[i] = bf##N##_load(a + i * (N / 8));                                                        \
    z = bf##N##_sum_poly(x);                                                                       \
    bf##N##_store(r, z);                                                                           \
    spec_sum_poly(s, a, N / 8, N / 8);                                                             \
    fv_eq("bf" #N "_sum_poly: result", r, s, N / 8);                                               \
    fv_check("bf" #N "_sum_poly: width", upper_zero(&z, N / 8, sizeof z));                         \
  }
OB_MUL(128)
OB_MUL(192)
OB_MUL(256)
