#include "contracts.h"
#include "universal_hashing.h"
#include "utils.h"

void field_contracts(void) {
  FV_CONTRACT(bf64_mul, contract_bf64_mul);
  FV_CONTRACT(bf128_mul, contract_bf128_mul);
  FV_CONTRACT(bf192_mul, contract_bf192_mul);
  FV_CONTRACT(bf256_mul, contract_bf256_mul);
  FV_CONTRACT(bf128_mul_64, contract_bf128_mul_64);
  FV_CONTRACT(bf192_mul_64, contract_bf192_mul_64);
  FV_CONTRACT(bf256_mul_64, contract_bf256_mul_64);
}
int xor_contract(void);

// ---------------------------------------------------------------- VOLE hash
void ob_vole_hash(int lambda, int ell) {
  const size_t L = (size_t)lambda / 8, n = (size_t)ell / 8 + 2 * L + 2;
  field_contracts();
  xor_contract();
  uint8_t* sd = malloc(5 * L + 8); // exactly as long as the seed is
  uint8_t* x  = malloc(n);
  uint8_t* h  = malloc(L + 2);
  uint8_t r[34];
  fv_sym(sd, 5 * L + 8, "sd");
  fv_sym(x, n, "x");
  spec_vole_hash(r, sd, x, (unsigned)ell, (unsigned)lambda);
  fv_heap_mark();
  fv_frame_begin("vole_hash writes only its output");
  fv_assigns(h, L + 2);
  vole_hash(h, sd, x, (unsigned)ell, (uint32_t)lambda);
  fv_frame_end();
  fv_heap_check("vole_hash leaks nothing", 0);
  fv_eq("vole_hash: field element", h, r, L);
  fv_eq("vole_hash: 16 more bits", h + L, r + L, 2);
}
// the hash is additive; so for a bit delta the hash of v + delta u is the hash of v plus delta times the hash of u
void ob_vole_hash_linear(int lambda, int ell) {
  const size_t L = (size_t)lambda / 8, n = (size_t)ell / 8 + 2 * L + 2;
  uint8_t *sd = malloc(5 * L + 8), *u = malloc(n), *v = malloc(n), *q = malloc(n), hq[34], hu[34], hv[34];
  fv_sym(sd, 5 * L + 8, "sd");
  fv_sym(u, n, "u"), fv_sym(v, n, "v");
  fv_xor(q, u, v, n);
  spec_vole_hash(hq, sd, q, (unsigned)ell, (unsigned)lambda);
  spec_vole_hash(hu, sd, u, (unsigned)ell, (unsigned)lambda);
  spec_vole_hash(hv, sd, v, (unsigned)ell, (unsigned)lambda);
  fv_xor(hu, hu, hv, L + 2);
  fv_eq("VOLE hash is additive: field element", hq, hu, L);
  fv_eq("VOLE hash is additive: 16 more bits", hq + L, hu + L, 2);
}

// ---------------------------------------------------------------- ZK hash
#define UPDATES 6
#define OB_ZK(N)                                                                                    \
  static void zk_##N(unsigned n) {                                                                  \
    const size_t L = N / 8;                                                                         \
    uint8_t *sd = malloc(3 * L + 8), x[N / 8], *h = malloc(L), r[N / 8];                            \
    zk_hash_##N##_ctx* ctx = malloc(sizeof *ctx);                                                   \
    spec_zk z;                                                                                      \
    field_contracts();                                                                              \
    fv_sym(sd, 3 * L + 8, "sd");                                                                    \
    zk_hash_##N##_init(ctx, sd);                                                                    \
    spec_zk_init(&z, sd, N);                                                                        \
    for (unsigned i = 0; i < n; i++) {                                                              \
      fv_sym(x, L, "x");                                                                            \
      const bf##N##_t fx = bf##N##_load(x); \
      fv_frame_begin("zk_hash_update writes only its state"), fv_assigns(ctx, sizeof *ctx); \
      zk_hash_##N##_update(ctx, fx); \
      fv_frame_end(); \
      spec_zk_update(&z, x);                                                                        \
    }                                                                                               \
    fv_sym(x, L, "mask");                                                                           \
    const bf##N##_t fm = bf##N##_load(x); \
    fv_frame_begin("zk_hash_finalize writes only its output and state"), fv_assigns(ctx, sizeof *ctx), fv_assigns(h, L); \
    zk_hash_##N##_finalize(h, ctx, fm); \
    fv_frame_end(); \
    spec_zk_final(&z, r, x); \
    fv_eq("zk_hash: value after the updates", h, r, L);                                             \
  }                                                                                                 \
  /* any number of updates: after init the state represents the empty sequence, an update takes a state that         \
     represents a sequence with values h0, h1 to one that represents h0 s + v, h1 t + v, and finalize gives          \
     r0 h0 + r1 h1 + mask.  "Represents": the named members hold s, t, the seed and h0, h1. */      \
  static void zk_step_##N(void) {                                                                   \
    const size_t L = N / 8;                                                                         \
    const long h0 = fv_member("zk_hash_" #N "_ctx", "h0"), h1 = fv_member("zk_hash_" #N "_ctx", "h1"); \
    const long s = fv_member("zk_hash_" #N "_ctx", "s"), t = fv_member("zk_hash_" #N "_ctx", "t");  \
    const long p = fv_member("zk_hash_" #N "_ctx", "sd");                                           \
    if (h0 < 0 || h1 < 0 || s < 0 || t < 0 || p < 0 || sizeof(zk_hash_##N##_ctx) < 3 * sizeof(bf##N##_t) + 8) {       \
      fv_check("zk_hash: the state has another representation; only the bounded form is checked", 1); \
      return;                                                                                       \
    }                                                                                               \
    uint8_t *sd = malloc(3 * L + 8), x[N / 8], *h = malloc(L), r[N / 8], a[N / 8], b[N / 8];        \
    zk_hash_##N##_ctx* ctx = malloc(sizeof *ctx);                                                   \
    uint8_t* c = (uint8_t*)ctx;                                                                     \
    spec_zk z;                                                                                      \
    field_contracts();                                                                              \
    fv_sym(sd, 3 * L + 8, "sd");                                                                    \
    zk_hash_##N##_init(ctx, sd);                                                                    \
    memset(a, 0, L);                                                                                \
    fv_eq("zk_hash_init: h0", c + h0, a, L);                                                        \
    fv_eq("zk_hash_init: h1", c + h1, a, L);                                                        \
    fv_eq("zk_hash_init: s", c + s, sd + 2 * L, L);                                                 \
    fv_eq("zk_hash_init: t", c + t, sd + 3 * L, 8);                                                 \
    fv_check("zk_hash_init: seed", *(const uint8_t**)(c + p) == sd);                                \
    fv_sym(a, L, "h0"), fv_sym(b, L, "h1"), fv_sym(x, L, "x");                                      \
    const bf##N##_t fa = bf##N##_load(a), fb = bf##N##_load(b), fx = bf##N##_load(x);                                     \
    memcpy(c + h0, &fa, sizeof fa);                                                                 \
    memcpy(c + h1, &fb, sizeof fb);                                                                 \
    spec_zk_init(&z, sd, N);                                                                        \
    memcpy(z.h0, a, L), memcpy(z.h1, b, L);                                                         \
    fv_frame_begin("zk_hash_update writes only its state");                                         \
    fv_assigns(ctx, sizeof *ctx);                                                                   \
    zk_hash_##N##_update(ctx, fx);                                                     \
    fv_frame_end();                                                                                 \
    spec_zk_update(&z, x);                                                                          \
    fv_eq("zk_hash_update: h0", c + h0, z.h0, L);                                                   \
    fv_eq("zk_hash_update: h1", c + h1, z.h1, L);                                                   \
    fv_eq("zk_hash_update: s", c + s, sd + 2 * L, L);                                               \
    fv_eq("zk_hash_update: t", c + t, sd + 3 * L, 8);                                               \
    fv_check("zk_hash_update: seed", *(const uint8_t**)(c + p) == sd);                              \
    memcpy(c + h0, &fa, sizeof fa);                                                                 \
    memcpy(c + h1, &fb, sizeof fb);                                                                 \
    memcpy(z.h0, a, L), memcpy(z.h1, b, L);                                                         \
    fv_frame_begin("zk_hash_finalize writes only its output and state");                            \
    fv_assigns(ctx, sizeof *ctx), fv_assigns(h, L);                                                 \
    zk_hash_##N##_finalize(h, ctx, fx);                                                \
    fv_frame_end();                                                                                 \
    spec_zk_final(&z, r, x);                                                                        \
    fv_eq("zk_hash_finalize: value", h, r, L);                                                      \
  }
OB_ZK(128)
OB_ZK(192)
OB_ZK(256)
void ob_zk_hash(int lambda, int n) { (lambda == 128 ? zk_128 : lambda == 192 ? zk_192 : zk_256)((unsigned)n); }
void ob_zk_step(int lambda) { (lambda == 128 ? zk_step_128 : lambda == 192 ? zk_step_192 : zk_step_256)(); }
