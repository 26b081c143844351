#include "contracts.h"
#include "compat.h"
#include "faest.h"
#include "instances.h"
#include "owf.h"
#include "randomness.h"
#include <sys/random.h>
#include <sys/types.h>

#define SETS_X(X)                                                                                                     \
  X(1, 128s, 128S) X(2, 128f, 128F) X(3, 192s, 192S) X(4, 192f, 192F) X(5, 256s, 256S) X(6, 256f, 256F)               \
  X(7, em_128s, EM_128S) X(8, em_128f, EM_128F) X(9, em_192s, EM_192S) X(10, em_192f, EM_192F)                        \
  X(11, em_256s, EM_256S) X(12, em_256f, EM_256F)
#include "faest_128f.h"
#include "faest_128s.h"
#include "faest_192f.h"
#include "faest_192s.h"
#include "faest_256f.h"
#include "faest_256s.h"
#include "faest_em_128f.h"
#include "faest_em_128s.h"
#include "faest_em_192f.h"
#include "faest_em_192s.h"
#include "faest_em_256f.h"
#include "faest_em_256s.h"
typedef unsigned long long ull;
#define X(id, t, T)                                                                                                   \
  int crypto_sign_keypair_##t(unsigned char* pk, unsigned char* sk);                                                  \
  int crypto_sign_##t(unsigned char* sm, ull* smlen, const unsigned char* m, ull mlen, const unsigned char* sk);      \
  int crypto_sign_open_##t(unsigned char* m, ull* mlen, const unsigned char* sm, ull smlen, const unsigned char* pk);
SETS_X(X)
#undef X
typedef struct {
  size_t pk, sk, sig;
  int (*keygen)(uint8_t*, uint8_t*);
  int (*sign)(const uint8_t*, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*sign_rho)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t, uint8_t*, size_t*);
  int (*verify)(const uint8_t*, const uint8_t*, size_t, const uint8_t*, size_t);
  int (*validate)(const uint8_t*, const uint8_t*);
  void (*clear)(uint8_t*);
  int (*c_keypair)(unsigned char*, unsigned char*);
  int (*c_sign)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
  int (*c_open)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
} api;
static const api apis[13] = {
#define X(id, t, T)                                                                                                   \
  [id] = {FAEST_##T##_PUBLIC_KEY_SIZE, FAEST_##T##_PRIVATE_KEY_SIZE, FAEST_##T##_SIGNATURE_SIZE, faest_##t##_keygen,  \
          faest_##t##_sign, faest_##t##_sign_with_randomness, faest_##t##_verify, faest_##t##_validate_keypair,       \
          faest_##t##_clear_private_key, crypto_sign_keypair_##t, crypto_sign_##t, crypto_sign_open_##t},
    SETS_X(X)
#undef X
};
#define APP(g, p, n) ((g) = fv_list_append((g), (p), (n)))

// ---- contracts
// one-way functions: output and validity are functions of key and input (which ones: ob_owf)
static bool owf_abs(int f, unsigned lambda, unsigned blk, const uint8_t* key, const uint8_t* in, uint8_t* out) {
  char name[64];
  uint8_t ok;
  uint64_t g = fv_list_new();
  fv_require("owf: the output does not overlap the inputs", fv_disjoint(out, blk, key, lambda / 8) && fv_disjoint(out, blk, in, blk));
  APP(g, key, lambda / 8), APP(g, in, blk);
  spec_name(name, "owf_valid", (unsigned)f, 0);
  fv_list_uf(name, g, &ok, 0, 1);
  spec_name(name, "owf", (unsigned)f, 0);
  fv_list_uf(name, g, out, 0, blk);
  return ok & 1;
}
bool contract_owf_128(const uint8_t* key, const uint8_t* in, uint8_t* out) { return owf_abs(0, 128, 16, key, in, out); }
bool contract_owf_192(const uint8_t* key, const uint8_t* in, uint8_t* out) { return owf_abs(1, 192, 32, key, in, out); }
bool contract_owf_256(const uint8_t* key, const uint8_t* in, uint8_t* out) { return owf_abs(2, 256, 32, key, in, out); }
bool contract_owf_em_128(const uint8_t* key, const uint8_t* in, uint8_t* out) { return owf_abs(3, 128, 16, key, in, out); }
bool contract_owf_em_192(const uint8_t* key, const uint8_t* in, uint8_t* out) { return owf_abs(4, 192, 24, key, in, out); }
bool contract_owf_em_256(const uint8_t* key, const uint8_t* in, uint8_t* out) { return owf_abs(5, 256, 32, key, in, out); }
// the one-way function of a set, as the specification sees it
static int ref_owf(int id, uint8_t* out, const uint8_t* key, const uint8_t* in) {
  const spec_params* s = spec_set(id);
  if (fv_symbolic())
    return owf_abs((int)(s->em ? 3 : 0) + (int)(s->lambda - 128) / 64, s->lambda, s->pk / 2, key, in, out);
  return spec_owf(out, key, in, s->lambda, (int)s->em) != 0;
}
static void owf_contracts(void) {
  FV_CONTRACT(owf_128, contract_owf_128);
  FV_CONTRACT(owf_192, contract_owf_192);
  FV_CONTRACT(owf_256, contract_owf_256);
  FV_CONTRACT(owf_em_128, contract_owf_em_128);
  FV_CONTRACT(owf_em_192, contract_owf_em_192);
  FV_CONTRACT(owf_em_256, contract_owf_em_256);
}
// ghost record of what the entropy source delivered
static struct {
  const uint8_t* base; // a watched buffer of n bytes
  size_t n;
  uint8_t drawn[128], covered[128]; // its bytes as drawn; 1 where the last draw succeeded
  uint8_t seq[64];                  // draws into other places, in order
  size_t nseq;
  uint8_t failed; // the last draw failed
} ghost;
static void draw(uint8_t* dst, size_t len, const uint8_t* bytes, uint8_t ok) {
  for (size_t i = 0; i < len; i++) {
    if (ghost.base && (uintptr_t)(dst + i) >= (uintptr_t)ghost.base && (uintptr_t)(dst + i) < (uintptr_t)ghost.base + ghost.n) {
      const size_t k   = (size_t)(dst + i - ghost.base);
      ghost.drawn[k]   = bytes[i];
      ghost.covered[k] = ok;
    } else if (ghost.nseq < sizeof ghost.seq) {
      ghost.seq[ghost.nseq] = bytes[i];
      ghost.nseq++;
    }
  }
  ghost.failed = (uint8_t)!ok;
}
// rand_bytes: fills the buffer from the entropy source and returns 0, or returns another value after any part of the
// buffer was written
int contract_rand_bytes(uint8_t* dst, size_t len) {
  uint8_t b[128], ok;
  int e;
  fv_loop_point();
  fv_require("rand_bytes: length among those proved", len <= 128);
  fv_sym(b, len, "drawn");
  fv_sym(&ok, 1, "entropy_ok");
  fv_sym(&e, sizeof e, "entropy_error");
  ok &= 1;
  memcpy(dst, b, len);
  draw(dst, len, b, ok);
  return ok ? 0 : (e | 1);
}
// assumed contract of getrandom: returns -1 or the number r of bytes it has written
static ssize_t gr_first;
static unsigned gr_calls;
ssize_t contract_getrandom(void* p, size_t len, unsigned flags) {
  uint8_t b[256];
  ssize_t r = (ssize_t)len;
  fv_require("getrandom: at most 256 bytes (larger requests may be interrupted)", len <= sizeof b);
  if (fv_symbolic()) {
    if (gr_calls++ == 0)
      r = gr_first;
  } else if (gr_calls++ == 0 && gr_first >= -1)
    r = gr_first < (ssize_t)len ? gr_first : (ssize_t)len;
  if (fv_symbolic() || gr_calls == 1)
    fv_sym(b, len, "drawn");
  else // a natively repeated draw must vary
    for (size_t i = 0; i < len; i++)
      b[i] = (uint8_t)(rand() >> 7);
  if (r > 0)
    memcpy(p, b, (size_t)r);
  draw(p, r > 0 ? (size_t)r : 0, b, 1);
  ghost.failed = r != (ssize_t)len;
  return r;
}
static void fake_entropy(void) { // natively: fails or delivers too little in one of four runs
  if (!fv_symbolic())
    gr_first = rand() & 3 ? -2 : rand() % 20 - 1;
}
// the parts of the public API on top of these
void contract_faest_sign(uint8_t* sig, const uint8_t* msg, size_t msglen, const uint8_t* key, const uint8_t* in,
                         const uint8_t* out, const uint8_t* rho, size_t rholen, const faest_paramset_t* ps) {
  const int id         = (int)ps->faest_paramid;
  char name[64];
  fv_require("faest_sign: one of the twelve sets", id >= 1 && id <= 12);
  const faest_paramset_t q = faest_get_paramset((faest_paramid_t)id);
  fv_require("faest_sign: the values of the set", !memcmp(&q.faest_param, &ps->faest_param, sizeof q.faest_param));
  const spec_params* s = spec_set(id);
  uint64_t g           = fv_list_new(), n = msglen;
  APP(g, key, s->lambda / 8), APP(g, in, s->pk / 2), APP(g, out, s->pk / 2), APP(g, &n, 8);
  if (msg)
    APP(g, msg, msglen);
  if (rho && rholen)
    APP(g, rho, rholen);
  spec_name(name, "signature", (unsigned)id, 0);
  fv_list_uf(name, g, sig, 0, s->sig);
}
static int accept_abs(int id, const uint8_t* msg, size_t msglen, const uint8_t* sig, const uint8_t* in, const uint8_t* out) {
  const spec_params* s = spec_set(id);
  char name[64];
  uint8_t ok;
  uint64_t g = fv_list_new(), n = msglen;
  APP(g, sig, s->sig), APP(g, in, s->pk / 2), APP(g, out, s->pk / 2), APP(g, &n, 8);
  if (msg)
    APP(g, msg, msglen);
  spec_name(name, "accept", (unsigned)id, 0);
  fv_list_uf(name, g, &ok, 0, 1);
  return ok & 1;
}
int contract_faest_verify(const uint8_t* msg, size_t msglen, const uint8_t* sig, const uint8_t* in, const uint8_t* out,
                          const faest_paramset_t* ps) {
  const int id = (int)ps->faest_paramid;
  int e;
  fv_require("faest_verify: one of the twelve sets", id >= 1 && id <= 12);
  const faest_paramset_t q = faest_get_paramset((faest_paramid_t)id);
  fv_require("faest_verify: the values of the set", !memcmp(&q.faest_param, &ps->faest_param, sizeof q.faest_param));
  fv_sym(&e, sizeof e, "verify_error");
  return accept_abs(id, msg, msglen, sig, in, out) ? 0 : (e | 1);
}
static void api_contracts(void) {
  owf_contracts();
  FV_CONTRACT(rand_bytes, contract_rand_bytes);
  FV_CONTRACT(faest_sign, contract_faest_sign);
  FV_CONTRACT(faest_verify, contract_faest_verify);
}
static void ref_sign(int id, uint8_t* sig, const uint8_t* msg, size_t n, const uint8_t* key, const uint8_t* in, const uint8_t* out,
                     const uint8_t* rho, size_t rholen) {
  const faest_paramset_t ps = faest_get_paramset((faest_paramid_t)id);
  (fv_symbolic() ? contract_faest_sign : faest_sign)(sig, msg, n, key, in, out, rho, rholen, &ps);
}
static int ref_accept(int id, const uint8_t* msg, size_t n, const uint8_t* sig, const uint8_t* in, const uint8_t* out) {
  const faest_paramset_t ps = faest_get_paramset((faest_paramid_t)id);
  return fv_symbolic() ? accept_abs(id, msg, n, sig, in, out) : faest_verify(msg, n, sig, in, out, &ps) == 0;
}
static uint8_t* sym(size_t n, const char* name) {
  uint8_t* b = malloc(n + 1);
  fv_sym(b, n, name);
  return b;
}
// out[i] = c ? a[i] : b[i]
static void choose(uint8_t* out, int c, const uint8_t* a, const uint8_t* b, size_t n) {
  const uint8_t m = (uint8_t)-(c & 1);
  for (size_t i = 0; i < n; i++)
    out[i] = (uint8_t)((a[i] & m) | (b[i] & (uint8_t)~m));
}

// ---- P05/P15/P18
// rand_bytes: getrandom answers r to the first request and everything asked for to later ones
void ob_rand_bytes(int len) {
  FV_CONTRACT(getrandom, contract_getrandom);
  const int lo = fv_symbolic() ? -1 : (int)((unsigned)rand() % (unsigned)(len + 2)) - 1, hi = fv_symbolic() ? len : lo;
  for (int r = lo; r <= hi; r++) {
    uint8_t* dst = sym((size_t)len, "dst");
    dst[len]     = 0x5a;
    memset(&ghost, 0, sizeof ghost);
    ghost.base = dst;
    ghost.n    = (size_t)len;
    gr_first   = r;
    gr_calls   = 0;
    fv_frame_begin("rand_bytes writes only its output");
    fv_assigns(dst, (size_t)len);
    fv_assigns(&ghost, sizeof ghost);
    fv_assigns(&gr_calls, sizeof gr_calls);
    const int ret = rand_bytes(dst, (size_t)len);
    fv_frame_end();
    int all = 1;
    for (int i = 0; i < len; i++)
      all &= ghost.covered[i];
    fv_check("rand_bytes: a failing entropy source is reported", r != -1 || ret != 0);
    fv_check("rand_bytes: succeeds if everything asked for is delivered", r != len || ret == 0);
    fv_check("rand_bytes: success means that every byte comes from the entropy source", ret != 0 || all);
    if (ret == 0)
      fv_eq("rand_bytes: the bytes of the entropy source", dst, ghost.drawn, (size_t)len);
    fv_check("rand_bytes: nothing written past the output", dst[len] == 0x5a);
    free(dst);
  }
}
// mode 1: no public key buffer, 2: no secret key buffer, 3: neither
static void keygen_check(int id, int mode, int (*keygen)(uint8_t*, uint8_t*)) {
  const spec_params* s = spec_set(id);
  const api* a         = &apis[id];
  uint8_t *pk = sym(s->pk, "pk"), *sk = sym(s->sk, "sk");
  uint8_t pk0[64], sk0[64];
  memcpy(pk0, pk, s->pk), memcpy(sk0, sk, s->sk);
  api_contracts();
  fake_entropy();
  ghost.base = sk;
  ghost.n    = s->sk;
  fv_heap_mark();
  fv_frame_begin("keygen writes only the key buffers");
  fv_assigns(pk, mode ? 0 : s->pk);
  fv_assigns(sk, mode ? 0 : s->sk);
  fv_assigns(&ghost, sizeof ghost);
  const int ret = keygen(mode & 1 ? NULL : pk, mode & 2 ? NULL : sk);
  fv_frame_end();
  fv_heap_check("keygen leaks nothing", 0);
  if (mode) {
    fv_check("keygen: a missing buffer is an error", ret != 0);
    fv_eq("keygen: nothing written to the public key on error", pk, pk0, s->pk);
    fv_eq("keygen: nothing written to the secret key on error", sk, sk0, s->sk);
    return;
  }
  fv_check("keygen: fails exactly if the entropy source does", (ret == 0) == !ghost.failed);
  const int ok = ret == 0;
  int all      = 1;
  for (size_t i = 0; i < s->sk; i++)
    all &= ghost.covered[i];
  fv_check("keygen: every byte of the secret key was drawn", !ok | all);
  uint8_t x[64], y[64], ref[64], zero[64] = {0};
  choose(x, ok, sk, zero, s->sk);
  choose(y, ok, ghost.drawn, zero, s->sk);
  fv_eq("keygen: the secret key is what was drawn", x, y, s->sk);
  memcpy(ref, sk, s->pk / 2);
  const int valid = ref_owf(id, ref + s->pk / 2, sk + s->pk / 2, sk);
  fv_check("keygen: the key is usable", !ok | valid);
  choose(x, ok, pk, zero, s->pk);
  choose(y, ok, ref, zero, s->pk);
  fv_eq("keygen: the public key is input and output of the one-way function", x, y, s->pk);
}
void ob_keygen(int id, int mode) { keygen_check(id, mode, apis[id].keygen); }
void ob_crypto_keypair(int id, int mode) { keygen_check(id, mode, (int (*)(uint8_t*, uint8_t*))apis[id].c_keypair); }

// ---- P14
// 0: absent, 1: of any positive length, 2: present and empty, 3: null with a length
static uint8_t* blob_of(const char* name, int kind, uint64_t* n) {
  uint8_t* p = 0;
  *n         = 0;
  if (kind == 1 || kind == 3) {
    fv_sym(n, 8, name);
    *n &= ((uint64_t)1 << 61) - 1;
    if (!fv_symbolic())
      *n = *n % 300 + 1;
    fv_assume(*n != 0);
  }
  if (kind == 1 || kind == 2)
    p = sym(fv_symbolic() ? 16 : *n, name);
  return p;
}
// a key pair; natively usable in most runs
static void some_key(int id, uint8_t* sk) {
  const spec_params* s = spec_set(id);
  uint8_t o[64];
  fv_sym(sk, s->sk, "sk");
  if (!fv_symbolic() && rand() % 6)
    while (!spec_owf(o, sk + s->pk / 2, sk, s->lambda, (int)s->em))
      for (size_t i = 0; i < s->sk; i++)
        sk[i] = (uint8_t)(rand() >> 7);
}
// a length: kind 0: at least size, 1: below, 2: exactly, 3: not
static size_t some_size(size_t size, int kind, const char* name) {
  size_t n = size;
  if (kind != 2)
    fv_sym(&n, sizeof n, name);
  if (!fv_symbolic()) {
    n = kind == 0 ? size + (size_t)(rand() % 3) * 7 : kind == 1 ? (rand() & 1 ? size - 1 : n % size) : rand() & 1 ? n : size - 1 + 2 * (size_t)(rand() & 1);
    n = kind == 2 ? size : n;
  }
  fv_assume(kind == 0 ? n >= size : kind == 1 ? n < size : kind == 2 ? n == size : n != size);
  return n;
}
// mode: message kind + 4 * randomness kind (4: sampled by the function); nulls: 1 sk, 2 signature, 4 length pointer missing,
// 8: length too small
void ob_api_sign(int id, int mode, int nulls) {
  const spec_params* s = spec_set(id);
  const int internal   = mode >> 2 == 4;
  uint8_t sk[64], out[32], drawn[32];
  some_key(id, sk);
  uint64_t mlen, rlen = 0;
  uint8_t* msg = blob_of("msg", mode & 3, &mlen);
  uint8_t* rho = internal ? NULL : blob_of("rho", mode >> 2, &rlen);
  uint8_t *sig = sym(s->sig, "sig"), *sig0 = malloc(s->sig), *ref = malloc(s->sig);
  memcpy(sig0, sig, s->sig);
  size_t len = some_size(s->sig, nulls >> 3 & 1, "siglen"), len0 = len;
  api_contracts();
  fake_entropy();
  memset(&ghost, 0, sizeof ghost);
  fv_heap_mark();
  fv_frame_begin("sign writes only the signature and its length");
  fv_assigns(sig, nulls & 2 ? 0 : s->sig);
  fv_assigns(&len, nulls & 4 ? 0 : sizeof len);
  fv_assigns(&ghost, sizeof ghost);
  const int ret = internal ? apis[id].sign(nulls & 1 ? 0 : sk, msg, mlen, nulls & 2 ? 0 : sig, nulls & 4 ? 0 : &len)
                           : apis[id].sign_rho(nulls & 1 ? 0 : sk, msg, mlen, rho, rlen, nulls & 2 ? 0 : sig, nulls & 4 ? 0 : &len);
  fv_frame_end();
  fv_heap_check("sign leaks nothing", 0);
  int ok = !nulls & (mode >> 2 != 3);
  ok &= ref_owf(id, out, sk + s->pk / 2, sk);
  memcpy(drawn, ghost.seq, s->lambda / 8);
  if (internal) {
    fv_check("sign: randomness of the security level is drawn", !(ok & (ret == 0)) | (ghost.nseq == s->lambda / 8));
    ok &= !ghost.failed;
  }
  fv_check("sign: succeeds exactly for usable arguments, key and entropy", (ret == 0) == ok);
  ref_sign(id, ref, msg, mlen, sk + s->pk / 2, sk, out, internal ? drawn : rho, internal ? s->lambda / 8 : rlen);
  choose(ref, ok, ref, sig0, s->sig);
  fv_eq("sign: the signature on success, untouched otherwise", sig, ref, s->sig);
  len0 = ok ? s->sig : len0;
  fv_eq("sign: the length on success, untouched otherwise", &len, &len0, sizeof len);
}
// nulls: 1 public key, 2 signature missing, 4: another length than that of a signature
void ob_api_verify(int id, int mode, int nulls) {
  const spec_params* s = spec_set(id);
  uint8_t* pk          = sym(s->pk, "pk");
  uint64_t mlen;
  uint8_t *msg = blob_of("msg", mode & 3, &mlen), *sig = sym(s->sig, "sig");
  const size_t len = some_size(s->sig, nulls & 4 ? 3 : 2, "siglen");
  if (!fv_symbolic() && rand() % 4) { // mostly a genuine signature, sometimes damaged
    uint8_t sk[64];
    some_key(id, sk);
    memcpy(pk, sk, s->pk / 2);
    ref_owf(id, pk + s->pk / 2, sk + s->pk / 2, sk);
    ref_sign(id, sig, msg, mlen, sk + s->pk / 2, sk, pk + s->pk / 2, 0, 0);
    if (rand() % 3 == 0)
      sig[(size_t)rand() % s->sig] ^= 1;
  }
  api_contracts();
  fv_heap_mark();
  fv_frame_begin("verify writes nothing");
  const int ret = apis[id].verify(nulls & 1 ? 0 : pk, msg, mlen, nulls & 2 ? 0 : sig, len);
  fv_frame_end();
  fv_heap_check("verify leaks nothing", 0);
  int ok = !nulls;
  ok &= ref_accept(id, msg, mlen, sig, pk, pk + s->pk / 2);
  fv_check("verify: 0 exactly for an accepted signature of the exact length", (ret == 0) == ok);
}
void ob_validate(int id, int nulls) {
  const spec_params* s = spec_set(id);
  uint8_t sk[64], ref[64];
  uint8_t* pk = sym(s->pk, "pk");
  some_key(id, sk);
  if (!fv_symbolic() && rand() % 3) {
    memcpy(pk, sk, s->pk / 2);
    ref_owf(id, pk + s->pk / 2, sk + s->pk / 2, sk);
    if (rand() & 1) { // two bytes that differ in the same way
      const uint8_t x = (uint8_t)(1 << rand() % 8);
      pk[(unsigned)rand() % s->pk] ^= x;
      pk[(unsigned)rand() % s->pk] ^= x;
    }
  }
  owf_contracts();
  fv_heap_mark();
  fv_frame_begin("validate_keypair writes nothing");
  const int ret = apis[id].validate(nulls & 1 ? 0 : pk, nulls & 2 ? 0 : sk);
  fv_frame_end();
  fv_heap_check("validate_keypair leaks nothing", 0);
  memcpy(ref, sk, s->pk / 2);
  const int valid = ref_owf(id, ref + s->pk / 2, sk + s->pk / 2, sk);
  const int match = memcmp(ref, pk, s->pk) == 0;
  const int want  = nulls ? -1 : !valid ? 1 : match ? 0 : 2;
  fv_check("validate_keypair: -1 missing, 1 unusable, 2 mismatch, 0 valid", ret == want);
}
void ob_clear(int id) {
  const spec_params* s = spec_set(id);
  uint8_t *sk = sym(s->sk, "sk"), zero[64] = {0};
  sk[s->sk] = 0x77;
  fv_frame_begin("clear_private_key writes only the key");
  fv_assigns(sk, s->sk);
  apis[id].clear(sk);
  fv_frame_end();
  fv_eq("clear_private_key: every byte is zero", sk, zero, s->sk);
  fv_check("clear_private_key: nothing else", sk[s->sk] == 0x77);
}
void ob_bcmp(int lo, int hi) {
  for (int n = lo; n <= hi; n++) {
    uint8_t *a = sym((size_t)n, "a"), *b = sym((size_t)n, "b");
    if (!fv_symbolic() && n && rand() % 4) {
      const uint8_t x = (uint8_t)(1 << rand() % 8);
      memcpy(a, b, (size_t)n);
      a[rand() % n] ^= x, a[rand() % n] ^= x;
    }
    fv_frame_begin("timingsafe_bcmp writes nothing");
    const int r = faest_timingsafe_bcmp(a, b, (size_t)n);
    fv_frame_end();
    fv_check("timingsafe_bcmp: 0 exactly on equal ranges", (r == 0) == (memcmp(a, b, (size_t)n) == 0));
    free(a), free(b);
  }
}
// the NIST-style interface: message of n bytes; place: where it lies relative to the output (0: elsewhere, 1: same
// address, 2: one byte later, 3: output one byte later, 4: overlapping the signature part)
void ob_crypto_sign(int id, int n, int place) {
  const spec_params* s = spec_set(id);
  const size_t N = (size_t)n, T = N + s->sig;
  static const int off[5] = {0, 0, 1, -1, 0};
  uint8_t sk[64], out[32], *msg = malloc(N + 1), *ref = malloc(T), *sm0 = malloc(T);
  some_key(id, sk);
  uint8_t* buf = sym(T + N + 2, "buf");
  uint8_t *sm  = buf + (place == 3), *m = place == 0 ? sym(N, "m") : place == 4 ? sm + s->sig / 2 : sm + off[place];
  memcpy(msg, m, N), memcpy(sm0, sm, T);
  ull smlen = 0;
  api_contracts();
  fake_entropy();
  memset(&ghost, 0, sizeof ghost);
  fv_frame_begin("crypto_sign writes only the signed message and its length");
  fv_assigns(sm, T);
  fv_assigns(&smlen, sizeof smlen);
  fv_assigns(&ghost, sizeof ghost);
  const int ret = apis[id].c_sign(sm, &smlen, m, N, sk);
  fv_frame_end();
  const int ok = ref_owf(id, out, sk + s->pk / 2, sk) & !ghost.failed;
  fv_check("crypto_sign: succeeds exactly for a usable key and entropy", (ret == 0) == ok);
  memcpy(ref, msg, N);
  ref_sign(id, ref + N, msg, N, sk + s->pk / 2, sk, out, ghost.seq, s->lambda / 8);
  const uint8_t c = (uint8_t)-ok;
  for (size_t i = 0; i < T; i++)
    ref[i] &= c, sm0[i] = sm[i] & c;
  fv_eq("crypto_sign: message followed by its signature", sm0, ref, T);
  fv_check("crypto_sign: length", !ok | (smlen == T));
}
// n: total length; below the signature size: too short
void ob_crypto_open(int id, int n, int place) {
  const spec_params* s = spec_set(id);
  const size_t T = (size_t)n, N = T < s->sig ? 0 : T - s->sig;
  static const int off[4] = {0, 0, 1, -1};
  uint8_t *pk = sym(s->pk, "pk"), *buf = sym(T + 2, "sm"), *sm = buf + (place == 3), *m = place ? sm + off[place] : sym(N, "m");
  if (!fv_symbolic() && T >= s->sig && rand() % 4) {
    uint8_t sk[64];
    some_key(id, sk);
    memcpy(pk, sk, s->pk / 2);
    ref_owf(id, pk + s->pk / 2, sk + s->pk / 2, sk);
    ref_sign(id, sm + N, sm, N, sk + s->pk / 2, sk, pk + s->pk / 2, 0, 0);
    if (rand() % 3 == 0)
      sm[(size_t)rand() % T] ^= 1;
  }
  uint8_t *sm0 = malloc(T + 1), *m0 = malloc(N + 1);
  memcpy(sm0, sm, T), memcpy(m0, m, N);
  ull mlen = 0x1122334455667788ull;
  api_contracts();
  fv_frame_begin("crypto_sign_open writes only the message and its length");
  fv_assigns(m, N);
  fv_assigns(&mlen, sizeof mlen);
  const int ret = apis[id].c_open(m, &mlen, sm, T, pk);
  fv_frame_end();
  int ok = T >= s->sig;
  if (ok)
    ok &= ref_accept(id, sm0, N, sm0 + N, pk, pk + s->pk / 2);
  fv_check("crypto_sign_open: 0 exactly for an accepted signed message", (ret == 0) == ok);
  choose(m0, ok, sm0, m0, N);
  fv_eq("crypto_sign_open: the message on success, untouched otherwise", m, m0, N);
  const ull want = ok ? N : 0x1122334455667788ull;
  fv_eq("crypto_sign_open: the length on success, untouched otherwise", &mlen, &want, sizeof mlen);
}

// ---- for ob_complete
int api_sign_rho(int id, const uint8_t* sk, const uint8_t* m, size_t n, const uint8_t* rho, size_t rn, uint8_t* sig, size_t* len) {
  return apis[id].sign_rho(sk, m, n, rho, rn, sig, len);
}
int api_verify(int id, const uint8_t* pk, const uint8_t* m, size_t n, const uint8_t* sig, size_t len) {
  return apis[id].verify(pk, m, n, sig, len);
}
// a key pair: symbolically any secret key the one-way function accepts; 0 if there is none for these bytes
int api_key_pair(int id, uint8_t* sk, uint8_t* pk) {
  const spec_params* s = spec_set(id);
  owf_contracts();
  if (fv_symbolic())
    fv_sym(sk, s->sk, "sk");
  else
    do
      for (size_t i = 0; i < s->sk; i++)
        sk[i] = (uint8_t)(rand() >> 7);
    while (!ref_owf(id, pk + s->pk / 2, sk + s->pk / 2, sk));
  memcpy(pk, sk, s->pk / 2);
  const int v = ref_owf(id, pk + s->pk / 2, sk + s->pk / 2, sk);
  fv_assume(v);
  return v;
}
