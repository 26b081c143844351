// The NIST-style wrappers for every message length, content and placement of the buffers.  Decided by CBMC on the real
// (generated) crypto_sign.c; signing, verification and the copies are replaced by their contracts.  Addresses are
// arbitrary numbers, never dereferenced; one arbitrary address is watched, and what it holds is recorded as the place the byte
// came from.  There is no loop, hence no bound.
#include <stddef.h>
#include <stdint.h>
#include "../spec/spec_params.c"
void spec_name(char* o, const char* w, unsigned a, unsigned b) {}
typedef unsigned long long ull;
#define TAG_1 128s
#define TAG_2 128f
#define TAG_3 192s
#define TAG_4 192f
#define TAG_5 256s
#define TAG_6 256f
#define TAG_7 em_128s
#define TAG_8 em_128f
#define TAG_9 em_192s
#define TAG_10 em_192f
#define TAG_11 em_256s
#define TAG_12 em_256f
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define TAG CAT(TAG_, SET)
int CAT(crypto_sign_, TAG)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int CAT(crypto_sign_open_, TAG)(unsigned char*, ull*, const unsigned char*, ull, const unsigned char*);
int CAT(crypto_sign_keypair_, TAG)(unsigned char*, unsigned char*);
#define CAT3(a, b, c) CAT_3(a, b, c)
#define CAT_3(a, b, c) a##b##c
ull nondet_ull(void);
int nondet_int(void);

static ull SM, M, KEY, LEN, SIZE; // addresses, message length, signature size
static ull W, origin;             // watched address and the address its byte came from
static int issig, written, calls, result;
static ull sigstart;
static ull dlo[4], dhi[4]; // address ranges written so far
static int nd;
static int touched(ull a) {
  int r = 0;
  for (int i = 0; i < 4; i++)
    if (i < nd && dlo[i] <= a && a < dhi[i])
      r = 1;
  return r;
}
static void note(ull d, ull n) {
  if (nd < 4)
    dlo[nd] = d, dhi[nd] = d + n, nd++;
  else
    __CPROVER_assert(0, "unsupported: many copies");
}
static int inside(ull a, ull d, ull n) { return a >= d && a - d < n; }
static void* copy(ull d, ull s, ull n) {
  if (inside(W, d, n)) {
    __CPROVER_assert(!touched(s + (W - d)), "the copied byte still is the original one");
    origin  = s + (W - d);
    written = 1, issig = 0;
  }
  if (n)
    note(d, n);
  return (void*)d;
}
void* memmove(void* d, const void* s, size_t n) { return copy((ull)d, (ull)s, n); }
void* memcpy(void* d, const void* s, size_t n) {
  __CPROVER_assert(n == 0 || (ull)d + n <= (ull)s || (ull)s + n <= (ull)d, "memcpy: the ranges do not overlap");
  return copy((ull)d, (ull)s, n);
}
#ifdef OPEN
int CAT3(faest_, TAG, _verify)(const uint8_t* pk, const uint8_t* msg, size_t n, const uint8_t* sig, size_t siglen) {
  calls++;
  __CPROVER_assert((ull)pk == KEY, "verified under the given public key");
  __CPROVER_assert((ull)msg == SM && n == LEN, "the whole message part is verified");
  __CPROVER_assert((ull)sig == SM + LEN && siglen == SIZE, "the signature is the last part of the signed message");
  __CPROVER_assert(nd == 0, "nothing is written before verification");
  return result;
}
#else
int CAT3(faest_, TAG, _sign)(const uint8_t* sk, const uint8_t* msg, size_t n, uint8_t* sig, size_t* siglen) {
  calls++;
  __CPROVER_assert((ull)sk == KEY, "signed with the given secret key");
  __CPROVER_assert(n == LEN, "the whole message is signed");
  if (inside(W, (ull)msg, n))
    __CPROVER_assert(origin == M + (W - (ull)msg), "the message is signed");
  __CPROVER_assert((ull)sig == SM + LEN, "the signature goes behind the message");
  __CPROVER_assert(*siglen >= SIZE, "the signature fits");
  if (*siglen < SIZE)
    return -1;
  if (result == 0) {
    *siglen  = SIZE;
    sigstart = (ull)sig;
    note((ull)sig, SIZE);
    if (inside(W, (ull)sig, SIZE))
      written = 1, issig = 1, origin = W - (ull)sig;
  }
  return result;
}
#endif
int main(void) {
  SIZE = spec_set(SET)->sig;
  SM = nondet_ull(), M = nondet_ull(), KEY = nondet_ull(), LEN = nondet_ull(), W = nondet_ull();
  result = nondet_int();
  // the buffers lie inside the address space (2^53 bytes: CBMC keeps an object number in the upper pointer bits)
  __CPROVER_assume(SM && M && LEN < (1ull << 53) && SM < (1ull << 53) && M < (1ull << 53));
  origin = W;
  ull len = nondet_ull(), len0 = len;
#ifdef OPEN
  const ull total = nondet_ull();
  __CPROVER_assume(total < (1ull << 53));
  const int enough = total >= SIZE;
  LEN              = total - SIZE;
  const int r      = CAT(crypto_sign_open_, TAG)((unsigned char*)M, &len, (const unsigned char*)SM, total, (const unsigned char*)KEY);
  const int ok     = enough && result == 0;
  __CPROVER_assert((r == 0) == ok, "0 exactly for a long enough signed message that verifies");
  __CPROVER_assert(calls == (enough ? 1 : 0), "verified once if long enough");
  __CPROVER_assert(len == (ok ? LEN : len0), "the message length on success, untouched otherwise");
  if (ok && inside(W, M, LEN))
    __CPROVER_assert(written && !issig && origin == SM + (W - M), "the message is returned");
  else
    __CPROVER_assert(!written, "nothing else is written");
#else
  const int r  = CAT(crypto_sign_, TAG)((unsigned char*)SM, &len, (const unsigned char*)M, LEN, (const unsigned char*)KEY);
  const int ok = result == 0;
  __CPROVER_assert((r == 0) == ok, "0 exactly if signing succeeds");
  __CPROVER_assert(calls == 1, "signed once");
  if (ok) {
    __CPROVER_assert(len == LEN + SIZE, "the length of the signed message");
    if (inside(W, SM, LEN))
      __CPROVER_assert(written ? !issig && origin == M + (W - SM) : SM == M, "the signed message begins with the message");
    else if (inside(W, SM + LEN, SIZE))
      __CPROVER_assert(written && issig && sigstart == SM + LEN, "followed by the signature");
  }
  if (!inside(W, SM, LEN + SIZE))
    __CPROVER_assert(!written, "nothing else is written");
#endif
}
