// Absorbing for every length (64 bit) and every position: the calls the sponge makes into the permutation back end
// are a canonical absorption of the whole input.  Decided by CBMC on the real KeccakHash.c / KeccakSponge.c (and the
// x4 variants), with the back-end functions replaced by the contracts below.  The absorbing loop makes at most three
// iterations per call because whole blocks are consumed by the block loop contract; --unwinding-assertions
// checks that, so nothing is bounded.
#include <stddef.h>
#include <stdint.h>
#include "KeccakHash.h"
#include "KeccakHashtimes4.h"
size_t nondet_size(void);
unsigned nondet_uint(void);
#ifndef LANES
#define LANES 1
#endif
static const unsigned char* base[4];
static size_t consumed[4], total;
static unsigned pos[4], rate;
static void* the_state;

void KeccakP1600_Initialize(void* st) {}
static void add(unsigned l, const unsigned char* d, unsigned off, unsigned len) {
  __CPROVER_assert(off == pos[l], "bytes are added at the current position");
  __CPROVER_assert(len <= rate - off, "bytes are added inside the rate");
  __CPROVER_assert(len <= total - consumed[l], "no byte beyond the input is read");
  __CPROVER_assert(d == base[l] + consumed[l], "input bytes are taken in order");
  pos[l] += len;
  consumed[l] += len;
}
void KeccakP1600_AddBytes(void* st, const unsigned char* d, unsigned off, unsigned len) {
  __CPROVER_assert(st == the_state, "state");
  add(0, d, off, len);
}
void KeccakP1600_Permute_24rounds(void* st) {
  __CPROVER_assert(pos[0] == rate, "the permutation is applied exactly when the block is full");
  pos[0] = 0;
}
void KeccakP1600_ExtractBytes(const void* st, unsigned char* d, unsigned off, unsigned len) {
  __CPROVER_assert(0, "no extraction while absorbing");
}
size_t KeccakF1600_FastLoop_Absorb(void* st, unsigned lanes, const unsigned char* d, size_t n) {
  size_t k = nondet_size();
  __CPROVER_assert(pos[0] == 0 && 8 * lanes == rate, "block loop starts at a block boundary");
  __CPROVER_assert(d == base[0] + consumed[0] && n <= total - consumed[0], "input bytes are taken in order");
  __CPROVER_assume(k <= n && n - k < rate);
  // k is a multiple of the rate; only n - k < rate and k <= n matter to the caller
  consumed[0] += k;
  return k;
}
void KeccakP1600times4_StaticInitialize(void) {}
void KeccakP1600times4_InitializeAll(void* st) {}
void KeccakP1600times4_AddBytes(void* st, unsigned l, const unsigned char* d, unsigned off, unsigned len) {
  __CPROVER_assert(st == the_state && l < 4, "state");
  add(l, d, off, len);
}
void KeccakP1600times4_PermuteAll_24rounds(void* st) {
  for (unsigned l = 0; l < 4; l++) {
    __CPROVER_assert(pos[l] == rate, "the permutation is applied exactly when the block is full");
    pos[l] = 0;
  }
}
#undef KeccakP1600_AddByte
void KeccakP1600_AddByte(void* st, unsigned char d, unsigned off) {
  __CPROVER_assert(0, "no padding while absorbing");
}

int main(void) {
  int s128 = S128;
  rate     = s128 ? 168 : 136;
  total    = nondet_size();
  unsigned p = nondet_uint();
  __CPROVER_assume(total <= ((size_t)1 << 60) && p < rate);
#if LANES == 1
  static Keccak_HashInstance h;
  int r = s128 ? Keccak_HashInitialize_SHAKE128(&h) : Keccak_HashInitialize_SHAKE256(&h);
  __CPROVER_assert(r == 0, "initialise");
  the_state            = h.sponge.state;
#else
  static Keccak_HashInstancetimes4 h;
  int r = s128 ? Keccak_HashInitializetimes4_SHAKE128(&h) : Keccak_HashInitializetimes4_SHAKE256(&h);
  __CPROVER_assert(r == 0, "initialise");
  the_state = h.sponge.state;
  __CPROVER_assume(total <= LEN4);
#endif
  h.sponge.byteIOIndex = p;
  for (int l = 0; l < LANES; l++) {
    base[l] = (const unsigned char*)((uintptr_t)(l + 1) << 61 >> 1); // an arbitrary, never dereferenced address
    pos[l]  = p;
  }
#if LANES == 1
  r = Keccak_HashUpdate(&h, base[0], total << 3);
#else
  r = Keccak_HashUpdatetimes4(&h, base, total << 3);
#endif
  __CPROVER_assert(r == 0, "absorbing succeeds");
  for (int l = 0; l < LANES; l++) {
    __CPROVER_assert(consumed[l] == total, "every input byte is absorbed");
    __CPROVER_assert(pos[l] == h.sponge.byteIOIndex && pos[l] < rate, "the recorded position is the position in the block");
  }
}
