#include "spec.h"
#include "fv.h"
// FIPS 197 and the Rijndael submission: generic in the block size Nb, key size Nk (32-bit words) and Nr.

// S-box: inverse, then b_i ^ b_{i+4} ^ b_{i+5} ^ b_{i+6} ^ b_{i+7} ^ c_i with c = 0x63
uint8_t spec_sbox(uint8_t x) {
  uint8_t b = fv_uf8("inv8", spec_inv8_table(), x), r = 0;
  for (unsigned i = 0; i < 8; i++) {
    uint8_t t = (uint8_t)((b >> i) ^ (b >> ((i + 4) % 8)) ^ (b >> ((i + 5) % 8)) ^ (b >> ((i + 6) % 8)) ^ (b >> ((i + 7) % 8)) ^ (0x63 >> i));
    r |= (uint8_t)((t & 1) << i);
  }
  return r;
}
static uint8_t x2(uint8_t a) { return (uint8_t)((a << 1) ^ (0x1b & (uint8_t) - (a >> 7))); }

// key schedule into w[4 * Nb * (Nr + 1)]; *zero |= some S-box input is zero
void spec_key_expansion(uint8_t* w, const uint8_t* key, unsigned Nk, unsigned Nb, unsigned Nr, int* zero) {
  uint8_t rcon = 1;
  for (unsigned i = 0; i < 4 * Nk; i++)
    w[i] = key[i];
  for (unsigned i = Nk; i < Nb * (Nr + 1); i++) {
    uint8_t t[4];
    for (int j = 0; j < 4; j++)
      t[j] = w[4 * (i - 1) + j];
    if (i % Nk == 0) {
      uint8_t r[4] = {t[1], t[2], t[3], t[0]};
      for (int j = 0; j < 4; j++) {
        *zero |= r[j] == 0;
        t[j] = spec_sbox(r[j]);
      }
      t[0] ^= rcon;
      rcon = x2(rcon);
    } else if (Nk > 6 && i % Nk == 4) {
      for (int j = 0; j < 4; j++) {
        *zero |= t[j] == 0;
        t[j] = spec_sbox(t[j]);
      }
    }
    for (int j = 0; j < 4; j++)
      w[4 * i + j] = w[4 * (i - Nk) + j] ^ t[j];
  }
}
// offset of row r under ShiftRows
static unsigned shift(unsigned r, unsigned Nb) {
  if (Nb < 8)
    return r;
  return r == 0 ? 0 : r == 1 ? 1 : r == 2 ? 3 : 4;
}
// encryption; trace (if not null) receives the state after ShiftRows of rounds 1 .. Nr-1
void spec_rijndael(uint8_t* out, const uint8_t* in, const uint8_t* w, unsigned Nb, unsigned Nr, int* zero, uint8_t* trace) {
  uint8_t s[32], t[32];
  for (unsigned i = 0; i < 4 * Nb; i++)
    s[i] = in[i] ^ w[i];
  for (unsigned rnd = 1; rnd <= Nr; rnd++) {
    for (unsigned i = 0; i < 4 * Nb; i++) {
      *zero |= s[i] == 0;
      s[i] = spec_sbox(s[i]);
    }
    for (unsigned c = 0; c < Nb; c++)
      for (unsigned r = 0; r < 4; r++)
        t[4 * c + r] = s[4 * ((c + shift(r, Nb)) % Nb) + r];
    if (rnd < Nr) {
      if (trace)
        for (unsigned i = 0; i < 4 * Nb; i++)
          *trace++ = t[i];
      for (unsigned c = 0; c < Nb; c++)
        for (unsigned r = 0; r < 4; r++)
          s[4 * c + r] = x2(t[4 * c + r]) ^ x2(t[4 * c + (r + 1) % 4]) ^ t[4 * c + (r + 1) % 4] ^ t[4 * c + (r + 2) % 4] ^ t[4 * c + (r + 3) % 4];
    } else
      for (unsigned i = 0; i < 4 * Nb; i++)
        s[i] = t[i];
    for (unsigned i = 0; i < 4 * Nb; i++)
      s[i] ^= w[4 * Nb * rnd + i];
  }
  for (unsigned i = 0; i < 4 * Nb; i++)
    out[i] = s[i];
}
// counter block + 1 modulo 2^128, big endian
void spec_ctr_inc_def(uint8_t* ctr) {
  uint8_t carry = 1;
  for (int i = 15; i >= 0; i--)
    for (int b = 0; b < 8; b++) {
      uint8_t bit = (ctr[i] >> b) & 1;
      ctr[i] ^= (uint8_t)(carry << b);
      carry &= bit;
    }
}
void spec_ctr_inc(uint8_t* ctr) {
  if (fv_symbolic())
    fv_uf("ctr_inc", ctr, 16, 1, ctr, (size_t)16);
  else
    spec_ctr_inc_def(ctr);
}
// AES-CTR keystream: block i is AES(key, iv + i mod 2^128, big endian)
void spec_aes_ctr(uint8_t* out, const uint8_t* key, const uint8_t* iv, unsigned lambda, size_t len) {
  unsigned Nk = lambda / 32, Nr = Nk + 6;
  static uint8_t w[4 * 4 * 15];
  uint8_t ctr[16], blk[16];
  int z = 0;
  spec_key_expansion(w, key, Nk, 4, Nr, &z);
  for (int i = 0; i < 16; i++)
    ctr[i] = iv[i];
  for (size_t o = 0; o < len; o += 16) {
    z = 0;
    spec_rijndael(blk, ctr, w, 4, Nr, &z, NULL);
    for (size_t j = 0; j < 16 && o + j < len; j++)
      out[o + j] = blk[j];
    spec_ctr_inc(ctr);
  }
}
// the pseudo-random generator: an uninterpreted stream in proofs of its callers, AES-CTR when executed
void spec_prg(uint8_t* out, const uint8_t* key, const uint8_t* iv, unsigned lambda, size_t len) {
  fv_uf(lambda == 128 ? "prg128" : lambda == 192 ? "prg192" : "prg256", out, len, 2, key, (size_t)(lambda / 8), iv, (size_t)16);
}

// ---- FAEST v1 one-way functions and extended witness
// returns 1 if the key is valid (no S-box covered by the proof sees zero)
int spec_owf(uint8_t* out, const uint8_t* key, const uint8_t* in, unsigned lambda, int em) {
  static uint8_t w[4 * 8 * 15];
  unsigned Nk = lambda / 32, Nr = Nk + 6;
  int z = 0, pub = 0;
  if (!em) {
    spec_key_expansion(w, key, Nk, 4, Nr, &z);
    spec_rijndael(out, in, w, 4, Nr, &z, NULL);
    if (lambda > 128)
      spec_rijndael(out + 16, in + 16, w, 4, Nr, &z, NULL);
  } else {
    spec_key_expansion(w, in, Nk, Nk, Nr, &pub);
    spec_rijndael(out, key, w, Nk, Nr, &z, NULL);
    for (unsigned i = 0; i < lambda / 8; i++)
      out[i] ^= key[i];
  }
  return z == 0;
}
// returns the length in bytes
size_t spec_extend_witness(uint8_t* out, const uint8_t* key, const uint8_t* in, unsigned lambda, int em) {
  static uint8_t w[4 * 8 * 15];
  unsigned Nk = lambda / 32, Nr = Nk + 6;
  uint8_t* o = out;
  uint8_t ct[32];
  int z = 0;
  for (unsigned i = 0; i < lambda / 8; i++)
    *o++ = key[i];
  if (em) {
    spec_key_expansion(w, in, Nk, Nk, Nr, &z);
    spec_rijndael(ct, key, w, Nk, Nr, &z, o);
    o += 4 * Nk * (Nr - 1);
  } else {
    spec_key_expansion(w, key, Nk, 4, Nr, &z);
    // the words whose computation applies the S-box: every Nk-th word, and every 4th for 256-bit keys
    for (unsigned i = Nk; i < 4 * (Nr + 1); i++)
      if (i % Nk == 0 || (Nk > 6 && i % Nk == 4))
        for (int j = 0; j < 4; j++)
          *o++ = w[4 * i + j];
    for (unsigned b = 0; b < (lambda > 128 ? 2u : 1u); b++) {
      spec_rijndael(ct, in + 16 * b, w, 4, Nr, &z, o);
      o += 16 * (Nr - 1);
    }
  }
  return (size_t)(o - out);
}
