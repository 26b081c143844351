// Contracts: executable specifications with the signature of the real function.  A contract is used in
// place of the function at calls (FV_CONTRACT) and proved about the function's code by the obligation
// named in obligations.py.
#ifndef CONTRACTS_H
#define CONTRACTS_H
#include "fields.h"
#include "fv.h"
#include "spec.h"

bf8_t contract_bf8_inv(bf8_t x);
bf64_t contract_bf64_mul(bf64_t a, bf64_t b);
bf128_t contract_bf128_mul(bf128_t a, bf128_t b);
bf192_t contract_bf192_mul(bf192_t a, bf192_t b);
bf256_t contract_bf256_mul(bf256_t a, bf256_t b);
bf128_t contract_bf128_mul_64(bf128_t a, bf64_t b);
bf192_t contract_bf192_mul_64(bf192_t a, bf64_t b);
bf256_t contract_bf256_mul_64(bf256_t a, bf64_t b);
void hash_contracts(void);
void prg_contract(void);
static inline int fv_disjoint(const void* a, size_t n, const void* b, size_t m) {
  return (uintptr_t)a + n <= (uintptr_t)b || (uintptr_t)b + m <= (uintptr_t)a;
}
#endif
