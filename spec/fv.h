// Specification primitives.  Every obligation harness is compiled twice: to LLVM IR, where the engine
// gives the primitives below their symbolic meaning (proof), and natively, where fv_native.c gives
// them their concrete meaning (replay of counterexamples against the real code).
#ifndef FV_H
#define FV_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

// fill p[0..n) with arbitrary bytes (universally quantified)
void fv_sym(void* p, size_t n, const char* name);
// postcondition: equality of n bytes / truth of a condition
void fv_eq(const char* label, const void* a, const void* b, size_t n);
void fv_check(const char* label, int cond);
// precondition of a contract, checked at every call
void fv_require(const char* label, int cond);
// restriction of the quantified inputs
void fv_assume(int cond);
// reachability marker
void fv_cover(const char* label);
// replace calls of a function by its contract (no effect natively)
typedef void (*fv_fn)(void);
void fv_contract(fv_fn real, fv_fn contract);
void fv_nocontract(fv_fn real);
#define FV_CONTRACT(real, c) fv_contract((fv_fn)(real), (fv_fn)(c))
#define FV_NOCONTRACT(real) fv_nocontract((fv_fn)(real))
// a file-local function of the code under proof, found by its source name; 0 if there is none with the type and the
// parameter names of the contract (then callers are checked with its replacement inlined); natively always 0
fv_fn fv_find_static(const char* name, fv_fn contract);
int fv_contract_static(const char* name, fv_fn contract);
// offset of a member of a typedef'd structure of the code under proof (debug information), -1 if there is none (and
// natively)
long fv_member(const char* type, const char* member);
// the contents become arbitrary
void fv_havoc(void* p, size_t n);
// uninterpreted function of byte strings: fv_uf(name, out, outlen, n, (const void*)p1, (size_t)l1, ...)
void fv_uf(const char* name, void* out, size_t outlen, int nargs, ...);
// uninterpreted byte function, folded through a 256-entry table on constants
uint8_t fv_uf8(const char* name, const uint8_t* table, uint8_t x);
// out = a xor b (n bytes)
void fv_xor(void* out, const void* a, const void* b, size_t n);
// multiplication in GF(2^(8 nb)) of the FAEST representation
void fv_gfmul(void* out, const void* a, const void* b, size_t nb);
// ghost byte strings (hash inputs)
uint64_t fv_list_new(void);
uint64_t fv_list_append(uint64_t list, const void* p, size_t n);
// out = bytes [skip, skip+n) of the named stream function of the list
void fv_list_uf(const char* name, uint64_t list, void* out, size_t skip, size_t n);
// frame: between begin and end only the declared ranges of pre-existing memory may be written
void fv_frame_begin(const char* label);
void fv_assigns(const void* p, size_t n);
void fv_frame_end(void);
// heap: no object allocated since mark is still live (except `extra` of them)
void fv_heap_mark(void);
void fv_heap_check(const char* label, size_t extra);
// in a contract: the call may be repeated by a loop of its caller; a later passage is shown to be an instance of the first
void fv_loop_point(void);
// 1 under the engine, 0 natively
int fv_symbolic(void);
// 1 if the bytes are the same for all inputs (engine; natively 1)
int fv_is_const(const void* p, size_t n);
void fv_log(const char* s, uint64_t x);

#endif
