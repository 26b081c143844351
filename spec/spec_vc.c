#include "fv.h"
#include "spec.h"
#include <string.h>
// Vector commitments of FAEST v1 (section on length-doubling trees).  Node (level, pos) of the tree is stored at
// 2^level - 1 + pos; the two children of a node are the two halves of the generator's output on it.
static const char* shake_of(unsigned lambda) { return lambda == 128 ? "shake128" : "shake256"; }
void spec_leaf(unsigned lambda, const uint8_t* node, const uint8_t* iv, uint8_t* sd, uint8_t* com) {
  static const uint8_t dom0 = 0;
  uint64_t g                = fv_list_append(fv_list_append(fv_list_append(fv_list_new(), node, lambda / 8), iv, 16), &dom0, 1);
  if (sd)
    fv_list_uf(shake_of(lambda), g, sd, 0, lambda / 8);
  if (com)
    fv_list_uf(shake_of(lambda), g, com, lambda / 8, lambda / 4);
}
void spec_H1(unsigned lambda, const uint8_t* in, size_t n, uint8_t* h) {
  static const uint8_t dom1 = 1;
  fv_list_uf(shake_of(lambda), fv_list_append(fv_list_append(fv_list_new(), in, n), &dom1, 1), h, 0, lambda / 4);
}
void spec_vc_commit(unsigned lambda, unsigned depth, const uint8_t* root, const uint8_t* iv, uint8_t* k, uint8_t* sd,
                    uint8_t* com, uint8_t* h) {
  const size_t L = lambda / 8, N = (size_t)1 << depth;
  memcpy(k, root, L);
  for (size_t i = 0; i < N - 1; i++)
    spec_prg(k + L * (2 * i + 1), k + L * i, iv, lambda, 2 * L);
  for (size_t j = 0; j < N; j++)
    spec_leaf(lambda, k + L * (N - 1 + j), iv, sd + L * j, com + 2 * L * j);
  spec_H1(lambda, com, 2 * L * N, h);
}
// the sibling of the path to leaf j at level i (1..depth)
size_t spec_vc_sibling(unsigned depth, size_t j, unsigned i) { return ((size_t)1 << i) - 1 + ((j >> (depth - i)) ^ 1); }
void spec_vc_reconstruct(unsigned lambda, unsigned depth, size_t j, const uint8_t* iv, const uint8_t* cop,
                         const uint8_t* com_j, uint8_t* k, uint8_t* s, uint8_t* com, uint8_t* h) {
  const size_t L = lambda / 8, N = (size_t)1 << depth;
  for (unsigned i = 1; i <= depth; i++) {
    for (size_t p = 0; p < (size_t)1 << (i - 1); p++)
      if (p != j >> (depth - (i - 1))) // the children of the nodes that are not on the path
        spec_prg(k + L * (((size_t)1 << i) - 1 + 2 * p), k + L * (((size_t)1 << (i - 1)) - 1 + p), iv, lambda, 2 * L);
    memcpy(k + L * spec_vc_sibling(depth, j, i), cop + L * (i - 1), L);
  }
  for (size_t x = 0; x < N; x++)
    if (x != j)
      spec_leaf(lambda, k + L * (N - 1 + x), iv, s + L * x, com + 2 * L * x);
  memcpy(com + 2 * L * j, com_j, 2 * L);
  spec_H1(lambda, com, 2 * L * N, h);
}
