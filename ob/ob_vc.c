#include "contracts.h"
#include "instances.h"
#include "vc.h"

#define NODES ((1u << 13) - 1)
static int set_of(int lambda) { return lambda == 128 ? 1 : lambda == 192 ? 3 : 5; }
static uint8_t root[32], iv[16], k0[NODES * 32], sd0[4096 * 32], com0[4096 * 64], h0[64];
static uint8_t k1[NODES * 32], sd1[4096 * 32], com1[4096 * 64], h1[64];
static uint8_t cop[12 * 32], comj[64], bits[12], cop1[13 * 32], comj1[65];

// the helpers: node numbering and index <-> bits, all indices
void ob_vc_index(int depth) {
  fv_check("node count", getBinaryTreeNodeCount((unsigned)depth) == (2ull << depth) - 1);
  for (uint64_t j = 0; j < 1ull << depth; j++) {
    uint8_t b[12];
    fv_check("node index", getNodeIndex((uint64_t)depth, j) == (1ull << depth) - 1 + j);
    fv_check("BitDec accepts", BitDec((unsigned)j, (unsigned)depth, b) == 1);
    for (int i = 0; i < depth; i++)
      fv_check("BitDec bit", b[i] == (j >> i & 1));
    fv_check("NumRec inverts BitDec", NumRec((unsigned)depth, b) == j);
  }
  fv_check("BitDec rejects an index outside the tree", BitDec(1u << depth, (unsigned)depth, bits) == -1);
}
void ob_vc_commit(int lambda, int depth) {
  const size_t L = (size_t)lambda / 8, N = (size_t)1 << depth;
  faest_paramset_t params = faest_get_paramset((faest_paramid_t)set_of(lambda));
  vec_com_t vc;
  memset(&vc, 0xcc, sizeof vc);
  prg_contract();
  hash_contracts();
  fv_sym(root, L, "root");
  fv_sym(iv, 16, "iv");
  fv_heap_mark();
  fv_frame_begin("vector_commitment writes only its result");
  fv_assigns(&vc, sizeof vc);
  vector_commitment(root, iv, &params, (uint32_t)lambda, &vc, (uint32_t)depth);
  fv_frame_end();
  fv_heap_check("vector_commitment leaves exactly its four results", 4);
  spec_vc_commit((unsigned)lambda, (unsigned)depth, root, iv, k0, sd0, com0, h0);
  fv_eq("commit: tree nodes", vc.k, k0, L * (2 * N - 1));
  fv_eq("commit: leaf seeds", vc.sd, sd0, L * N);
  fv_eq("commit: leaf commitments", vc.com, com0, 2 * L * N);
  fv_eq("commit: hash of the commitments", vc.h, h0, 2 * L);
  vec_com_clear(&vc);
  fv_heap_check("vec_com_clear releases everything", 0);
}
// opening at every index: the sibling seeds, the commitment of the leaf, and nothing else
void ob_vc_open(int lambda, int depth) {
  const size_t L = (size_t)lambda / 8, N = (size_t)1 << depth;
  fv_sym(k0, L * (2 * N - 1), "k");
  fv_sym(com0, 2 * L * N, "com");
  for (size_t j = 0; j < N; j++) {
    for (int i = 0; i < depth; i++)
      bits[i] = j >> i & 1;
    fv_frame_begin("vector_open writes only the opening");
    fv_assigns(cop1, L * (size_t)depth);
    fv_assigns(comj1, 2 * L);
    vector_open(k0, com0, bits, cop1, comj1, (uint32_t)depth, (uint32_t)L);
    fv_frame_end();
    for (int i = 1; i <= depth; i++)
      fv_eq("open: sibling seed", cop1 + L * (size_t)(i - 1), k0 + L * spec_vc_sibling((unsigned)depth, j, (unsigned)i), L);
    fv_eq("open: commitment of the hidden leaf", comj1, com0 + 2 * L * j, 2 * L);
  }
}
static void rec_alloc(vec_com_rec_t* r, size_t L, size_t N) {
  r->h   = malloc(2 * L);
  r->k   = malloc((2 * N - 1) * L);
  r->com = malloc(N * 2 * L);
  r->s   = malloc(N * L);
}
// reconstruction for the indices lo, lo + step, .. < hi from an arbitrary opening; with honest = 1 from the opening of
// a commitment, where the leaves and the hash are those of the commitment
void ob_vc_reconstruct(int lambda, int depth, int lo, int hi, int step) {
  const size_t L = (size_t)lambda / 8, N = (size_t)1 << depth;
  prg_contract();
  hash_contracts();
  fv_sym(iv, 16, "iv");
  fv_sym(cop, L * (size_t)depth, "cop");
  fv_sym(comj, 2 * L, "com_j");
  for (size_t j = (size_t)lo; j < (size_t)hi; j += (size_t)step) {
    vec_com_rec_t r;
    rec_alloc(&r, L, N);
    for (int i = 0; i < depth; i++)
      bits[i] = j >> i & 1;
    fv_heap_mark();
    fv_frame_begin("vector_reconstruction writes only its result");
    fv_assigns(r.h, 2 * L), fv_assigns(r.k, (2 * N - 1) * L), fv_assigns(r.com, 2 * N * L), fv_assigns(r.s, N * L);
    vector_reconstruction(iv, cop, comj, bits, (uint32_t)lambda, (uint32_t)depth, &r);
    fv_frame_end();
    fv_heap_check("vector_reconstruction leaks nothing", 0);
    spec_vc_reconstruct((unsigned)lambda, (unsigned)depth, j, iv, cop, comj, k1, sd1, com1, h1);
    fv_eq("reconstruct: leaf seeds before the hidden one", r.s, sd1, L * j);
    fv_eq("reconstruct: leaf seeds after the hidden one", r.s + L * (j + 1), sd1 + L * (j + 1), L * (N - 1 - j));
    fv_eq("reconstruct: commitments", r.com, com1, 2 * L * N);
    fv_eq("reconstruct: hash", r.h, h1, 2 * L);
    fv_heap_mark();
    vec_com_rec_clear(&r);
  }
}
// lemma over the specifications: reconstructing from the opening of a commitment gives the commitment's leaves and hash
void ob_vc_consistent(int lambda, int depth, int lo, int hi, int step) {
  const size_t L = (size_t)lambda / 8, N = (size_t)1 << depth;
  fv_sym(root, L, "root");
  fv_sym(iv, 16, "iv");
  spec_vc_commit((unsigned)lambda, (unsigned)depth, root, iv, k0, sd0, com0, h0);
  for (size_t j = (size_t)lo; j < (size_t)hi; j += (size_t)step) {
    for (int i = 1; i <= depth; i++)
      memcpy(cop + L * (size_t)(i - 1), k0 + L * spec_vc_sibling((unsigned)depth, j, (unsigned)i), L);
    spec_vc_reconstruct((unsigned)lambda, (unsigned)depth, j, iv, cop, com0 + 2 * L * j, k1, sd1, com1, h1);
    fv_eq("consistent: leaf seeds before the hidden one", sd1, sd0, L * j);
    fv_eq("consistent: leaf seeds after the hidden one", sd1 + L * (j + 1), sd0 + L * (j + 1), L * (N - 1 - j));
    fv_eq("consistent: hash", h1, h0, 2 * L);
  }
}
