#include "contracts.h"
#include "faest.h"
#include "faest_aes.h"
#include "instances.h"
#include "universal_hashing.h"
#include "utils.h"
#include "vole.h"

int xor_contract(void);
typedef struct {
  const spec_params* p;
  int id;
  size_t L, n; // bytes of lambda and of ell hat
} setinfo;
static setinfo set_of(const faest_paramset_t* q) {
  const faest_param_t* f = &q->faest_param;
  setinfo r = {0, 0, 0, 0};
  for (int i = 1; i <= 12 && !r.p; i++) {
    const spec_params* s = spec_set(i);
    if (s->lambda == f->lambda && s->Nwd == f->Nwd && s->Ske == f->Ske && s->R == f->R && s->Senc == f->Senc && s->l == f->l &&
        s->Lke == f->Lke && s->Lenc == f->Lenc && s->tau == f->tau && s->k0 == f->k0 && s->k1 == f->k1 && s->t0 == f->t0 &&
        s->t1 == f->t1 && s->sig == f->sigSize && s->pk == f->pkSize)
      r = (setinfo){s, i, s->lambda / 8, s->ell_hat / 8};
  }
  fv_require("the parameters are those of one of the twelve sets", r.p != 0);
  return r;
}
// the name of a result of one set
#define NM(what) (spec_name(name_, (what), (unsigned)s.id, 0), (const char*)name_)
#define APP(g, p, n) ((g) = fv_list_append((g), (p), (n)))

// ---- contracts of the parts of signing and verification.  Each result is a function of exactly the listed bytes; which
// function it is is proved about the code by the obligations that `proves` the contract (P06, P08 - P11).
void contract_vole_commit_abs(const uint8_t* root, const uint8_t* iv, unsigned ellhat, const faest_paramset_t* ps, uint8_t* hcom,
                              vec_com_t* vc, uint8_t* c, uint8_t* u, uint8_t** v) {
  const setinfo s = set_of(ps);
  char name_[64];
  fv_require("vole_commit: length", ellhat == s.p->ell_hat);
  uint64_t g = fv_list_new();
  APP(g, root, s.L), APP(g, iv, 16);
  for (unsigned i = 0; i < s.p->tau; i++) {
    // the contents of k and com are a function of root, iv and i; L bytes stand for them
    const size_t N = (size_t)1 << spec_chal_depth(s.p, i);
    vc[i].h   = malloc(2 * s.L);
    vc[i].com = malloc(2 * s.L * N);
    vc[i].sd  = malloc(s.L * N);
    vc[i].k   = malloc(s.L * (2 * N - 1));
    fv_list_uf(NM("vole_commit_k"), g, vc[i].k, s.L * i, s.L);
    fv_list_uf(NM("vole_commit_com"), g, vc[i].com, s.L * i, s.L);
    fv_list_uf(NM("vole_commit_h"), g, vc[i].h, 2 * s.L * i, 2 * s.L);
  }
  fv_list_uf(NM("vole_commit_hcom"), g, hcom, 0, 2 * s.L);
  fv_list_uf(NM("vole_commit_u"), g, u, 0, s.n);
  fv_list_uf(NM("vole_commit_c"), g, c, 0, (s.p->tau - 1) * s.n);
  for (unsigned i = 0; i < s.p->lambda; i++)
    fv_list_uf(NM("vole_commit_v"), g, v[i], i * s.n, s.n);
}
void contract_vector_open_abs(const uint8_t* k, const uint8_t* com, const uint8_t* b, uint8_t* cop, uint8_t* com_j,
                              uint32_t depth, uint32_t L) {
  char name[64];
  for (uint32_t i = 0; i < depth; i++)
    fv_require("vector_open: index bits are bits", b[i] <= 1);
  fv_require("vector_open: depth among those proved", spec_depth_ok(8 * L, depth));
  spec_name(name, "vc_open_tok", 8 * L, depth);
  uint64_t g = fv_list_new();
  APP(g, k, L), APP(g, com, L), APP(g, b, depth);
  fv_list_uf(name, g, cop, 0, L * depth);
  fv_list_uf(name, g, com_j, L * depth, 2 * L);
}
void contract_vole_hash(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned ell, uint32_t lambda) {
  const size_t L = lambda / 8;
  uint64_t g     = fv_list_new();
  char name[64];
  int ok = 0;
  for (int i = 1; i <= 12; i++)
    ok |= spec_set(i)->lambda == lambda && spec_set(i)->l == ell;
  fv_require("vole_hash: length among those proved", ok);
  spec_name(name, "vole_hash", lambda, ell / 8);
  APP(g, sd, 5 * L + 8), APP(g, x, ell / 8 + 2 * L + 2);
  fv_list_uf(name, g, h, 0, L + 2);
}
uint8_t* contract_aes_extend_witness(const uint8_t* key, const uint8_t* in, const faest_paramset_t* ps) {
  const setinfo s = set_of(ps);
  char name_[64];
  uint8_t* w      = malloc(s.p->l / 8);
  uint64_t g      = fv_list_new();
  APP(g, key, s.L), APP(g, in, s.p->pk / 2);
  fv_list_uf(NM("witness"), g, w, 0, s.p->l / 8);
  return w;
}
void contract_aes_prove(const uint8_t* w, const uint8_t* u, uint8_t** V, const uint8_t* in, const uint8_t* out,
                        const uint8_t* chall, uint8_t* a, uint8_t* b, const faest_paramset_t* ps) {
  const setinfo s = set_of(ps);
  char name_[64];
  uint64_t g      = fv_list_new();
  APP(g, w, s.p->l / 8), APP(g, u + s.p->l / 8, s.L);
  for (unsigned i = 0; i < s.p->lambda; i++)
    APP(g, V[i], s.p->l / 8 + s.L);
  APP(g, in, s.p->pk / 2), APP(g, out, s.p->pk / 2), APP(g, chall, 3 * s.L + 8);
  fv_list_uf(NM("prove"), g, a, 0, s.L);
  fv_list_uf(NM("prove"), g, b, s.L, s.L);
}
uint8_t* contract_aes_verify(const uint8_t* d, uint8_t** Q, const uint8_t* chall_2, const uint8_t* chall_3, const uint8_t* a,
                             const uint8_t* in, const uint8_t* out, const faest_paramset_t* ps) {
  const setinfo s = set_of(ps);
  char name_[64];
  uint64_t g      = fv_list_new();
  APP(g, d, s.p->l / 8);
  for (unsigned i = 0; i < s.p->lambda; i++)
    APP(g, Q[i], s.p->l / 8 + s.L);
  APP(g, chall_2, 3 * s.L + 8), APP(g, chall_3, s.L), APP(g, a, s.L), APP(g, in, s.p->pk / 2), APP(g, out, s.p->pk / 2);
  uint8_t* q = malloc(s.L);
  fv_list_uf(NM("verify"), g, q, 0, s.L);
  for (unsigned i = 0; i < s.p->lambda; i++)
    fv_havoc(Q[i], s.n);
  return q;
}
void contract_vole_reconstruct(const uint8_t* iv, const uint8_t* chal, const uint8_t* const* pdec, const uint8_t* const* com_j,
                               uint8_t* hcom, uint8_t** q, unsigned ellhat, const faest_paramset_t* ps) {
  const setinfo s = set_of(ps);
  char name_[64];
  fv_require("vole_reconstruct: length", ellhat == s.p->ell_hat);
  uint64_t g = fv_list_new();
  APP(g, iv, 16), APP(g, chal, s.L);
  for (unsigned i = 0; i < s.p->tau; i++)
    APP(g, pdec[i], s.L * spec_chal_depth(s.p, i)), APP(g, com_j[i], 2 * s.L);
  fv_list_uf(NM("vole_reconstruct_hcom"), g, hcom, 0, 2 * s.L);
  for (unsigned i = 0; i < s.p->lambda; i++)
    fv_list_uf(NM("vole_reconstruct_q"), g, q[i], i * s.n, s.n);
}
static void sign_contracts(void) {
  hash_contracts();
  xor_contract();
  FV_CONTRACT(vole_commit, contract_vole_commit_abs);
  FV_CONTRACT(vole_reconstruct, contract_vole_reconstruct);
  FV_CONTRACT(vector_open, contract_vector_open_abs);
  FV_CONTRACT(vole_hash, contract_vole_hash);
  FV_CONTRACT(aes_extend_witness, contract_aes_extend_witness);
  FV_CONTRACT(aes_prove, contract_aes_prove);
  FV_CONTRACT(aes_verify, contract_aes_verify);
}
#define CALL(f, c) (fv_symbolic() ? c : f)

// ---- the oracles of the specification
typedef struct {
  uint64_t g;
  unsigned lambda;
} oracle;
static oracle oracle_new(setinfo s) { return (oracle){fv_list_new(), s.p->lambda}; }
static void oracle_out(oracle* o, uint8_t which, uint8_t* a, size_t na, uint8_t* b, size_t nb) {
  uint8_t dom[1] = {which};
  APP(o->g, dom, 1);
  fv_list_uf(o->lambda == 128 ? "shake128" : "shake256", o->g, a, 0, na);
  if (nb)
    fv_list_uf(o->lambda == 128 ? "shake128" : "shake256", o->g, b, na, nb);
}
// a byte string of any length: symbolic under the engine, of random length natively
typedef struct {
  uint8_t* p;
  uint64_t n;
} blob;
static blob any_blob(const char* name, int kind) { // 0: absent, 1: of any positive length, 2: present and empty, 3: null with a length
  blob b = {0, 0};
  if (kind == 1 || kind == 3) {
    fv_sym(&b.n, 8, name);
    b.n &= ((uint64_t)1 << 61) - 1;
    if (!fv_symbolic())
      b.n = b.n % 5000 + 1;
    fv_assume(b.n != 0);
  }
  if (kind == 1 || kind == 2) {
    const size_t n = fv_symbolic() ? 16 : b.n;
    b.p            = malloc(n + 1);
    fv_sym(b.p, n, name);
  }
  return b;
}
static void transcript_mu(setinfo s, uint8_t* mu, const uint8_t* in, const uint8_t* out, blob msg) {
  oracle o = oracle_new(s);
  APP(o.g, in, s.p->pk / 2), APP(o.g, out, s.p->pk / 2);
  if (msg.p)
    APP(o.g, msg.p, msg.n);
  oracle_out(&o, 1, mu, 2 * s.L, 0, 0);
}
static void transcript_1(setinfo s, uint8_t* ch, const uint8_t* mu, const uint8_t* hcom, const uint8_t* c, const uint8_t* iv) {
  oracle o = oracle_new(s);
  APP(o.g, mu, 2 * s.L), APP(o.g, hcom, 2 * s.L), APP(o.g, c, (s.p->tau - 1) * s.n), APP(o.g, iv, 16);
  oracle_out(&o, 2, ch, 5 * s.L + 8, 0, 0);
}
static void transcript_2(setinfo s, uint8_t* ch, const uint8_t* ch1, const uint8_t* ut, const uint8_t* hv, const uint8_t* d) {
  oracle o = oracle_new(s);
  APP(o.g, ch1, 5 * s.L + 8), APP(o.g, ut, s.L + 2), APP(o.g, hv, 2 * s.L), APP(o.g, d, s.p->l / 8);
  oracle_out(&o, 2, ch, 3 * s.L + 8, 0, 0);
}
static void transcript_3(setinfo s, uint8_t* ch, const uint8_t* ch2, const uint8_t* a, const uint8_t* b) {
  oracle o = oracle_new(s);
  APP(o.g, ch2, 3 * s.L + 8), APP(o.g, a, s.L), APP(o.g, b, s.L);
  oracle_out(&o, 2, ch, s.L, 0, 0);
}
// ---- layout of a signature
typedef struct {
  uint8_t *c, *u_tilde, *d, *a_tilde, *dec[32], *chall_3, *iv, *end;
} layout;
static layout layout_of(setinfo s, uint8_t* sig) {
  layout y;
  y.c       = sig;
  y.u_tilde = y.c + (s.p->tau - 1) * s.n;
  y.d       = y.u_tilde + s.L + 2;
  y.a_tilde = y.d + s.p->l / 8;
  uint8_t* q = y.a_tilde + s.L;
  for (unsigned i = 0; i < s.p->tau; i++) {
    y.dec[i] = q; // opening of depth lambda bits, then the commitment of 2 lambda bits
    q += (spec_chal_depth(s.p, i) + 2) * s.L;
  }
  y.chall_3 = q;
  y.iv      = y.chall_3 + s.L;
  y.end     = y.iv + 16;
  return y;
}
static void challenge_bits(setinfo s, unsigned i, const uint8_t* ch, uint8_t* b) {
  for (unsigned j = 0, f = spec_chal_first(s.p, i); j < spec_chal_depth(s.p, i); j++)
    b[j] = ch[(f + j) / 8] >> ((f + j) % 8) & 1;
}
void spec_sign(const faest_paramset_t* ps, uint8_t* sig, blob msg, const uint8_t* key, const uint8_t* in, const uint8_t* out,
               blob rho) {
  const setinfo s = set_of(ps);
  char name_[64];
  const layout y  = layout_of(s, sig);
  uint8_t mu[64], root[32], hcom[64], ch1[168], ch2[104], hv[64], b[32], vt[34];
  transcript_mu(s, mu, in, out, msg);
  oracle o = oracle_new(s);
  APP(o.g, key, s.L), APP(o.g, mu, 2 * s.L);
  if (rho.p)
    APP(o.g, rho.p, rho.n);
  oracle_out(&o, 3, root, s.L, y.iv, 16);
  vec_com_t* vc = calloc(s.p->tau, sizeof *vc);
  uint8_t *u = malloc(s.n), *V = malloc(s.p->lambda * s.n), *v[256];
  for (unsigned i = 0; i < s.p->lambda; i++)
    v[i] = V + i * s.n;
  CALL(vole_commit, contract_vole_commit_abs)(root, y.iv, s.p->ell_hat, ps, hcom, vc, y.c, u, v);
  transcript_1(s, ch1, mu, hcom, y.c, y.iv);
  CALL(vole_hash, contract_vole_hash)(y.u_tilde, ch1, u, s.p->l, s.p->lambda);
  o = oracle_new(s);
  for (unsigned i = 0; i < s.p->lambda; i++) {
    CALL(vole_hash, contract_vole_hash)(vt, ch1, v[i], s.p->l, s.p->lambda);
    APP(o.g, vt, s.L + 2);
  }
  oracle_out(&o, 1, hv, 2 * s.L, 0, 0);
  uint8_t* w = CALL(aes_extend_witness, contract_aes_extend_witness)(key, in, ps);
  fv_xor(y.d, w, u, s.p->l / 8);
  transcript_2(s, ch2, ch1, y.u_tilde, hv, y.d);
  CALL(aes_prove, contract_aes_prove)(w, u, v, in, out, ch2, y.a_tilde, b, ps);
  transcript_3(s, y.chall_3, ch2, y.a_tilde, b);
  for (unsigned i = 0; i < s.p->tau; i++) {
    uint8_t bits[12];
    const unsigned d = spec_chal_depth(s.p, i);
    challenge_bits(s, i, y.chall_3, bits);
    CALL(vector_open, contract_vector_open_abs)(vc[i].k, vc[i].com, bits, y.dec[i], y.dec[i] + d * s.L, d, (uint32_t)s.L);
    vec_com_clear(&vc[i]);
  }
  free(vc), free(u), free(V), free(w);
}
// 1 if the signature is to be accepted
int spec_accept(const faest_paramset_t* ps, const uint8_t* sig, blob msg, const uint8_t* in, const uint8_t* out) {
  const setinfo s = set_of(ps);
  char name_[64];
  const layout y  = layout_of(s, (uint8_t*)sig);
  uint8_t mu[64], hcom[64], ch1[168], ch2[104], ch3[32], hv[64], qt[34];
  const uint8_t *pdec[32], *com[32];
  uint8_t *Q = malloc(s.p->lambda * s.n), *q[256];
  transcript_mu(s, mu, in, out, msg);
  for (unsigned i = 0; i < s.p->lambda; i++)
    q[i] = Q + i * s.n;
  for (unsigned i = 0; i < s.p->tau; i++)
    pdec[i] = y.dec[i], com[i] = y.dec[i] + spec_chal_depth(s.p, i) * s.L;
  CALL(vole_reconstruct, contract_vole_reconstruct)(y.iv, y.chall_3, pdec, com, hcom, q, s.p->ell_hat, ps);
  transcript_1(s, ch1, mu, hcom, y.c, y.iv);
  oracle o     = oracle_new(s);
  unsigned col = 0;
  for (unsigned i = 0; i < s.p->tau; i++) {
    uint8_t bits[12];
    challenge_bits(s, i, y.chall_3, bits);
    for (unsigned j = 0; j < spec_chal_depth(s.p, i); j++, col++) {
      // instance 0 defines the mask; the others are corrected to it
      if (i)
        for (size_t k = 0; k < s.n; k++)
          q[col][k] ^= y.c[(i - 1) * s.n + k] & (uint8_t)-bits[j];
      CALL(vole_hash, contract_vole_hash)(qt, ch1, q[col], s.p->l, s.p->lambda);
      for (size_t k = 0; k < s.L + 2; k++)
        qt[k] ^= y.u_tilde[k] & (uint8_t)-bits[j];
      APP(o.g, qt, s.L + 2);
    }
  }
  oracle_out(&o, 1, hv, 2 * s.L, 0, 0);
  transcript_2(s, ch2, ch1, y.u_tilde, hv, y.d);
  uint8_t* b = CALL(aes_verify, contract_aes_verify)(y.d, q, ch2, y.chall_3, y.a_tilde, in, out, ps);
  transcript_3(s, ch3, ch2, y.a_tilde, b);
  free(b), free(Q);
  return memcmp(ch3, y.chall_3, s.L) == 0;
}
static uint8_t* sym(size_t n, const char* name) {
  uint8_t* b = malloc(n);
  fv_sym(b, n, name);
  return b;
}
// mode: message kind + 4 * randomness kind
void ob_sign(int set, int mode) {
  sign_contracts();
  const faest_paramset_t ps = faest_get_paramset((faest_paramid_t)set);
  const setinfo s           = set_of(&ps);
  uint8_t *in = sym(s.p->pk / 2, "in"), *out = sym(s.p->pk / 2, "out"), *key = sym(s.L, "key");
  const blob msg = any_blob("msg", mode & 3), rho = any_blob("rho", mode >> 2);
  uint8_t *sig = malloc(s.p->sig), *ref = malloc(s.p->sig);
  fv_heap_mark();
  fv_frame_begin("faest_sign writes only the signature");
  fv_assigns(sig, s.p->sig);
  faest_sign(sig, msg.p, msg.n, key, in, out, rho.p, rho.n, &ps);
  fv_frame_end();
  fv_heap_check("faest_sign leaks nothing", 0);
  spec_sign(&ps, ref, msg, key, in, out, rho);
  const layout y = layout_of(s, sig), r = layout_of(s, ref);
  fv_check("layout: the parts fill the signature", y.end == sig + s.p->sig && s.p->sig == ps.faest_param.sigSize);
  fv_eq("sign: corrections", y.c, r.c, (size_t)(y.u_tilde - y.c));
  fv_eq("sign: hash of the mask", y.u_tilde, r.u_tilde, s.L + 2);
  fv_eq("sign: masked witness", y.d, r.d, s.p->l / 8);
  fv_eq("sign: proof value", y.a_tilde, r.a_tilde, s.L);
  for (unsigned i = 0; i < s.p->tau; i++) {
    const unsigned d = spec_chal_depth(s.p, i);
    fv_eq("sign: opening of an instance", y.dec[i], r.dec[i], d * s.L);
    fv_eq("sign: commitment of the hidden leaf", y.dec[i] + d * s.L, r.dec[i] + d * s.L, 2 * s.L);
  }
  fv_eq("sign: challenge", y.chall_3, r.chall_3, s.L);
  fv_eq("sign: IV", y.iv, r.iv, 16);
}
void ob_verify_signature(int set, int mode) {
  sign_contracts();
  const faest_paramset_t ps = faest_get_paramset((faest_paramid_t)set);
  const setinfo s           = set_of(&ps);
  uint8_t *in = sym(s.p->pk / 2, "in"), *out = sym(s.p->pk / 2, "out");
  const blob msg = any_blob("msg", mode & 3);
  uint8_t* sig   = sym(s.p->sig, "sig");
  if (!fv_symbolic() && rand() % 3) { // natively, mostly a genuine signature, sometimes damaged
    uint8_t* key   = sym(s.L, "key");
    const blob rho = any_blob("rho", 0);
    spec_sign(&ps, sig, msg, key, in, out, rho);
    if (rand() & 1)
      sig[(size_t)rand() % s.p->sig] ^= (uint8_t)(1 << rand() % 8);
  }
  fv_heap_mark();
  fv_frame_begin("faest_verify writes nothing");
  const int r = faest_verify(msg.p, msg.n, sig, in, out, &ps);
  fv_frame_end();
  fv_heap_check("faest_verify leaks nothing", 0);
  const int a = spec_accept(&ps, sig, msg, in, out);
  fv_check("verify: accepts exactly when the recomputed challenge is the stored one", (r == 0) == a);
}

// ================================================= P21: honest signatures verify
// Contracts of the verifier's parts on inputs that come from the signer's parts.  They follow from the general contracts
// and the lemmas: matching openings give the committer's leaves but one and its hash (ob_vc_consistent), hence
// Q_i = V_i + delta_i u_i (ob_vole_lemma); the VOLE hash is additive (ob_vole_hash_linear); the verifier's value on
// correlated rows is the prover's for a witness without residuals (ob_proof_lemma, ob_witness_satisfies).
static struct {
  setinfo s;
  const uint8_t *key, *in, *out;
  uint8_t iv[16], hcom[64], *u, *v[256], *c, k[32][32], com[32][32];
  uint8_t *w, chall_2[104], chall_1[168], a[32], b[32];
  uint8_t delta[256]; // the challenge bits, column by column
  int committed, extended, proved, verifying;
  unsigned col;
} H;
static void honest_vole_commit(const uint8_t* root, const uint8_t* iv, unsigned ellhat, const faest_paramset_t* ps, uint8_t* hcom,
                               vec_com_t* vc, uint8_t* c, uint8_t* u, uint8_t** v) {
  contract_vole_commit_abs(root, iv, ellhat, ps, hcom, vc, c, u, v);
  const setinfo s = H.s;
  memcpy(H.iv, iv, 16), memcpy(H.hcom, hcom, 2 * s.L), memcpy(H.u, u, s.n), memcpy(H.c, c, (s.p->tau - 1) * s.n);
  for (unsigned i = 0; i < s.p->lambda; i++)
    memcpy(H.v[i], v[i], s.n);
  for (unsigned i = 0; i < s.p->tau; i++)
    memcpy(H.k[i], vc[i].k, s.L), memcpy(H.com[i], vc[i].com, s.L);
  H.committed++;
}
static void honest_vole_reconstruct(const uint8_t* iv, const uint8_t* chal, const uint8_t* const* pdec, const uint8_t* const* com_j,
                                    uint8_t* hcom, uint8_t** q, unsigned ellhat, const faest_paramset_t* ps) {
  const setinfo s = set_of(ps);
  fv_require("vole_reconstruct: length", ellhat == s.p->ell_hat);
  fv_require("one commitment was made", H.committed == 1 && s.id == H.s.id);
  fv_eq("the verifier uses the signer's IV", iv, H.iv, 16);
  unsigned col = 0;
  uint8_t tok[14 * 32], bits[12];
  for (unsigned i = 0; i < s.p->tau; i++) {
    const unsigned d = spec_chal_depth(s.p, i);
    challenge_bits(s, i, chal, bits);
    contract_vector_open_abs(H.k[i], H.com[i], bits, tok, tok + d * s.L, d, (uint32_t)s.L);
    fv_eq("the opening is the signer's for the challenge bits of the instance", pdec[i], tok, d * s.L);
    fv_eq("the commitment is that of the hidden leaf", com_j[i], tok + d * s.L, 2 * s.L);
    for (unsigned j = 0; j < d; j++, col++) {
      H.delta[col]    = bits[j];
      const uint8_t m = (uint8_t)-bits[j];
      for (size_t k = 0; k < s.n; k++)
        q[col][k] = H.v[col][k] ^ (m & (i ? H.u[k] ^ H.c[(i - 1) * s.n + k] : H.u[k]));
    }
  }
  memcpy(hcom, H.hcom, 2 * s.L);
  H.verifying = 1;
}
// x[k] is that of column c, for the bytes of index below n
static int same_byte(const uint8_t* x, unsigned c) {
  const uint8_t y = H.v[c][0] ^ (H.u[0] & (uint8_t)-H.delta[c]), z = x[0] ^ y;
  return fv_is_const(&z, 1) && z == 0;
}
static void honest_vole_hash(uint8_t* h, const uint8_t* sd, const uint8_t* x, unsigned ell, uint32_t lambda) {
  const setinfo s = H.s;
  unsigned c      = H.col;
  if (!H.verifying) {
    contract_vole_hash(h, sd, x, ell, lambda);
    return;
  }
  for (unsigned i = 0; i < s.p->lambda && !same_byte(x, c); i++)
    c = (c + 1) % s.p->lambda;
  H.col        = (c + 1) % s.p->lambda;
  uint8_t *y = malloc(s.n), t[34];
  for (size_t k = 0; k < s.n; k++)
    y[k] = H.v[c][k] ^ (H.u[k] & (uint8_t)-H.delta[c]);
  fv_eq("hashed column is V_i + delta_i u", x, y, s.n);
  free(y);
  contract_vole_hash(h, sd, H.v[c], ell, lambda);
  contract_vole_hash(t, sd, H.u, ell, lambda);
  for (size_t k = 0; k < s.L + 2; k++)
    h[k] ^= t[k] & (uint8_t)-H.delta[c];
}
static uint8_t* honest_extend_witness(const uint8_t* key, const uint8_t* in, const faest_paramset_t* ps) {
  fv_eq("the witness is that of the key", key, H.key, H.s.L);
  fv_eq("the witness is that of the public input", in, H.in, H.s.p->pk / 2);
  uint8_t* w = contract_aes_extend_witness(key, in, ps);
  memcpy(H.w, w, H.s.p->l / 8);
  H.extended++;
  return w;
}
static void honest_prove(const uint8_t* w, const uint8_t* u, uint8_t** V, const uint8_t* in, const uint8_t* out,
                         const uint8_t* chall, uint8_t* a, uint8_t* b, const faest_paramset_t* ps) {
  const setinfo s = H.s;
  fv_require("witness and commitment precede the proof", H.committed == 1 && H.extended == 1);
  fv_eq("proved: the witness", w, H.w, s.p->l / 8);
  fv_eq("proved: the mask", u + s.p->l / 8, H.u + s.p->l / 8, s.L);
  for (unsigned i = 0; i < s.p->lambda; i++)
    fv_eq("proved: the tags", V[i], H.v[i], s.p->l / 8 + s.L);
  fv_eq("proved: the public input", in, H.in, s.p->pk / 2);
  fv_eq("proved: the public output", out, H.out, s.p->pk / 2);
  contract_aes_prove(w, u, V, in, out, chall, a, b, ps);
  memcpy(H.chall_2, chall, 3 * s.L + 8), memcpy(H.a, a, s.L), memcpy(H.b, b, s.L);
  H.proved++;
}
static uint8_t* honest_verify(const uint8_t* d, uint8_t** Q, const uint8_t* chall_2, const uint8_t* chall_3, const uint8_t* a,
                              const uint8_t* in, const uint8_t* out, const faest_paramset_t* ps) {
  const setinfo s = set_of(ps);
  uint8_t *y = malloc(s.n), *q = malloc(s.L), bits[12];
  fv_require("a proof was made", H.proved == 1 && H.verifying && s.id == H.s.id);
  fv_xor(y, H.w, H.u, s.p->l / 8);
  fv_eq("d is the masked witness", d, y, s.p->l / 8);
  unsigned col = 0;
  for (unsigned i = 0; i < s.p->tau; i++) {
    challenge_bits(s, i, chall_3, bits);
    for (unsigned j = 0; j < spec_chal_depth(s.p, i); j++, col++) {
      for (size_t k = 0; k < s.p->l / 8 + s.L; k++)
        y[k] = H.v[col][k] ^ (H.u[k] & (uint8_t)-bits[j]);
      fv_eq("checked rows are V + Delta u", Q[col], y, s.p->l / 8 + s.L);
    }
  }
  fv_eq("same second challenge", chall_2, H.chall_2, 3 * s.L + 8);
  fv_eq("same proof value", a, H.a, s.L);
  fv_eq("same public input", in, H.in, s.p->pk / 2);
  fv_eq("same public output", out, H.out, s.p->pk / 2);
  free(y);
  memcpy(q, H.b, s.L);
  for (unsigned i = 0; i < s.p->lambda; i++)
    fv_havoc(Q[i], s.n);
  return q;
}
int api_sign_rho(int id, const uint8_t* sk, const uint8_t* m, size_t n, const uint8_t* rho, size_t rn, uint8_t* sig, size_t* len);
int api_verify(int id, const uint8_t* pk, const uint8_t* m, size_t n, const uint8_t* sig, size_t len);
int api_key_pair(int id, uint8_t* sk, uint8_t* pk);
void ob_complete(int set, int mode) {
  const faest_paramset_t ps = faest_get_paramset((faest_paramid_t)set);
  const setinfo s           = set_of(&ps);
  uint8_t *sk = malloc(s.p->sk), *pk = malloc(s.p->pk), *sig = malloc(s.p->sig);
  if (!api_key_pair(set, sk, pk))
    return;
  hash_contracts();
  xor_contract();
  FV_CONTRACT(vole_commit, honest_vole_commit);
  FV_CONTRACT(vole_reconstruct, honest_vole_reconstruct);
  FV_CONTRACT(vector_open, contract_vector_open_abs);
  FV_CONTRACT(vole_hash, honest_vole_hash);
  FV_CONTRACT(aes_extend_witness, honest_extend_witness);
  FV_CONTRACT(aes_prove, honest_prove);
  FV_CONTRACT(aes_verify, honest_verify);
  memset(&H, 0, sizeof H);
  H.s   = s;
  H.key = sk + s.p->pk / 2;
  H.in  = pk;
  H.out = pk + s.p->pk / 2;
  H.u = malloc(s.n), H.c = malloc(s.p->tau * s.n), H.w = malloc(s.p->l / 8);
  for (unsigned i = 0; i < s.p->lambda; i++)
    H.v[i] = malloc(s.n);
  const blob msg = any_blob("msg", mode & 3), rho = any_blob("rho", mode >> 2);
  size_t len = s.p->sig;
  const int r = api_sign_rho(set, sk, msg.p, msg.n, rho.p, rho.n, sig, &len);
  fv_check("an honest signer succeeds", r == 0 && len == s.p->sig);
  const int v = api_verify(set, pk, msg.p, msg.n, sig, len);
  fv_check("an honest signature verifies", v == 0);
}
