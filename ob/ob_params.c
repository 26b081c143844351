// Parameter sets (P17).
#include "contracts.h"
#include "instances.h"
#include "aes.h"
#include "parameters.h"
#include "faest_128s.h"
#include "faest_128f.h"
#include "faest_192s.h"
#include "faest_192f.h"
#include "faest_256s.h"
#include "faest_256f.h"
#include "faest_em_128s.h"
#include "faest_em_128f.h"
#include "faest_em_192s.h"
#include "faest_em_192f.h"
#include "faest_em_256s.h"
#include "faest_em_256f.h"
typedef struct {
  unsigned pk, sk, sig, cpk, csk, csig;
  const char* name;
} pub;
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_128s/api.h"
static const pub pub_1 = {FAEST_128S_PUBLIC_KEY_SIZE, FAEST_128S_PRIVATE_KEY_SIZE, FAEST_128S_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_128f/api.h"
static const pub pub_2 = {FAEST_128F_PUBLIC_KEY_SIZE, FAEST_128F_PRIVATE_KEY_SIZE, FAEST_128F_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_192s/api.h"
static const pub pub_3 = {FAEST_192S_PUBLIC_KEY_SIZE, FAEST_192S_PRIVATE_KEY_SIZE, FAEST_192S_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_192f/api.h"
static const pub pub_4 = {FAEST_192F_PUBLIC_KEY_SIZE, FAEST_192F_PRIVATE_KEY_SIZE, FAEST_192F_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_256s/api.h"
static const pub pub_5 = {FAEST_256S_PUBLIC_KEY_SIZE, FAEST_256S_PRIVATE_KEY_SIZE, FAEST_256S_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_256f/api.h"
static const pub pub_6 = {FAEST_256F_PUBLIC_KEY_SIZE, FAEST_256F_PRIVATE_KEY_SIZE, FAEST_256F_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_em_128s/api.h"
static const pub pub_7 = {FAEST_EM_128S_PUBLIC_KEY_SIZE, FAEST_EM_128S_PRIVATE_KEY_SIZE, FAEST_EM_128S_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_em_128f/api.h"
static const pub pub_8 = {FAEST_EM_128F_PUBLIC_KEY_SIZE, FAEST_EM_128F_PRIVATE_KEY_SIZE, FAEST_EM_128F_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_em_192s/api.h"
static const pub pub_9 = {FAEST_EM_192S_PUBLIC_KEY_SIZE, FAEST_EM_192S_PRIVATE_KEY_SIZE, FAEST_EM_192S_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_em_192f/api.h"
static const pub pub_10 = {FAEST_EM_192F_PUBLIC_KEY_SIZE, FAEST_EM_192F_PRIVATE_KEY_SIZE, FAEST_EM_192F_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_em_256s/api.h"
static const pub pub_11 = {FAEST_EM_256S_PUBLIC_KEY_SIZE, FAEST_EM_256S_PRIVATE_KEY_SIZE, FAEST_EM_256S_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
#undef CRYPTO_SECRETKEYBYTES
#undef CRYPTO_PUBLICKEYBYTES
#undef CRYPTO_BYTES
#undef CRYPTO_ALGNAME
#undef API_H
#undef api_h
#include "faest_em_256f/api.h"
static const pub pub_12 = {FAEST_EM_256F_PUBLIC_KEY_SIZE, FAEST_EM_256F_PRIVATE_KEY_SIZE, FAEST_EM_256F_SIGNATURE_SIZE, CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME};
static const pub* const pubs[13] = {0, &pub_1, &pub_2, &pub_3, &pub_4, &pub_5, &pub_6, &pub_7, &pub_8, &pub_9, &pub_10, &pub_11, &pub_12};
static const char* const algs[13] = {"", "faest_128s", "faest_128f", "faest_192s", "faest_192f", "faest_256s", "faest_256f", "faest_em_128s", "faest_em_128f", "faest_em_192s", "faest_em_192f", "faest_em_256s", "faest_em_256f"};

void ob_params(int id) {
  const spec_params* s = spec_set(id);
  faest_paramset_t ps  = faest_get_paramset((faest_paramid_t)id);
  const faest_param_t* p = &ps.faest_param;
  fv_check("lookup: the identifier", (int)ps.faest_paramid == id);
  fv_check("security level", p->lambda == s->lambda);
  fv_check("key words", p->Nwd == s->Nwd);
  fv_check("rounds", p->R == s->R);
  fv_check("S-boxes of the key schedule", p->Ske == s->Ske);
  fv_check("S-boxes of one encryption", p->Senc == s->Senc);
  fv_check("witness length", p->l == s->l);
  fv_check("witness length of the key schedule", p->Lke == s->Lke);
  fv_check("witness length of one encryption", p->Lenc == s->Lenc);
  fv_check("repetitions", p->tau == s->tau);
  fv_check("depths", p->k0 == s->k0 && p->k1 == s->k1);
  fv_check("numbers of trees of either depth", p->t0 == s->t0 && p->t1 == s->t1);
  fv_check("the trees cover the challenge", p->t0 * p->k0 + p->t1 * p->k1 == p->lambda && p->t0 + p->t1 == p->tau);
  fv_check("signature size", p->sigSize == s->sig);
  fv_check("public key size", p->pkSize == s->pk);
  fv_check("depth capacity", p->k0 <= MAX_DEPTH && p->k1 <= MAX_DEPTH);
  fv_check("tau capacity", p->tau <= MAX_TAU);
  fv_check("lambda capacity", p->lambda <= MAX_LAMBDA && MAX_LAMBDA_BYTES * 8 == MAX_LAMBDA);
  fv_check("round capacity", p->R <= AES_MAX_ROUNDS);
  fv_check("universal hash and IV sizes", UNIVERSAL_HASH_B_BITS == 16 && UNIVERSAL_HASH_B == 2 && IV_SIZE == 16);
  const pub* b = pubs[id];
  fv_check("published public key size", b->pk == s->pk && b->cpk == s->pk);
  fv_check("published secret key size", b->sk == s->sk && b->csk == s->sk);
  fv_check("published signature size", b->sig == s->sig && b->csig == s->sig);
  fv_check("name", !strcmp(faest_get_param_name((faest_paramid_t)id), s->name));
  fv_check("name of the NIST-style interface", !strcmp(b->name, algs[id]));
}
// every other identifier
void ob_params_invalid(void) {
  unsigned id;
  fv_sym(&id, sizeof id, "id");
  fv_assume(id < 1 || id > 12);
  faest_paramset_t ps = faest_get_paramset((faest_paramid_t)id);
  faest_param_t zero;
  memset(&zero, 0, sizeof zero);
  fv_check("lookup of another identifier: invalid", ps.faest_paramid == PARAMETER_SET_INVALID);
  fv_check("lookup of another identifier: no parameters", ps.faest_param.lambda == 0 && ps.faest_param.tau == 0 && ps.faest_param.sigSize == 0);
}
