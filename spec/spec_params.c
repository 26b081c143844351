#include "spec.h"
// FAEST v1: a set is given by the security level, the one-way function family and tau; the rest follows.
static spec_params tab[13];
static int done;
static void mk(int id, const char* name, unsigned lambda, unsigned em, unsigned tau) {
  spec_params* p = &tab[id];
  unsigned beta  = (!em && lambda > 128) ? 2 : 1;
  p->name        = name;
  p->lambda      = lambda;
  p->em          = em;
  p->tau         = tau;
  p->k0          = (lambda + tau - 1) / tau;
  p->k1          = lambda / tau;
  p->t0          = lambda % tau;
  p->t1          = tau - p->t0;
  p->Nwd         = lambda / 32;
  p->R           = p->Nwd + 6;
  // S-boxes of the key schedule: 4 for every Nk-th word (and every 4th word of 256-bit keys)
  p->Ske         = em ? 0 : lambda == 128 ? 40 : lambda == 192 ? 32 : 52;
  p->Senc        = (em ? lambda / 8 : 16) * p->R;
  p->Lke         = em ? 0 : lambda + 8 * p->Ske;
  p->Lenc        = em ? lambda * p->R : 128 * (p->R - 1);
  p->l           = p->Lke + beta * p->Lenc;
  p->C           = p->Ske + beta * p->Senc;
  p->ell_hat     = p->l + 2 * lambda + 16;
  p->pk          = em ? 2 * lambda / 8 : 2 * 16 * beta;
  p->sk          = p->pk / 2 + lambda / 8;
  p->sig = (tau - 1) * p->ell_hat / 8 + (lambda + 16) / 8 + p->l / 8 + lambda / 8 +
           p->t0 * (p->k0 + 2) * lambda / 8 + p->t1 * (p->k1 + 2) * lambda / 8 + lambda / 8 + 16;
}
const spec_params* spec_set(int id) {
  if (!done) {
    mk(1, "FAEST_128S", 128, 0, 11);
    mk(2, "FAEST_128F", 128, 0, 16);
    mk(3, "FAEST_192S", 192, 0, 16);
    mk(4, "FAEST_192F", 192, 0, 24);
    mk(5, "FAEST_256S", 256, 0, 22);
    mk(6, "FAEST_256F", 256, 0, 32);
    mk(7, "FAEST_EM_128S", 128, 1, 11);
    mk(8, "FAEST_EM_128F", 128, 1, 16);
    mk(9, "FAEST_EM_192S", 192, 1, 16);
    mk(10, "FAEST_EM_192F", 192, 1, 24);
    mk(11, "FAEST_EM_256S", 256, 1, 22);
    mk(12, "FAEST_EM_256F", 256, 1, 32);
    done = 1;
  }
  return &tab[id];
}
