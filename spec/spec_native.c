// concrete meaning of the named uninterpreted functions and streams (native replay only)
#ifdef FV_NATIVE
#include "spec.h"
#include "fv.h"
#include <stdio.h>
#include <string.h>
void spec_native_uf(const char* name, uint8_t* out, size_t outlen, int nargs, const uint8_t** p, const size_t* l) {
  if (!strncmp(name, "prg", 3)) {
    spec_aes_ctr(out, p[0], p[1], (unsigned)(8 * l[0]), outlen);
    return;
  }
  fprintf(stderr, "no concrete meaning for %s\n", name);
  exit(6);
}
void spec_native_stream(const char* name, const uint8_t* in, size_t n, uint8_t* out, size_t skip, size_t len) {
  if (!strcmp(name, "shake128") || !strcmp(name, "shake256")) {
    spec_shake(name[5] == '1' ? 128 : 256, in, n, out, skip, len);
    return;
  }
  fprintf(stderr, "no concrete meaning for %s\n", name);
  exit(6);
}
#endif
