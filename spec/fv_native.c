// Concrete meaning of the specification primitives (replay of counterexamples, sampling).
#include "fv.h"
#include "spec.h"
#include <stdarg.h>
#include <stdio.h>

static uint64_t rng;
static int mode;
static const char* model_path;
static unsigned long eqs, fails;
static uint64_t rnd(void) {
  rng ^= rng << 13;
  rng ^= rng >> 7;
  rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1Dull;
}
typedef struct {
  char name[64];
  uint32_t idx;
  uint8_t val, mask;
} ment;
static ment* ments;
static size_t nments;
static void load_model(void) {
  if (!model_path)
    return;
  FILE* f = fopen(model_path, "r");
  if (!f)
    return;
  char nm[64];
  unsigned i, v, m;
  while (fscanf(f, "%63s %u %u %u", nm, &i, &v, &m) == 4) {
    ments = realloc(ments, (nments + 1) * sizeof(ment));
    snprintf(ments[nments].name, 64, "%s", nm);
    ments[nments].idx  = i;
    ments[nments].val  = v;
    ments[nments].mask = m;
    nments++;
  }
  fclose(f);
}
static struct {
  char n[64];
  unsigned c;
} cnts[256];
static unsigned ncnts;
void fv_sym(void* p, size_t n, const char* name) {
  char full[64];
  unsigned k = 0, i;
  for (i = 0; i < ncnts; i++)
    if (!strcmp(cnts[i].n, name))
      break;
  if (i == ncnts && ncnts < 256)
    snprintf(cnts[ncnts++].n, 64, "%s", name);
  if (i < 256)
    k = cnts[i].c++;
  if (k)
    snprintf(full, sizeof full, "%s#%u", name, k);
  else
    snprintf(full, sizeof full, "%s", name);
  uint8_t* b = p;
  for (size_t j = 0; j < n; j++) {
    switch (mode & 3) {
    case 0: b[j] = rnd() >> 32; break;
    case 1: b[j] = (rnd() >> 40) % 8 ? 0 : rnd() >> 32; break;
    case 2: b[j] = (rnd() >> 40) % 8 ? 0xff : rnd() >> 32; break;
    default: b[j] = (rnd() >> 40) & 1 ? 0 : 1u << ((rnd() >> 33) & 7); break;
    }
  }
  for (size_t m = 0; m < nments; m++)
    if (!strcmp(ments[m].name, full) && ments[m].idx < n)
      b[ments[m].idx] = (b[ments[m].idx] & ~ments[m].mask) | (ments[m].val & ments[m].mask);
}
static void fail(const char* label, const char* how) {
  if (fails++ < 5)
    printf("REPLAY-MISMATCH %s: %s\n", label, how);
}
void fv_eq(const char* label, const void* a, const void* b, size_t n) {
  eqs++;
  const uint8_t *x = a, *y = b;
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i]) {
      char buf[512];
      size_t o = snprintf(buf, sizeof buf, "byte %zu of %zu differs: code ", i, n);
      for (size_t j = i; j < n && j < i + 16; j++)
        o += snprintf(buf + o, sizeof buf - o, "%02x", x[j]);
      o += snprintf(buf + o, sizeof buf - o, " specification ");
      for (size_t j = i; j < n && j < i + 16; j++)
        o += snprintf(buf + o, sizeof buf - o, "%02x", y[j]);
      fail(label, buf);
      return;
    }
}
void fv_check(const char* label, int c) {
  eqs++;
  if (!c)
    fail(label, "condition is false");
}
void fv_require(const char* label, int c) {
  if (!c)
    fail(label, "precondition is false");
}
void fv_assume(int c) {
  if (!c)
    exit(0);
}
void fv_cover(const char* l) { (void)l; }
void fv_contract(fv_fn a, fv_fn b) { (void)a, (void)b; }
void fv_nocontract(fv_fn a) { (void)a; }
fv_fn fv_find_static(const char* n, fv_fn a) { return NULL; }
int fv_contract_static(const char* n, fv_fn a) { return 0; }
long fv_member(const char* t, const char* m) { return -1; }
void fv_havoc(void* p, size_t n) { (void)p, (void)n; }
void fv_frame_begin(const char* l) { (void)l; }
void fv_assigns(const void* p, size_t n) { (void)p, (void)n; }
void fv_frame_end(void) {}
// only what the code under proof allocates between mark and check is subject to the leak check at exit
void __lsan_disable(void);
void __lsan_enable(void);
static int lsan_on;
void fv_heap_mark(void) {
  if (!lsan_on++)
    __lsan_enable();
}
void fv_heap_check(const char* l, size_t e) {
  (void)l, (void)e;
  if (lsan_on && !--lsan_on)
    __lsan_disable();
}
void fv_loop_point(void) {}
int fv_symbolic(void) { return 0; }
void fv_log(const char* s, uint64_t x) { (void)s, (void)x; }
uint8_t fv_uf8(const char* name, const uint8_t* table, uint8_t x) {
  (void)name;
  if (!table)
    abort();
  return table[x];
}
void fv_gfmul(void* out, const void* a, const void* b, size_t nb) { spec_gfmul_def(out, a, b, nb); }
void fv_xor(void* o, const void* a, const void* b, size_t n) {
  for (size_t i = 0; i < n; i++)
    ((uint8_t*)o)[i] = ((const uint8_t*)a)[i] ^ ((const uint8_t*)b)[i];
}
void fv_uf(const char* name, void* out, size_t outlen, int nargs, ...) {
  const uint8_t* p[16];
  size_t l[16];
  va_list ap;
  va_start(ap, nargs);
  for (int i = 0; i < nargs && i < 16; i++) {
    p[i] = va_arg(ap, const uint8_t*);
    l[i] = va_arg(ap, size_t);
  }
  va_end(ap);
  spec_native_uf(name, out, outlen, nargs, p, l);
}
// ghost lists
static struct {
  uint8_t* d;
  size_t n;
}* lists;
static size_t nlists;
int fv_is_const(const void* p, size_t n) { return (void)p, (void)n, 1; }
uint64_t fv_list_new(void) {
  lists           = realloc(lists, (nlists + 1) * sizeof *lists);
  lists[nlists].d = NULL;
  lists[nlists].n = 0;
  return nlists++;
}
uint64_t fv_list_append(uint64_t l, const void* p, size_t n) {
  uint64_t r = fv_list_new();
  lists[r].n = lists[l].n + n;
  lists[r].d = malloc(lists[r].n + 1);
  if (lists[l].n)
    memcpy(lists[r].d, lists[l].d, lists[l].n);
  if (n)
    memcpy(lists[r].d + lists[l].n, p, n);
  return r;
}
void fv_list_uf(const char* name, uint64_t l, void* out, size_t skip, size_t n) {
  spec_native_stream(name, lists[l].d, lists[l].n, out, skip, n);
}

void fv_entry(const char* entry, const uint64_t* args);
int main(int argc, char** argv) {
  // usage: prog entry seed mode model|- args...
  if (argc < 5)
    return 4;
  __lsan_disable();
  rng  = strtoull(argv[2], NULL, 0) * 0x9e3779b97f4a7c15ull + 0x1234567;
  mode = atoi(argv[3]);
  if (strcmp(argv[4], "-"))
    model_path = argv[4];
  for (int i = 0; i < 16; i++)
    rnd();
  load_model();
  uint64_t args[8] = {0};
  for (int i = 5; i < argc && i < 13; i++)
    args[i - 5] = strtoull(argv[i], NULL, 0);
  fv_entry(argv[1], args);
  printf("REPLAY checks=%lu mismatches=%lu\n", eqs, fails);
  return fails ? 1 : 0;
}
