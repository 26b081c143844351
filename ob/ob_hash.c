#include "contracts.h"
#include "random_oracle.h"
#include "KeccakP-1600-SnP.h"
#include "KeccakP-1600-times4-SnP.h"

// ================================================= the permutation and the byte interface of its state
// The state of a back end is only seen through Initialize / AddByte(s) / ExtractBytes; its abstract value is the
// 200 bytes ExtractBytes returns.
static void snp_from(uint8_t* st, const uint8_t* s) {
  KeccakP1600_Initialize(st);
  KeccakP1600_AddBytes(st, s, 0, 160);
  KeccakP1600_AddBytes(st, s + 160, 160, 40);
}
static void snp_get(uint8_t* st, uint8_t* o) { // (no caller touches the last lane: the largest rate is 168 bytes)
  KeccakP1600_ExtractBytes(st, o, 0, 160);
  KeccakP1600_ExtractBytes(st, o + 160, 160, 40);
}
static ALIGN(8) uint8_t st0[200], st1[200];
static uint8_t s0[200], s1[200], d0[1024], o0[300];
void ob_snp_basic(void) {
  memset(st0, 0x5a, 200);
  KeccakP1600_Initialize(st0);
  snp_get(st0, o0);
  memset(s0, 0, 200);
  fv_eq("Keccak state: initially zero", o0, s0, 200);
  fv_sym(s0, 200, "state");
  snp_from(st0, s0);
  snp_get(st0, o0);
  fv_eq("Keccak state: AddBytes to the zero state then ExtractBytes", o0, s0, 200);
  fv_sym(d0, 1, "byte");
  for (unsigned i = 0; i < 200; i++) {
    memcpy(st1, st0, 200);
    memcpy(s1, s0, 200);
    KeccakP1600_AddByte(st1, d0[0], i);
    s1[i] ^= d0[0];
    snp_get(st1, o0);
    fv_eq("Keccak state: AddByte", o0, s1, 200);
  }
}
void ob_snp_permute(void) {
  fv_sym(s0, 200, "state");
  snp_from(st0, s0);
  fv_frame_begin("Keccak permutation writes only the state");
  fv_assigns(st0, 200);
  KeccakP1600_Permute_24rounds(st0);
  fv_frame_end();
  snp_get(st0, o0);
  spec_keccakf_def(s0);
  fv_eq("Keccak permutation: Keccak-f[1600]", o0, s0, 200);
}
// AddBytes / ExtractBytes at offsets lo..hi, every length
void ob_snp_bytes(int lo, int hi, int step) {
  fv_sym(s0, 200, "state");
  fv_sym(d0, 200, "data");
  snp_from(st0, s0);
  for (unsigned off = (unsigned)lo; off <= (unsigned)hi && off < 200; off++)
    for (unsigned len = 0; off + len < 200; len += (unsigned)step) {
      memcpy(st1, st0, 200);
      fv_frame_begin("AddBytes writes only the state");
      fv_assigns(st1, 200);
      KeccakP1600_AddBytes(st1, d0, off, len);
      fv_frame_end();
      memcpy(s1, s0, 200);
      for (unsigned i = 0; i < len; i++)
        s1[off + i] ^= d0[i];
      snp_get(st1, o0);
      fv_eq("Keccak state: AddBytes", o0, s1, 200);
      fv_frame_begin("ExtractBytes writes only its output");
      fv_assigns(o0, len);
      KeccakP1600_ExtractBytes(st0, o0, off, len);
      fv_frame_end();
      fv_eq("Keccak state: ExtractBytes", o0, s0 + off, len);
    }
}
// the block loop of a back end, where it has one
void ob_snp_fastloop(int lanes, int n) {
#if defined(KeccakF1600_FastLoop_supported)
  fv_sym(s0, 200, "state");
  fv_sym(d0, (size_t)n, "data");
  snp_from(st0, s0);
  size_t r = KeccakF1600_FastLoop_Absorb(st0, (unsigned)lanes, d0, (size_t)n);
  fv_check("block loop: consumes all whole blocks", r == (size_t)(n / (8 * lanes) * 8 * lanes));
  for (int o = 0; o + 8 * lanes <= n; o += 8 * lanes) {
    for (int i = 0; i < 8 * lanes; i++)
      s0[i] ^= d0[o + i];
    spec_keccakf_def(s0);
  }
  snp_get(st0, o0);
  fv_eq("block loop: state", o0, s0, 200);
#else
  fv_check("no block loop in this back end", 1);
#endif
}

// ---- contracts of the state interface: the state is its abstract value
void contract_KeccakP1600_Initialize(void* st) { memset(st, 0, 200); }
void contract_KeccakP1600_AddBytes(void* st, const unsigned char* d, unsigned off, unsigned len) {
  fv_require("AddBytes: inside the state", off < 200 && len < 200 - off);
  for (unsigned i = 0; i < len; i++)
    ((uint8_t*)st)[off + i] ^= d[i];
}
void contract_KeccakP1600_AddByte(void* st, unsigned char d, unsigned off) {
  fv_require("AddByte: inside the state", off < 200);
  ((uint8_t*)st)[off] ^= d;
}
void contract_KeccakP1600_ExtractBytes(const void* st, unsigned char* d, unsigned off, unsigned len) {
  fv_require("ExtractBytes: inside the state", off < 200 && len < 200 - off);
  memcpy(d, (const uint8_t*)st + off, len);
}
void contract_KeccakP1600_Permute_24rounds(void* st) { spec_keccakf(st); }
size_t contract_KeccakF1600_FastLoop_Absorb(void* st, unsigned lanes, const unsigned char* d, size_t n) {
  size_t o = 0;
  fv_require("FastLoop_Absorb: rate", lanes == 17 || lanes == 21);
  for (; n - o >= 8 * lanes; o += 8 * lanes) {
    for (unsigned i = 0; i < 8 * lanes; i++)
      ((uint8_t*)st)[i] ^= d[o + i];
    spec_keccakf(st);
  }
  return o;
}
static void snp_contracts(void) {
  FV_CONTRACT(KeccakP1600_Initialize, contract_KeccakP1600_Initialize);
  FV_CONTRACT(KeccakP1600_AddBytes, contract_KeccakP1600_AddBytes);
#if !defined(KeccakP1600_AddByte)
  FV_CONTRACT(KeccakP1600_AddByte, contract_KeccakP1600_AddByte);
#endif
  FV_CONTRACT(KeccakP1600_ExtractBytes, contract_KeccakP1600_ExtractBytes);
  FV_CONTRACT(KeccakP1600_Permute_24rounds, contract_KeccakP1600_Permute_24rounds);
#if defined(KeccakF1600_FastLoop_supported)
  FV_CONTRACT(KeccakF1600_FastLoop_Absorb, contract_KeccakF1600_FastLoop_Absorb);
#endif
}

// ================================================= the sponge behind the hash interface
// a hash instance in an arbitrary state at position pos
static Keccak_HashInstance hi, hj;
static uint8_t in0[2048], out0[2048], ref0[2048];
static int sponge_init(int bits) {
  return bits == 128 ? Keccak_HashInitialize_SHAKE128(&hi) : Keccak_HashInitialize_SHAKE256(&hi);
}
void ob_sponge_init(int bits) {
  unsigned rate = bits == 128 ? 168 : 136;
  snp_contracts();
  memset(&hi, 0x77, sizeof hi);
  int r = sponge_init(bits);
  memset(s0, 0, 200);
  fv_eq("sponge: initial state", hi.sponge.state, s0, 200);
  fv_check("sponge: initial parameters", r == 0 && hi.sponge.rate == 8 * rate && hi.sponge.byteIOIndex == 0 && !hi.sponge.squeezing);
  // padding from every position
  for (unsigned pos = 0; pos < rate; pos++) {
    unsigned p = pos;
    memcpy(&hj, &hi, sizeof hj);
    fv_sym(s0, 200, "state");
    memcpy(hj.sponge.state, s0, 200);
    hj.sponge.byteIOIndex = pos;
    r = Keccak_HashFinal(&hj, NULL);
    spec_pad(s0, &p, rate, 0x1f);
    fv_eq("sponge: padding", hj.sponge.state, s0, 200);
    fv_check("sponge: squeezing from the first byte", r == 0 && hj.sponge.byteIOIndex == 0 && hj.sponge.squeezing && hj.sponge.rate == 8 * rate);
  }
}
static const int around(int k, unsigned rate, unsigned pos) {
  unsigned c[4] = {1, rate - pos, rate, 2 * rate - pos};
  if (k < 12)
    return c[k / 3] + (unsigned)(k % 3) < 1 ? 0 : (int)(c[k / 3] + (unsigned)(k % 3)) - 1;
  return (int)(2 * rate + 3 + (unsigned)k);
}
// absorb: positions lo..hi; lengths around the block boundaries (all = 0) or every length up to 2 blocks (all = 1)
void ob_sponge_absorb(int bits, int lo, int hi_, int all) {
  unsigned rate = bits == 128 ? 168 : 136;
  snp_contracts();
  sponge_init(bits);
  fv_sym(s0, 200, "state");
  fv_sym(in0, 2 * rate + 32, "data");
  for (unsigned pos = (unsigned)lo; pos <= (unsigned)hi_ && pos < rate; pos++)
    for (int k = 0; k < (all ? (int)(2 * rate + 2) : 14); k++) {
      size_t n = all ? (size_t)k : (size_t)around(k, rate, pos);
      memcpy(&hj, &hi, sizeof hj);
      memcpy(hj.sponge.state, s0, 200);
      memcpy(s1, s0, 200);
      unsigned p            = pos;
      hj.sponge.byteIOIndex = pos;
      fv_frame_begin("absorb writes only the instance");
      fv_assigns(&hj, sizeof hj);
      int r = Keccak_HashUpdate(&hj, in0, n * 8);
      fv_frame_end();
      for (size_t i = 0; i < n; i++)
        spec_absorb_byte(s1, &p, rate, in0[i]);
      fv_eq("sponge: state after absorbing", hj.sponge.state, s1, 200);
      fv_check("sponge: position after absorbing", r == 0 && hj.sponge.byteIOIndex == p && !hj.sponge.squeezing && hj.sponge.rate == 8 * rate && hj.delimitedSuffix == 0x1f && hj.fixedOutputLength == 0);
    }
}
void ob_sponge_squeeze(int bits, int lo, int hi_, int all) {
  unsigned rate = bits == 128 ? 168 : 136;
  snp_contracts();
  sponge_init(bits);
  fv_sym(s0, 200, "state");
  for (unsigned pos = (unsigned)lo; pos <= (unsigned)hi_ && pos <= rate; pos++)
    for (int k = 0; k < (all ? (int)(2 * rate + 2) : 14); k++) {
      size_t n = all ? (size_t)k : (size_t)around(k, rate, pos);
      memcpy(&hj, &hi, sizeof hj);
      memcpy(hj.sponge.state, s0, 200);
      memcpy(s1, s0, 200);
      unsigned p            = pos;
      hj.sponge.byteIOIndex = pos;
      hj.sponge.squeezing   = 1;
      fv_frame_begin("squeeze writes only the instance and the output");
      fv_assigns(&hj, sizeof hj);
      fv_assigns(out0, n);
      int r = Keccak_HashSqueeze(&hj, out0, n * 8);
      fv_frame_end();
      for (size_t i = 0; i < n; i++)
        ref0[i] = spec_squeeze_byte(s1, &p, rate);
      fv_eq("sponge: squeezed bytes", out0, ref0, n);
      // the next byte is the continuation of the stream
      uint8_t a, b = spec_squeeze_byte(s1, &p, rate);
      Keccak_HashSqueeze(&hj, &a, 8);
      fv_eq("sponge: next squeezed byte", &a, &b, 1);
      fv_check("sponge: squeeze reports success", r == 0);
    }
}

// ================================================= four lanes
static Keccak_HashInstancetimes4 h4, g4;
static uint8_t s4[4][200], r4[4][200], in4[4][1024], out4[4][1024], ref4[4][1024];
static int sponge4_init(int bits) {
  return bits == 128 ? Keccak_HashInitializetimes4_SHAKE128(&h4) : Keccak_HashInitializetimes4_SHAKE256(&h4);
}
static void lanes_set(Keccak_HashInstancetimes4* h) {
  for (int l = 0; l < 4; l++)
    memcpy(h->sponge.state + 200 * l, s4[l], 200);
}
static void lanes_eq(const char* what, const Keccak_HashInstancetimes4* h, uint8_t s[4][200]) {
  for (int l = 0; l < 4; l++)
    fv_eq(what, h->sponge.state + 200 * l, s[l], 200);
}
void ob_sponge4_init(int bits) {
  unsigned rate = bits == 128 ? 168 : 136;
  snp_contracts();
  memset(&h4, 0x77, sizeof h4);
  int r = sponge4_init(bits);
  memset(s4, 0, sizeof s4);
  lanes_eq("sponge x4: initial state", &h4, s4);
  fv_check("sponge x4: initial parameters", r == 0 && h4.sponge.rate == 8 * rate && h4.sponge.byteIOIndex == 0 && !h4.sponge.squeezing);
  for (unsigned pos = 0; pos < rate; pos++) {
    memcpy(&g4, &h4, sizeof g4);
    for (int l = 0; l < 4; l++)
      fv_sym(s4[l], 200, "state");
    lanes_set(&g4);
    g4.sponge.byteIOIndex = pos;
    r                     = Keccak_HashFinaltimes4(&g4, NULL);
    for (int l = 0; l < 4; l++) {
      unsigned p = pos;
      spec_pad(s4[l], &p, rate, 0x1f);
    }
    lanes_eq("sponge x4: padding", &g4, s4);
    fv_check("sponge x4: squeezing from the first byte", r == 0 && g4.sponge.byteIOIndex == 0 && g4.sponge.squeezing && g4.sponge.rate == 8 * rate);
  }
}
void ob_sponge4_absorb(int bits, int lo, int hi_, int all) {
  unsigned rate = bits == 128 ? 168 : 136;
  snp_contracts();
  sponge4_init(bits);
  const uint8_t* pin[4];
  for (int l = 0; l < 4; l++) {
    fv_sym(s4[l], 200, "state");
    fv_sym(in4[l], 2 * rate + 32, "data");
    pin[l] = in4[l];
  }
  for (unsigned pos = (unsigned)lo; pos <= (unsigned)hi_ && pos < rate; pos++)
    for (int k = 0; k < (all ? (int)(2 * rate + 2) : 14); k++) {
      size_t n   = all ? (size_t)k : (size_t)around(k, rate, pos);
      unsigned p = pos;
      memcpy(&g4, &h4, sizeof g4);
      lanes_set(&g4);
      g4.sponge.byteIOIndex = pos;
      fv_frame_begin("absorb x4 writes only the instance");
      fv_assigns(&g4, sizeof g4);
      int r = Keccak_HashUpdatetimes4(&g4, pin, n * 8);
      fv_frame_end();
      for (int l = 0; l < 4; l++) {
        p = pos;
        memcpy(r4[l], s4[l], 200);
        for (size_t i = 0; i < n; i++)
          spec_absorb_byte(r4[l], &p, rate, in4[l][i]);
      }
      lanes_eq("sponge x4: state after absorbing", &g4, r4);
      fv_check("sponge x4: position after absorbing", r == 0 && g4.sponge.byteIOIndex == p && !g4.sponge.squeezing && g4.sponge.rate == 8 * rate && g4.delimitedSuffix == 0x1f && g4.fixedOutputLength == 0);
    }
}
void ob_sponge4_squeeze(int bits, int lo, int hi_, int all) {
  unsigned rate = bits == 128 ? 168 : 136;
  snp_contracts();
  sponge4_init(bits);
  uint8_t* pout[4];
  for (int l = 0; l < 4; l++) {
    fv_sym(s4[l], 200, "state");
    pout[l] = out4[l];
  }
  for (unsigned pos = (unsigned)lo; pos <= (unsigned)hi_ && pos <= rate; pos++)
    for (int k = 0; k < (all ? (int)(2 * rate + 2) : 14); k++) {
      size_t n = all ? (size_t)k : (size_t)around(k, rate, pos);
      memcpy(&g4, &h4, sizeof g4);
      lanes_set(&g4);
      g4.sponge.byteIOIndex = pos;
      g4.sponge.squeezing   = 1;
      fv_frame_begin("squeeze x4 writes only the instance and the outputs");
      fv_assigns(&g4, sizeof g4);
      for (int l = 0; l < 4; l++)
        fv_assigns(out4[l], n);
      int r = Keccak_HashSqueezetimes4(&g4, pout, n * 8);
      fv_frame_end();
      uint8_t a[4], b[4], *pa[4] = {a, a + 1, a + 2, a + 3};
      for (int l = 0; l < 4; l++) {
        unsigned p = pos;
        memcpy(r4[l], s4[l], 200);
        for (size_t i = 0; i < n; i++)
          ref4[l][i] = spec_squeeze_byte(r4[l], &p, rate);
        fv_eq("sponge x4: squeezed bytes", out4[l], ref4[l], n);
        b[l] = spec_squeeze_byte(r4[l], &p, rate);
      }
      Keccak_HashSqueezetimes4(&g4, pa, 8);
      fv_eq("sponge x4: next squeezed byte", a, b, 4);
      fv_check("sponge x4: squeeze reports success", r == 0);
    }
}

// ================================================= contracts of the hash interface: the ghost string
// The instance is represented by (string absorbed so far, output position); squeezed bytes are the next bytes of
// SHAKE128 / SHAKE256 of the string.  Composition of ob_sponge_init, _absorb and _squeeze by induction over calls.
typedef struct {
  uint64_t magic, list, pos;
  uint32_t bits, squeezing;
} ghost_hash;
typedef struct {
  uint64_t magic, list[4], pos;
  uint32_t bits, squeezing;
} ghost_hash4;
#define GM 0x6a73
HashReturn contract_Keccak_HashInitialize(Keccak_HashInstance* i, unsigned rate, unsigned cap, unsigned hl, unsigned char suffix) {
  ghost_hash g;
  fv_require("hash: SHAKE parameters", ((rate == 1344 && cap == 256) || (rate == 1088 && cap == 512)) && hl == 0 && suffix == 0x1f);
  g.magic     = GM;
  g.list      = fv_list_new();
  g.pos       = 0;
  g.bits      = rate == 1344 ? 128 : 256;
  g.squeezing = 0;
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
HashReturn contract_Keccak_HashUpdate(Keccak_HashInstance* i, const BitSequence* d, BitLength n) {
  ghost_hash g;
  memcpy(&g, i, sizeof g);
  fv_require("hash: absorbing instance", g.magic == GM && !g.squeezing);
  fv_require("hash: whole bytes", n % 8 == 0);
  if (!fv_is_const(&n, sizeof n) || n) // (a string of unknown length is appended without asking whether it is empty)
    g.list = fv_list_append(g.list, d, n / 8);
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
HashReturn contract_Keccak_HashFinal(Keccak_HashInstance* i, BitSequence* h) {
  ghost_hash g;
  memcpy(&g, i, sizeof g);
  fv_require("hash: absorbing instance", g.magic == GM && !g.squeezing);
  g.squeezing = 1;
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
HashReturn contract_Keccak_HashSqueeze(Keccak_HashInstance* i, BitSequence* d, BitLength n) {
  ghost_hash g;
  memcpy(&g, i, sizeof g);
  fv_require("hash: finalised instance", g.magic == GM && g.squeezing);
  fv_require("hash: whole bytes", n % 8 == 0);
  if (n)
    fv_list_uf(g.bits == 128 ? "shake128" : "shake256", g.list, d, g.pos, n / 8);
  g.pos += n / 8;
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
HashReturn contract_Keccak_HashInitializetimes4(Keccak_HashInstancetimes4* i, unsigned rate, unsigned cap, unsigned hl, unsigned char suffix) {
  ghost_hash4 g;
  fv_require("hash x4: SHAKE parameters", ((rate == 1344 && cap == 256) || (rate == 1088 && cap == 512)) && hl == 0 && suffix == 0x1f);
  g.magic = GM;
  for (int l = 0; l < 4; l++)
    g.list[l] = fv_list_new();
  g.pos       = 0;
  g.bits      = rate == 1344 ? 128 : 256;
  g.squeezing = 0;
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
HashReturn contract_Keccak_HashUpdatetimes4(Keccak_HashInstancetimes4* i, const BitSequence** d, BitLength n) {
  ghost_hash4 g;
  memcpy(&g, i, sizeof g);
  fv_require("hash x4: absorbing instance", g.magic == GM && !g.squeezing);
  fv_require("hash x4: whole bytes", n % 8 == 0);
  if (n)
    for (int l = 0; l < 4; l++)
      g.list[l] = fv_list_append(g.list[l], d[l], n / 8);
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
HashReturn contract_Keccak_HashFinaltimes4(Keccak_HashInstancetimes4* i, BitSequence** h) {
  ghost_hash4 g;
  memcpy(&g, i, sizeof g);
  fv_require("hash x4: absorbing instance", g.magic == GM && !g.squeezing);
  g.squeezing = 1;
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
HashReturn contract_Keccak_HashSqueezetimes4(Keccak_HashInstancetimes4* i, BitSequence** d, BitLength n) {
  ghost_hash4 g;
  memcpy(&g, i, sizeof g);
  fv_require("hash x4: finalised instance", g.magic == GM && g.squeezing);
  fv_require("hash x4: whole bytes", n % 8 == 0);
  if (n)
    for (int l = 0; l < 4; l++)
      fv_list_uf(g.bits == 128 ? "shake128" : "shake256", g.list[l], d[l], g.pos, n / 8);
  g.pos += n / 8;
  memcpy(i, &g, sizeof g);
  return KECCAK_SUCCESS;
}
void hash_contracts(void) {
  FV_CONTRACT(Keccak_HashInitialize, contract_Keccak_HashInitialize);
  FV_CONTRACT(Keccak_HashUpdate, contract_Keccak_HashUpdate);
  FV_CONTRACT(Keccak_HashFinal, contract_Keccak_HashFinal);
  FV_CONTRACT(Keccak_HashSqueeze, contract_Keccak_HashSqueeze);
  FV_CONTRACT(Keccak_HashInitializetimes4, contract_Keccak_HashInitializetimes4);
  FV_CONTRACT(Keccak_HashUpdatetimes4, contract_Keccak_HashUpdatetimes4);
  FV_CONTRACT(Keccak_HashFinaltimes4, contract_Keccak_HashFinaltimes4);
  FV_CONTRACT(Keccak_HashSqueezetimes4, contract_Keccak_HashSqueezetimes4);
}

// ================================================= the oracles H0..H3
static const size_t lens[5] = {0, 1, 33, 200, 7};
void ob_oracle(int which, int lambda) {
  static uint8_t in[5][200], o1[400], o2[400], ref[800];
  static H0_context_t c0;
  static H1_context_t c1;
  static H2_context_t c2;
  static H3_context_t c3;
  static const uint8_t dom[4] = {0, 1, 2, 3};
  hash_contracts();
  memset(&c0, 0xcc, sizeof c0), memset(&c1, 0xcc, sizeof c1), memset(&c2, 0xcc, sizeof c2), memset(&c3, 0xcc, sizeof c3);
  for (int i = 0; i < 5; i++)
    fv_sym(in[i], lens[i], "in");
  uint64_t g = fv_list_new();
  size_t n1 = (size_t)lambda / 8, n2 = 0;
  for (int i = 0; i < 5; i++)
    if (lens[i])
      g = fv_list_append(g, in[i], lens[i]);
  g = fv_list_append(g, &dom[which], 1);
  for (int m = 0; m < 4; m++) { // output lengths
    n1 = m == 0 ? (size_t)lambda / 8 : m == 1 ? (size_t)lambda / 4 : m == 2 ? 5 * (size_t)lambda / 8 + 8 : 0;
    n2 = which == 0 ? (size_t)lambda / 4 : which == 3 ? 16 : 0;
    for (int i = -1; i <= 5; i++)
      switch (which) {
      case 0: i < 0 ? H0_init(&c0, (unsigned)lambda) : i < 5 ? H0_update(&c0, in[i], lens[i]) : H0_final(&c0, o1, n1, o2, n2); break;
      case 1: i < 0 ? H1_init(&c1, (unsigned)lambda) : i < 5 ? H1_update(&c1, in[i], lens[i]) : H1_final(&c1, o1, n1); break;
      case 2: i < 0 ? H2_init(&c2, (unsigned)lambda) : i < 5 ? H2_update(&c2, in[i], lens[i]) : H2_final(&c2, o1, n1); break;
      default: i < 0 ? H3_init(&c3, (unsigned)lambda) : i < 5 ? H3_update(&c3, in[i], lens[i]) : H3_final(&c3, o1, n1, o2); break;
      }
    fv_list_uf(lambda == 128 ? "shake128" : "shake256", g, ref, 0, n1 + n2);
    fv_eq("oracle: first output", o1, ref, n1);
    fv_eq("oracle: second output continues the stream", o2, ref + n1, n2);
  }
}
// inputs of any length (below 2^61 bytes): exactly the given number of bytes is absorbed
static void oracle_one(int which, int lambda, const uint8_t* d, size_t n, size_t step, uint8_t* o, size_t no) {
  static H0_context_t c0;
  static H1_context_t c1;
  static H2_context_t c2;
  static H3_context_t c3;
  size_t i = 0;
  which == 0   ? H0_init(&c0, (unsigned)lambda)
  : which == 1 ? H1_init(&c1, (unsigned)lambda)
  : which == 2 ? H2_init(&c2, (unsigned)lambda)
               : H3_init(&c3, (unsigned)lambda);
  do {
    const size_t k = step && n - i > step ? step : n - i;
    which == 0 ? H0_update(&c0, d + i, k) : which == 1 ? H1_update(&c1, d + i, k) : which == 2 ? H2_update(&c2, d + i, k) : H3_update(&c3, d + i, k);
    i += k;
  } while (step && i < n);
  which == 0   ? H0_final(&c0, o, no - 16, o + no - 16, 16)
  : which == 1 ? H1_final(&c1, o, no)
  : which == 2 ? H2_final(&c2, o, no)
               : H3_final(&c3, o, no - 16, o + no - 16);
}
#ifdef FV_NATIVE
#include <sys/mman.h>
#endif
void ob_oracle_length(int which, int lambda) {
  static uint8_t o[80], ref[80];
  const size_t no = 2 * (size_t)lambda / 8 + 16;
  size_t n;
  fv_sym(&n, sizeof n, "length");
  n &= ((size_t)1 << 61) - 1;
#ifdef FV_NATIVE
  // one call against calls of at most 4096 bytes, which ob_oracle and the sponge obligations cover
  static const size_t sizes[6] = {((size_t)1 << 29) + 5, ((size_t)1 << 29) + 77, 65539, ((size_t)1 << 31) + 3, 1000003, ((size_t)1 << 32) + 3};
  n                            = sizes[n % 6];
  const uint8_t* d             = mmap(NULL, n + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  fv_require("map", d != MAP_FAILED);
  oracle_one(which, lambda, d, n, 4096, ref, no);
  oracle_one(which, lambda, d, n, 0, o, no);
#else
  hash_contracts();
  uint8_t* d             = malloc(16);
  static const uint8_t dom[4] = {0, 1, 2, 3};
  fv_sym(d, 16, "in");
  oracle_one(which, lambda, d, n, 0, o, no);
  uint64_t g = fv_list_append(fv_list_new(), d, n);
  g          = fv_list_append(g, &dom[which], 1);
  fv_list_uf(lambda == 128 ? "shake128" : "shake256", g, ref, 0, no);
#endif
  fv_eq("oracle: an input of any length is absorbed completely", o, ref, no);
}
void ob_oracle_x4(int lambda) {
  static uint8_t in[5][4][200], o[8][400], ref[800];
  static H0_context_x4_t c;
  static const uint8_t dom = 0;
  hash_contracts();
  memset(&c, 0xcc, sizeof c);
  for (int i = 0; i < 5; i++)
    for (int l = 0; l < 4; l++)
      fv_sym(in[i][l], lens[i], "in");
  size_t n1 = (size_t)lambda / 8, n2 = (size_t)lambda / 4;
  H0_x4_init(&c, (unsigned)lambda);
  for (int i = 0; i < 5; i++)
    H0_x4_update(&c, in[i][0], in[i][1], in[i][2], in[i][3], lens[i]);
  H0_x4_final(&c, o[0], o[1], o[2], o[3], n1, o[4], o[5], o[6], o[7], n2);
  for (int l = 0; l < 4; l++) {
    uint64_t g = fv_list_new();
    for (int i = 0; i < 5; i++)
      if (lens[i])
        g = fv_list_append(g, in[i][l], lens[i]);
    g = fv_list_append(g, &dom, 1);
    fv_list_uf(lambda == 128 ? "shake128" : "shake256", g, ref, 0, n1 + n2);
    fv_eq("oracle x4: seed of a lane", o[l], ref, n1);
    fv_eq("oracle x4: commitment of a lane", o[4 + l], ref + n1, n2);
  }
}

#ifdef FV_NATIVE
// replay of a long-input counterexample of cbmc/absorb.c: one call with n zero bytes at position p against the same
// bytes fed in pieces of at most 4096 bytes (which the other obligations cover)
#include <sys/mman.h>
void ob_absorb_long(int s128, int p, int n2, int n1, int n0) {
  size_t n         = ((size_t)n2 << 32) | ((size_t)n1 << 16) | (size_t)n0;
  const uint8_t* z = mmap(NULL, n + 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  static Keccak_HashInstance a, b;
  uint8_t x[64], y[64];
  fv_require("map", z != MAP_FAILED);
  for (Keccak_HashInstance* h = &a;; h = &b) {
    if (s128)
      Keccak_HashInitialize_SHAKE128(h);
    else
      Keccak_HashInitialize_SHAKE256(h);
    Keccak_HashUpdate(h, z, (size_t)p << 3);
    if (h == &b)
      break;
  }
  Keccak_HashUpdate(&a, z, n << 3);
  for (size_t i = 0; i < n; i += 4096)
    Keccak_HashUpdate(&b, z, (n - i < 4096 ? n - i : 4096) << 3);
  Keccak_HashFinal(&a, NULL);
  Keccak_HashFinal(&b, NULL);
  Keccak_HashSqueeze(&a, x, sizeof(x) << 3);
  Keccak_HashSqueeze(&b, y, sizeof(y) << 3);
  fv_check("long input: the digest does not depend on how the input is cut", memcmp(x, y, sizeof x) == 0);
}
#endif
