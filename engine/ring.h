// Ring normalisation of products in GF(2^8n) (--ring).
//
// Every bit b gets a value val_F(b) in F = GF(2^(8 nb)): a pseudo-random element for an atom, the product for a
// conjunction, the sum for an XOR.  A byte string v of nb bytes denotes the field element sum_i bit_i(v) X^i and so
// val_F(v) = sum_i val_F(bit_i(v)) X^i.  Byte k of the product of x and y is an atom that is a function of
// p = val_F(x) val_F(y) alone, through linear maps B_k with sum_k X^(8k) B_k(p) = p and a linear fingerprint A_k(p).
// Every value is thus the evaluation, at a pseudo-random point, of a formal expression over F in the input bits, and
// the assignment "atom -> its bit, B_k -> the real byte-extraction maps" is one of the points: an identity of the
// formal expressions is an identity of the field elements.  Associativity, commutativity and distributivity come out
// as identities; equality of two values is mistaken with probability about 2^-128.
#pragma once
#include "term.h"

struct RV {
  uint64_t w[4];
  bool operator==(const RV& o) const { return !memcmp(w, o.w, sizeof w); }
  RV operator^(const RV& o) const { return {w[0] ^ o.w[0], w[1] ^ o.w[1], w[2] ^ o.w[2], w[3] ^ o.w[3]}; }
  bool zero() const { return !(w[0] | w[1] | w[2] | w[3]); }
};

static uint64_t ring_rnd(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  return mix64(mix64(mix64(mix64(a + 0x52494e47) ^ b) + c * 0x9e3779b97f4a7c15ull) ^ (d * 0xd1342543de82ef95ull + 1));
}

struct RingProd { // a product atom: app -> value
  unsigned nb;
  RV p;
};
static std::unordered_map<uint32_t, RingProd> ring_prods; // by app id

struct RingField {
  Terms& T;
  unsigned nb, nw; // bytes, words
  uint32_t poly;
  std::unordered_map<uint32_t, RV> bitm, bytem;
  // linear maps of products of field `from` (bytes) into values of this field, and into fingerprints
  struct Maps {
    std::vector<RV> val; // [k][byte][256]
  };
  std::map<unsigned, Maps> maps;
  std::vector<Fp> fpmaps; // own products: [k][byte][256]
  RingField(Terms& t, unsigned n, uint32_t po) : T(t), nb(n), nw(n / 8), poly(po) {}

  RV rnd(uint64_t a, uint64_t b, uint64_t c) const {
    RV r{};
    for (unsigned i = 0; i < nw; i++)
      r.w[i] = ring_rnd(nb * 1000 + i, a, b, c);
    return r;
  }
  RV mulx8(const RV& a) const { // times X^8
    RV r{};
    uint64_t top = a.w[nw - 1] >> 56;
    for (unsigned i = nw; i-- > 0;)
      r.w[i] = (a.w[i] << 8) | (i ? a.w[i - 1] >> 56 : 0);
    uint64_t red = 0;
    for (int j = 0; j < 8; j++)
      if (top >> j & 1)
        red ^= (uint64_t)poly << j;
    r.w[0] ^= red;
    return r;
  }
  RV mulx(const RV& a) const {
    RV r{};
    uint64_t top = a.w[nw - 1] >> 63;
    for (unsigned i = nw; i-- > 0;)
      r.w[i] = (a.w[i] << 1) | (i ? a.w[i - 1] >> 63 : 0);
    if (top)
      r.w[0] ^= poly;
    return r;
  }
  RV mul(const RV& a, const RV& b) const {
    RV t[256 / 16]; // 4-bit window
    t[0] = RV{};
    t[1] = a;
    for (int i = 2; i < 16; i += 2) {
      t[i]     = mulx(t[i / 2]);
      t[i + 1] = t[i] ^ a;
    }
    RV r{};
    for (unsigned k = nb; k-- > 0;) {
      uint8_t c = b.w[k / 8] >> (8 * (k % 8));
      r         = mulx8(r);
      RV hi     = t[c >> 4];
      for (int i = 0; i < 4; i++)
        hi = mulx(hi);
      r = r ^ hi ^ t[c & 15];
    }
    return r;
  }
  static uint8_t byteof(const RV& p, unsigned i) { return p.w[i / 8] >> (8 * (i % 8)); }
  Maps& getmaps(unsigned from) {
    auto it = maps.find(from);
    if (it != maps.end())
      return it->second;
    Maps& m = maps[from];
    m.val.assign((size_t)from * from * 256, RV{});
    for (unsigned k = from == nb ? 1 : 0; k < from; k++)
      for (unsigned i = 0; i < from; i++) {
        RV* t = &m.val[((size_t)k * from + i) * 256];
        for (int j = 0; j < 8; j++)
          t[1 << j] = rnd(0x6d617073 + from, k * 64 + i, j);
        for (int v = 1; v < 256; v++)
          if (v & (v - 1))
            t[v] = t[v & (v - 1)] ^ t[v & -v];
      }
    if (from == nb) // B_0(p) = p - sum_{k>0} X^(8k) B_k(p)
      for (unsigned i = 0; i < nb; i++)
        for (int v = 0; v < 256; v++) {
          RV s{};
          for (unsigned k = nb; k-- > 1;)
            s = mulx8(s ^ m.val[((size_t)k * from + i) * 256 + v]);
          RV p{};
          p.w[i / 8] = (uint64_t)v << (8 * (i % 8));
          m.val[(size_t)i * 256 + v] = s ^ p;
        }
    return m;
  }
  RV prodbyte(const RingProd& pr, unsigned k) {
    Maps& m = getmaps(pr.nb);
    RV r{};
    for (unsigned i = 0; i < pr.nb; i++)
      r = r ^ m.val[((size_t)k * pr.nb + i) * 256 + byteof(pr.p, i)];
    return r;
  }
  Fp prodfp(const RV& p, unsigned k) {
    if (fpmaps.empty()) {
      fpmaps.assign((size_t)nb * nb * 256, Fp{0, 0});
      for (unsigned q = 0; q < nb; q++)
        for (unsigned i = 0; i < nb; i++) {
          Fp* t = &fpmaps[((size_t)q * nb + i) * 256];
          for (int j = 0; j < 8; j++)
            t[1 << j] = Fp{ring_rnd(nb, 0xf1, q * 64 + i, j), ring_rnd(nb, 0xf2, q * 64 + i, j)};
          for (int v = 1; v < 256; v++)
            if (v & (v - 1))
              t[v] = t[v & (v - 1)] ^ t[v & -v];
        }
    }
    Fp r{0, 0};
    for (unsigned i = 0; i < nb; i++)
      r = r ^ fpmaps[((size_t)k * nb + i) * 256 + byteof(p, i)];
    return r;
  }
  RV one() const {
    RV r{};
    r.w[0] = 1;
    return r;
  }
  // value of a node (positive literal)
  RV node(uint32_t id) {
    auto it = bitm.find(id);
    if (it != bitm.end())
      return it->second;
    std::vector<uint32_t> st{id};
    while (!st.empty()) {
      uint32_t n = st.back();
      if (bitm.count(n)) {
        st.pop_back();
        continue;
      }
      const Node nd = T.nodes[n];
      uint32_t ch[2];
      int nc = 0;
      if (nd.kind == N_XOR || nd.kind == N_AND)
        ch[0] = nd.a >> 1, ch[1] = nd.b >> 1, nc = 2;
      else if (nd.kind == N_MONO)
        ch[0] = nd.a, ch[1] = nd.b, nc = 2;
      bool ready = true;
      for (int i = 0; i < nc; i++)
        if (!bitm.count(ch[i])) {
          st.push_back(ch[i]);
          ready = false;
        }
      if (!ready)
        continue;
      RV v;
      switch (nd.kind) {
      case N_CONST: v = RV{}; break;
      case N_XOR:
        v = bitm[ch[0]] ^ bitm[ch[1]];
        if ((nd.a ^ nd.b) & 1)
          v = v ^ one();
        break;
      case N_AND: {
        RV x = bitm[ch[0]], y = bitm[ch[1]];
        if (nd.a & 1)
          x = x ^ one();
        if (nd.b & 1)
          y = y ^ one();
        v = mul(x, y);
        break;
      }
      case N_MONO: v = mul(bitm[ch[0]], bitm[ch[1]]); break;
      case N_VAR: {
        // bit nd.b of byte atom; bits of a product byte sum to the byte
        const ByteAtom& ba = T.batoms[T.bnodes[nd.a].a];
        auto pr            = ba.app == UINT32_MAX ? ring_prods.end() : ring_prods.find(ba.app);
        if (pr != ring_prods.end() && nd.b == 0) {
          v = prodbyte(pr->second, ba.idx);
          for (unsigned j = 1; j < 8; j++) {
            RV t = rnd(0x76, n + j, 0);
            for (unsigned q = 0; q < j; q++)
              t = mulx(t);
            v = v ^ t;
          }
        } else
          v = rnd(0x76, n, 0);
        break;
      }
      default: v = rnd(0x77, n, 0); break;
      }
      bitm[n] = v;
      st.pop_back();
    }
    return bitm[id];
  }
  RV lit(Lit l) {
    RV v = node(l >> 1);
    return l & 1 ? v ^ one() : v;
  }
  RV bitsum(const std::array<Lit, 8>& o) {
    RV r{};
    for (int j = 8; j-- > 0;)
      r = mulx(r) ^ lit(o[j]);
    return r;
  }
  RV byte(BV8 b) {
    if (Terms::isconst(b)) {
      RV r{};
      r.w[0] = b;
      return r;
    }
    auto it = bytem.find(b);
    if (it != bytem.end())
      return it->second;
    std::vector<BV8> st{b};
    while (!st.empty()) {
      BV8 n = st.back();
      if (Terms::isconst(n) || bytem.count(n)) {
        st.pop_back();
        continue;
      }
      RV v{};
      if (Terms::tag(n) == Terms::TAG_B && T.bnodes[Terms::pl(n)].b != UINT32_MAX) {
        BV8 c[2]   = {T.bnodes[Terms::pl(n)].a, T.bnodes[Terms::pl(n)].b};
        bool ready = true;
        for (BV8 x : c)
          if (!Terms::isconst(x) && !bytem.count(x)) {
            st.push_back(x);
            ready = false;
          }
        if (!ready)
          continue;
        v = byte(c[0]) ^ byte(c[1]);
      } else if (Terms::tag(n) == Terms::TAG_B) {
        const ByteAtom ba = T.batoms[T.bnodes[Terms::pl(n)].a];
        auto pr           = ba.app == UINT32_MAX ? ring_prods.end() : ring_prods.find(ba.app);
        if (pr != ring_prods.end())
          v = prodbyte(pr->second, ba.idx);
        else
          v = bitsum(T.bits(n));
      } else
        v = bitsum(T.bits(n));
      bytem[n] = v;
      st.pop_back();
    }
    return bytem[b];
  }
  RV vec(const BV8* b) {
    RV r{};
    for (unsigned k = nb; k-- > 0;)
      r = mulx8(r) ^ byte(b[k]);
    return r;
  }
  // bytes of the product with value p
  void product(const RV& p, BV8* out) {
    if (p.zero()) {
      std::fill(out, out + nb, 0);
      return;
    }
    char key[96];
    snprintf(key, sizeof key, "ringmul%u:%016lx%016lx%016lx%016lx", nb * 8, p.w[0], p.w[1], p.w[2], p.w[3]);
    uint32_t ap    = T.app(T.name(key), {});
    ring_prods[ap] = RingProd{nb, p};
    for (unsigned k = 0; k < nb; k++) {
      Fp f       = prodfp(p, k);
      uint32_t r = T.bfpmap.get(f);
      out[k]     = r != UINT32_MAX ? Terms::TAG_B | r : T.mkbatomfp(ap, k, f);
    }
  }
};
