// Term layer of the verification-condition engine: hash-consed boolean terms over GF(2).
//
// A bit is a literal (node id << 1 | negated).  Every node has a 128-bit fingerprint that is linear
// in XOR: fp(a ^ b) = fp(a) ^ fp(b); atoms get pseudo-random fingerprints.  Two bits are identified
// when their fingerprints agree, i.e. when they have the same XOR normal form over the atoms
// (probability of a false identification about 2^-128 per pair).  Atoms are input bits, monomials
// (products of atoms), opaque conjunctions, output bits of contracted functions (uninterpreted, with
// congruence) and nonzero predicates.  A byte is a constant, a byte-level XOR term, or 8 bits.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint32_t Lit;
typedef uint32_t BV8; // byte term: tag in the top 2 bits
static const Lit L0 = 0, L1 = 1;

struct Fp {
  uint64_t h, l;
  bool operator==(const Fp& o) const { return h == o.h && l == o.l; }
  Fp operator^(const Fp& o) const { return {h ^ o.h, l ^ o.l}; }
};
struct FpHash {
  size_t operator()(const Fp& f) const { return (size_t)f.l; }
};

static inline uint64_t mix64(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}

enum NK : uint8_t { N_CONST, N_XOR, N_VAR, N_UF, N_MONO, N_AND, N_ISZ };

struct Node {
  Fp fp;
  uint32_t a, b; // XOR: child literals; MONO: atom ids; AND: literals; ISZ: litvec id; VAR/UF: byte atom, bit
  uint32_t sz;   // upper bound on the number of atoms of the XOR normal form
  NK kind;
};

// open-addressing map Fp -> id
struct FpMap {
  std::vector<Fp> keys;
  std::vector<uint32_t> vals;
  size_t n = 0, mask;
  FpMap() { resize(1 << 16); }
  void resize(size_t c) {
    std::vector<Fp> ok;
    std::vector<uint32_t> ov;
    ok.swap(keys);
    ov.swap(vals);
    keys.assign(c, Fp{0, 0});
    vals.assign(c, UINT32_MAX);
    mask = c - 1;
    for (size_t i = 0; i < ok.size(); i++)
      if (ov[i] != UINT32_MAX)
        put(ok[i], ov[i]);
  }
  void put(const Fp& k, uint32_t v) {
    size_t i = k.l & mask;
    while (vals[i] != UINT32_MAX)
      i = (i + 1) & mask;
    keys[i] = k;
    vals[i] = v;
  }
  uint32_t get(const Fp& k) const {
    size_t i = k.l & mask;
    while (vals[i] != UINT32_MAX) {
      if (keys[i] == k)
        return vals[i];
      i = (i + 1) & mask;
    }
    return UINT32_MAX;
  }
  void insert(const Fp& k, uint32_t v) {
    if (++n * 10 > keys.size() * 6)
      resize(keys.size() * 2);
    put(k, v);
  }
};

struct VecHash {
  size_t operator()(const std::vector<uint32_t>& v) const {
    uint64_t h = v.size();
    for (uint32_t x : v)
      h = mix64(h ^ x) + 0x1234567;
    return (size_t)h;
  }
};

struct ByteAtom {
  uint32_t bit0;  // first bit node (8 consecutive) or 0 if not exploded
  uint32_t app;   // UF application or UINT32_MAX for an input
  uint32_t idx;   // output byte index / input byte index
  uint32_t input; // input symbol id
};
struct BNode {
  Fp fp;
  BV8 a, b;      // children if XOR (may be const bytes); atom: a = atom id, b = UINT32_MAX
  uint32_t oct;  // memoised explosion (BV8) or UINT32_MAX
};

struct App {
  uint32_t fname;
  std::vector<uint32_t> args; // litvec ids
  std::vector<uint32_t> outs; // byte node ids (0 = not made)
};

struct Terms {
  std::vector<Node> nodes;
  FpMap fpmap;
  std::vector<BNode> bnodes;
  FpMap bfpmap;
  std::vector<ByteAtom> batoms;
  std::vector<std::array<Lit, 8>> octs;
  std::unordered_map<uint64_t, std::vector<uint32_t>> octmap;
  std::vector<std::vector<uint32_t>> litvecs; // canonical byte vectors
  std::unordered_map<std::vector<uint32_t>, uint32_t, VecHash> litvecmap;
  std::vector<App> apps;
  std::unordered_map<std::vector<uint32_t>, uint32_t, VecHash> appmap;
  std::vector<std::string> names;
  std::unordered_map<std::string, uint32_t> namemap;
  std::unordered_map<uint64_t, uint32_t> monomap, andmap;
  std::unordered_map<std::vector<uint32_t>, uint32_t, VecHash> iszmap;
  std::unordered_map<uint32_t, std::vector<uint32_t>> flat;
  struct Input {
    std::string name;
    uint32_t size;
    uint32_t first; // first byte atom
    bool undef;
  };
  std::vector<Input> inputs;
  uint64_t and_limit = 1u << 17;
  uint64_t fpctr     = 1;
  Fp constbit[8];

  Terms() {
    Node n{};
    n.kind = N_CONST;
    nodes.push_back(n);
    fpmap.insert(Fp{0, 0}, 0);
    BNode b{};
    b.oct = UINT32_MAX;
    bnodes.push_back(b); // 0 unused
    for (int i = 0; i < 8; i++)
      constbit[i] = newfp();
  }
  Fp newfp() {
    uint64_t c = fpctr++;
    return Fp{mix64(c * 2 + 0x5eed), mix64(mix64(c) ^ 0xfae57fae57ull)};
  }
  uint32_t name(const std::string& s) {
    auto it = namemap.find(s);
    if (it != namemap.end())
      return it->second;
    names.push_back(s);
    return namemap[s] = names.size() - 1;
  }
  // ---- bits
  uint32_t mkatom(NK k, uint32_t a, uint32_t b) {
    Node n{};
    n.kind = k;
    n.a    = a;
    n.b    = b;
    n.sz   = 1;
    n.fp   = newfp();
    nodes.push_back(n);
    fpmap.insert(n.fp, nodes.size() - 1);
    return nodes.size() - 1;
  }
  Lit lxor(Lit a, Lit b) {
    if (a < 2)
      return b ^ a;
    if (b < 2)
      return a ^ b;
    uint32_t neg = (a ^ b) & 1;
    a &= ~1u;
    b &= ~1u;
    if (a == b)
      return neg;
    Fp f       = nodes[a >> 1].fp ^ nodes[b >> 1].fp;
    uint32_t r = fpmap.get(f);
    if (r != UINT32_MAX)
      return (r << 1) | neg;
    Node n{};
    n.kind = N_XOR;
    n.a    = a;
    n.b    = b;
    n.fp   = f;
    uint64_t s = (uint64_t)nodes[a >> 1].sz + nodes[b >> 1].sz;
    n.sz       = s > 0x7fffffff ? 0x7fffffff : (uint32_t)s;
    nodes.push_back(n);
    if (nodes.size() > 0x3ffffff0u) {
      fprintf(stderr, "engine: node limit\n");
      exit(3);
    }
    fpmap.insert(f, nodes.size() - 1);
    return ((uint32_t)(nodes.size() - 1) << 1) | neg;
  }
  // sorted atom list of a node's XOR normal form
  const std::vector<uint32_t>& flatten(uint32_t id) {
    auto it = flat.find(id);
    if (it != flat.end())
      return it->second;
    // iterative post-order
    std::vector<std::pair<uint32_t, int>> st{{id, 0}};
    while (!st.empty()) {
      auto [n, s] = st.back();
      if (flat.count(n)) {
        st.pop_back();
        continue;
      }
      const Node& nd = nodes[n];
      if (nd.kind != N_XOR) {
        flat[n] = n ? std::vector<uint32_t>{n} : std::vector<uint32_t>{};
        st.pop_back();
        continue;
      }
      if (s == 0) {
        st.back().second = 1;
        st.push_back({nd.a >> 1, 0});
        st.push_back({nd.b >> 1, 0});
      } else {
        auto &x = flat[nd.a >> 1], &y = flat[nd.b >> 1];
        std::vector<uint32_t> r;
        r.reserve(x.size() + y.size());
        std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(r));
        flat[n] = std::move(r);
        st.pop_back();
      }
    }
    return flat[id];
  }
  void monoatoms(uint32_t id, std::vector<uint32_t>& out) {
    while (nodes[id].kind == N_MONO) {
      out.push_back(nodes[id].b);
      id = nodes[id].a;
    }
    out.push_back(id);
  }
  uint32_t mono2(uint32_t a, uint32_t b) { // product of two atoms
    if (a == b)
      return a;
    std::vector<uint32_t> s;
    monoatoms(a, s);
    monoatoms(b, s);
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
    uint32_t r = s[0];
    for (size_t i = 1; i < s.size(); i++) {
      uint64_t key = ((uint64_t)r << 32) | s[i];
      auto it      = monomap.find(key);
      if (it != monomap.end())
        r = it->second;
      else {
        uint32_t n   = mkatom(N_MONO, r, s[i]);
        monomap[key] = n;
        r            = n;
      }
    }
    return r;
  }
  Lit land(Lit a, Lit b) {
    if (a < 2)
      return a ? b : L0;
    if (b < 2)
      return b ? a : L0;
    if (a == b)
      return a;
    if (a == (b ^ 1))
      return L0;
    // (a'^na)(b'^nb)
    Lit na = a & 1, nb = b & 1, ap = a & ~1u, bp = b & ~1u;
    Lit r = landpos(ap, bp);
    if (nb)
      r = lxor(r, ap);
    if (na)
      r = lxor(r, bp);
    if (na & nb)
      r ^= 1;
    return r;
  }
  Lit landpos(Lit a, Lit b) {
    if (a == b)
      return a;
    if (a > b)
      std::swap(a, b);
    uint32_t x = a >> 1, y = b >> 1;
    uint64_t key = ((uint64_t)a << 32) | b;
    auto it      = andmap.find(key);
    if (it != andmap.end())
      return it->second;
    uint64_t sx = nodes[x].sz, sy = nodes[y].sz;
    Lit r;
    if (and_limit > 1 && sx < 100000 && sy < 100000) {
      sx = nodes[x].kind == N_XOR ? flatten(x).size() : 1;
      sy = nodes[y].kind == N_XOR ? flatten(y).size() : 1;
    }
    if (sx * sy <= and_limit && monodeg(x) + monodeg(y) <= 1024) {
      r = L0;
      if (sx == 1 && sy == 1)
        r = mono2(x, y) << 1;
      else {
        std::vector<uint32_t> fx = flatten(x), fy = flatten(y);
        Lit acc = L0;
        for (uint32_t p : fx)
          for (uint32_t q : fy)
            acc = lxor(acc, mono2(p, q) << 1);
        r = acc;
      }
    } else {
      r = mkatom(N_AND, a, b) << 1;
    }
    andmap[key] = r;
    return r;
  }
  unsigned monodeg(uint32_t id) {
    unsigned d = 1;
    while (nodes[id].kind == N_MONO) {
      d++;
      id = nodes[id].a;
    }
    return d;
  }
  Lit lor(Lit a, Lit b) { return land(a ^ 1, b ^ 1) ^ 1; }
  Lit lite(Lit c, Lit a, Lit b) {
    if (c == L1 || a == b)
      return a;
    if (c == L0)
      return b;
    return lxor(b, land(c, lxor(a, b)));
  }
  // is-zero of a set of bits
  Lit iszero(std::vector<Lit> v) {
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (!v.empty() && v[0] == L0)
      v.erase(v.begin());
    if (v.empty())
      return L1;
    if (v[0] == L1)
      return L0;
    for (size_t i = 0; i + 1 < v.size(); i++)
      if ((v[i] ^ 1) == v[i + 1])
        return L0;
    if (v.size() == 1)
      return v[0] ^ 1;
    auto it = iszmap.find(v);
    if (it != iszmap.end())
      return it->second << 1 | 1;
    if (v.size() <= 64) { // small polynomial (such as byte == 0xff): expand it
      bool ok = true;
      Lit r   = L1;
      auto sz = [&](Lit l) -> size_t {
        const Node& n = nodes[l >> 1];
        return n.kind == N_CONST ? 0 : n.kind != N_XOR ? 1 : n.sz > 256 ? 100000 : flatten(l >> 1).size();
      };
      for (Lit l : v)
        if (nodes[l >> 1].sz > 64)
          ok = false;
      for (size_t i = 0; ok && i < v.size(); i++) {
        if (sz(r) > 96 || sz(r) * sz(v[i]) > 4096) {
          ok = false;
          break;
        }
        r = land(r, v[i] ^ 1);
      }
      if (ok && sz(r) <= 96)
        return r;
    }
    litvecs.push_back(v);
    uint32_t n = mkatom(N_ISZ, litvecs.size() - 1, 0);
    iszmap[v]  = n;
    return n << 1 | 1; // the atom is "some bit is set", so that "all of several are nonzero" is one monomial
  }
  // ---- bytes.  BV8 encoding: 0..255 const; 1<<30 | bnode; 2<<30 | oct; 3<<30: special (uninit / ptr)
  static constexpr BV8 TAG_B = 1u << 30, TAG_O = 2u << 30, TAG_S = 3u << 30;
  static constexpr BV8 UNINIT = 3u << 30, PTRB = (3u << 30) + 16;
  static bool isconst(BV8 b) { return b < 256; }
  static uint32_t tag(BV8 b) { return b & (3u << 30); }
  static uint32_t pl(BV8 b) { return b & 0x3fffffff; }

  BV8 mkbatom(uint32_t app, uint32_t input, uint32_t idx) {
    ByteAtom a{0, app, idx, input};
    batoms.push_back(a);
    BNode n{};
    n.fp  = newfp();
    n.a   = batoms.size() - 1;
    n.b   = UINT32_MAX;
    n.oct = UINT32_MAX;
    bnodes.push_back(n);
    bfpmap.insert(n.fp, bnodes.size() - 1);
    return TAG_B | (bnodes.size() - 1);
  }
  BV8 mkbatomfp(uint32_t app, uint32_t idx, Fp f) {
    ByteAtom a{0, app, idx, UINT32_MAX};
    batoms.push_back(a);
    BNode n{};
    n.fp  = f;
    n.a   = batoms.size() - 1;
    n.b   = UINT32_MAX;
    n.oct = UINT32_MAX;
    bnodes.push_back(n);
    bfpmap.insert(n.fp, bnodes.size() - 1);
    return TAG_B | (bnodes.size() - 1);
  }
  uint32_t newinput(const std::string& nm, uint32_t size, bool undef = false) {
    inputs.push_back({nm, size, (uint32_t)batoms.size(), undef});
    return inputs.size() - 1;
  }
  BV8 mkoct(const std::array<Lit, 8>& o) {
    bool allc = true;
    uint32_t c = 0;
    for (int i = 0; i < 8; i++) {
      if (o[i] > 1)
        allc = false;
      else
        c |= o[i] << i;
    }
    if (allc)
      return c;
    // normalise to a byte atom
    if (!(o[0] & 1)) {
      const Node& n = nodes[o[0] >> 1];
      if (n.kind == N_VAR && n.b == 0) {
        bool ok = true;
        for (int i = 1; i < 8; i++)
          if (o[i] != o[0] + 2 * i)
            ok = false;
        if (ok)
          return TAG_B | n.a;
      }
    }
    uint64_t h = 0;
    for (int i = 0; i < 8; i++)
      h = mix64(h ^ o[i]);
    auto& v = octmap[h];
    for (uint32_t id : v)
      if (octs[id] == o)
        return TAG_O | id;
    octs.push_back(o);
    v.push_back(octs.size() - 1);
    return TAG_O | (octs.size() - 1);
  }
  Fp bfp(BV8 b) {
    if (isconst(b)) {
      Fp f{0, 0};
      for (int i = 0; i < 8; i++)
        if (b >> i & 1)
          f = f ^ constbit[i];
      return f;
    }
    return bnodes[pl(b)].fp;
  }
  // explode to 8 literals
  std::array<Lit, 8> bits(BV8 b) {
    std::array<Lit, 8> r;
    if (isconst(b)) {
      for (int i = 0; i < 8; i++)
        r[i] = b >> i & 1;
      return r;
    }
    if (tag(b) == TAG_O)
      return octs[pl(b)];
    if (tag(b) == TAG_S) {
      fprintf(stderr, "engine: bits of special byte\n");
      exit(3);
    }
    uint32_t id = pl(b);
    if (bnodes[id].b == UINT32_MAX) {
      ByteAtom& a = batoms[bnodes[id].a];
      if (!a.bit0) {
        a.bit0 = nodes.size();
        for (int i = 0; i < 8; i++)
          mkatom(N_VAR, id, i);
      }
      for (int i = 0; i < 8; i++)
        r[i] = (a.bit0 + i) << 1;
      return r;
    }
    if (bnodes[id].oct != UINT32_MAX)
      return bits(bnodes[id].oct);
    // iterative explosion of XOR DAG
    std::vector<uint32_t> st{id};
    while (!st.empty()) {
      uint32_t n = st.back();
      if (bnodes[n].b == UINT32_MAX || bnodes[n].oct != UINT32_MAX) {
        st.pop_back();
        continue;
      }
      bool ready = true;
      for (BV8 c : {bnodes[n].a, bnodes[n].b})
        if (tag(c) == TAG_B && bnodes[pl(c)].b != UINT32_MAX && bnodes[pl(c)].oct == UINT32_MAX) {
          st.push_back(pl(c));
          ready = false;
        }
      if (!ready)
        continue;
      auto x = bits(bnodes[n].a), y = bits(bnodes[n].b);
      for (int i = 0; i < 8; i++)
        x[i] = lxor(x[i], y[i]);
      BV8 o         = mkoct(x);
      bnodes[n].oct = o;
      st.pop_back();
    }
    return bits(bnodes[id].oct);
  }
  BV8 bxor(BV8 a, BV8 b) {
    if (isconst(a) && isconst(b))
      return a ^ b;
    if (a == 0)
      return b;
    if (b == 0)
      return a;
    if (a == b)
      return 0;
    bool la = isconst(a) || tag(a) == TAG_B, lb = isconst(b) || tag(b) == TAG_B;
    if (la && lb) {
      Fp f = bfp(a) ^ bfp(b);
      if (f.h == 0 && f.l == 0)
        return 0;
      uint32_t r = bfpmap.get(f);
      if (r != UINT32_MAX)
        return r < 256 && false ? r : (TAG_B | r);
      for (uint32_t c = 1; c < 256 && (isconst(a) || isconst(b) || true); c++) {
        // constant result only possible if both share the same non-constant part
        if (c == 1 && !constpossible(f))
          break;
        if (bfp(c) == f)
          return c;
      }
      BNode n{};
      n.fp  = f;
      n.a   = a;
      n.b   = b;
      n.oct = UINT32_MAX;
      bnodes.push_back(n);
      if (bnodes.size() > 0x3ffffff0u) {
        fprintf(stderr, "engine: byte node limit\n");
        exit(3);
      }
      bfpmap.insert(f, bnodes.size() - 1);
      return TAG_B | (bnodes.size() - 1);
    }
    auto x = bits(a), y = bits(b);
    for (int i = 0; i < 8; i++)
      x[i] = lxor(x[i], y[i]);
    return mkoct(x);
  }
  std::unordered_map<uint64_t, uint32_t> constfps;
  bool constpossible(const Fp& f) {
    if (constfps.empty())
      for (uint32_t c = 0; c < 256; c++)
        constfps[bfp(c).l] = c;
    return constfps.count(f.l);
  }
  // canonical form of a byte (for congruence): const, atom or octet
  BV8 canon(BV8 b) {
    if (isconst(b) || tag(b) != TAG_B || bnodes[pl(b)].b == UINT32_MAX)
      return b;
    bits(b);
    return bnodes[pl(b)].oct;
  }
  bool beq(BV8 a, BV8 b) {
    if (a == b)
      return true;
    if (isconst(a) && isconst(b))
      return false;
    if (tag(a) == TAG_S || tag(b) == TAG_S)
      return false;
    return bits(a) == bits(b);
  }
  uint32_t internvec(std::vector<uint32_t> v) {
    auto it = litvecmap.find(v);
    if (it != litvecmap.end())
      return it->second;
    litvecs.push_back(v);
    uint32_t id = litvecs.size() - 1;
    litvecmap.emplace(std::move(v), id);
    return id;
  }
  uint32_t app(uint32_t fname, const std::vector<uint32_t>& args) {
    std::vector<uint32_t> k{fname};
    k.insert(k.end(), args.begin(), args.end());
    auto it = appmap.find(k);
    if (it != appmap.end())
      return it->second;
    App a;
    a.fname = fname;
    a.args  = args;
    apps.push_back(a);
    return appmap[k] = apps.size() - 1;
  }
  BV8 appout(uint32_t app, uint32_t k) {
    App& a = apps[app];
    if (a.outs.size() <= k)
      a.outs.resize(k + 1, 0);
    if (!a.outs[k]) {
      BV8 b              = mkbatom(app, UINT32_MAX, k);
      apps[app].outs[k] = b;
    }
    return apps[app].outs[k];
  }
};
