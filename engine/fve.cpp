// fve - verification-condition engine over LLVM IR.
//
// Executes the IR of the real sources (and of the contracts/specifications compiled next to them)
// with concrete control and addresses and symbolic data, replacing callees by their contracts, and
// turns every postcondition, callee precondition, frame condition and memory access into an
// obligation over the term layer (term.h).  See DESIGN.md.
#include "term.h"
#include "ring.h"

#include <chrono>
#include <cstdarg>
#include <fstream>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <unistd.h>

#include <llvm/ADT/APInt.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>

#include <z3++.h>

using namespace llvm;
typedef uint32_t u32;
typedef uint64_t u64;

static Terms T;

// ------------------------------------------------------------------ values
enum VK : uint8_t { V_UNDEF, V_CONC, V_SYM, V_PTR, V_SPTR, V_AGG };
struct Val {
  VK k     = V_UNDEF;
  u32 w    = 0;   // width in bits (ints and flattened vectors)
  u32 obj  = 0;   // PTR/SPTR: object
  u64 c    = 0;   // CONC value / PTR offset
  std::vector<BV8> b; // SYM: little-endian bytes; SPTR: offset bytes
  std::shared_ptr<std::vector<Val>> agg;
};

struct Fatal {
  std::string msg;
};
struct ViolationStop {};

static u64 maskw(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static Val conc(u32 w, u64 c) {
  Val v;
  if (w <= 64) {
    v.k = V_CONC;
    v.w = w;
    v.c = c & maskw(w);
  } else {
    v.k = V_SYM;
    v.w = w;
    v.b.assign((w + 7) / 8, 0);
    for (int i = 0; i < 8; i++)
      v.b[i] = (c >> (8 * i)) & 0xff;
  }
  return v;
}
static Val symv(u32 w, std::vector<BV8>&& b) {
  Val v;
  bool allc = true;
  for (BV8 x : b)
    if (!Terms::isconst(x)) {
      allc = false;
      break;
    }
  v.w = w;
  if (allc && w <= 64) {
    v.k = V_CONC;
    u64 c = 0;
    for (size_t i = 0; i < b.size(); i++)
      c |= (u64)b[i] << (8 * i);
    v.c = c & maskw(w);
  } else {
    v.k = V_SYM;
    v.b = std::move(b);
  }
  return v;
}

// ------------------------------------------------------------------ memory
struct Obj {
  u32 id;
  u64 size;
  char kind; // g global, s stack, h heap, f function, n named
  bool alive = true, ro = false;
  Lit acond = L1; // alive exactly when this holds (released on some paths only)
  std::string name;
  std::vector<BV8> b;
  std::map<u64, Val> ptrs;
  u32 content = UINT32_MAX; // cached interned content of the first content_hi bytes
  u64 content_hi = 0;
  u64 birth;
  Function* fn = nullptr;
};
typedef std::shared_ptr<Obj> ObjP;

struct Snap;
typedef std::map<std::vector<const void*>, std::shared_ptr<Snap>> Snaps;
struct State {
  std::vector<ObjP> objs;
  Lit pc = L1;
  std::shared_ptr<Snaps> snaps; // states at the loop points passed on this path
};
static State S;
static u64 birthctr = 1;

// frame tracking
struct FrameCk {
  bool active = false;
  u64 birth;
  std::vector<std::tuple<u32, u64, u64>> allowed;
  std::string label;
};
static FrameCk FC;

// ------------------------------------------------------------------ statistics / results
// safety obligations of /repo's functions (accesses by harnesses and specifications are checked but not counted)
static u64 n_safety_repo, n_safety_own, *n_safety_cur = &n_safety_own;
#define n_safety (*n_safety_cur)
static u64 n_instr, n_obl, n_dis, n_norm, n_sat, n_frame, n_require, n_calls_contract, n_covers, n_assumes;
static double solver_s;
static std::map<std::string, u64> contract_uses, covers;
static std::map<std::string, u64> obl_labels;
struct Viol {
  std::string kind, label, detail, where;
  std::map<std::string, std::map<u32, u32>> model; // input name -> byte index -> value
  bool uf;
};
static std::vector<Viol> viols;
static u32 max_viol = 3;
static bool safety_only; // postconditions are left to the functional run
static const Instruction* curI;
static std::vector<const Function*> cstack;
static bool verbose;
static double t0;
static double nowd() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static std::string where() {
  std::string r;
  if (curI) {
    if (const DebugLoc& d = curI->getDebugLoc()) {
      auto* s = d->getScope();
      r = (s ? s->getFilename().str() : std::string("?")) + ":" + std::to_string(d.getLine());
    }
    r += " in " + curI->getFunction()->getName().str();
  }
  std::string st;
  for (auto it = cstack.rbegin(); it != cstack.rend() && st.size() < 200; ++it)
    st += (st.empty() ? "" : " < ") + (*it)->getName().str();
  return r + " [" + st + "]";
}
[[noreturn]] static void fatal(const char* f, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  throw Fatal{std::string(buf) + " at " + where()};
}

// ------------------------------------------------------------------ solver fallback
static std::string atomname(u32 n) {
  const Node& d = T.nodes[n];
  char buf[256];
  switch (d.kind) {
  case N_VAR: {
    const BNode& bn  = T.bnodes[d.a];
    const ByteAtom& a = T.batoms[bn.a];
    if (a.app == UINT32_MAX)
      snprintf(buf, sizeof buf, "%s[%u].%u", T.inputs[a.input].name.c_str(), a.idx, d.b);
    else
      snprintf(buf, sizeof buf, "%s#%u(..)[%u].%u", T.names[T.apps[a.app].fname].c_str(), a.app, a.idx, d.b);
    return buf;
  }
  case N_MONO: {
    std::vector<u32> m;
    T.monoatoms(n, m);
    std::string r;
    for (u32 x : m)
      r += (r.empty() ? "" : "*") + atomname(x);
    return r;
  }
  case N_AND: return "and#" + std::to_string(n);
  case N_ISZ: return "nonzero#" + std::to_string(n);
  default: return "n" + std::to_string(n);
  }
}
static std::string litname(Lit l, size_t lim = 6) {
  if (l < 2)
    return l ? "1" : "0";
  std::string r = (l & 1) ? "1 ^ " : "";
  if (T.nodes[l >> 1].sz > 2000000)
    return "<large>";
  auto& v = T.flatten(l >> 1);
  for (size_t i = 0; i < v.size() && i < lim; i++)
    r += (i ? " ^ " : "") + atomname(v[i]);
  if (v.size() > lim)
    r += " ^ ... (" + std::to_string(v.size()) + " terms)";
  return r;
}

enum SR { S_UNSAT, S_SAT, S_UNKNOWN };
struct Model {
  std::map<u32, int> atom; // VAR node -> value
  bool uf = false;
};
static u32 solver_timeout_ms = 60000;
static SR solve(const std::vector<Lit>& goals_or, Lit pc, Model& m) {
  // satisfiable(pc & OR goals)?
  double ts = nowd();
  n_sat++;
  z3::context c;
  z3::solver s(c, "QF_FD");
  z3::params p(c);
  p.set("timeout", solver_timeout_ms);
  s.set(p);
  std::unordered_map<u32, z3::expr*> memo;
  std::vector<std::unique_ptr<z3::expr>> keep;
  std::vector<u32> vars;
  auto get = [&](Lit l) -> z3::expr {
    if (l == L0)
      return c.bool_val(false);
    if (l == L1)
      return c.bool_val(true);
    z3::expr e = *memo.at(l >> 1);
    return (l & 1) ? !e : e;
  };
  size_t budget = 3000000;
  auto build    = [&](Lit root) {
    std::vector<u32> st{root >> 1};
    while (!st.empty()) {
      u32 n = st.back();
      if (n == 0 || memo.count(n)) {
        st.pop_back();
        continue;
      }
      if (budget-- == 0)
        return false;
      const Node nd = T.nodes[n];
      std::vector<u32> deps;
      std::vector<Lit> ls;
      if (nd.kind == N_XOR || nd.kind == N_AND)
        ls = {nd.a, nd.b};
      else if (nd.kind == N_MONO)
        ls = {nd.a << 1, nd.b << 1};
      else if (nd.kind == N_ISZ)
        for (u32 x : T.litvecs[nd.a])
          ls.push_back(x);
      bool ready = true;
      for (Lit l : ls)
        if ((l >> 1) && !memo.count(l >> 1)) {
          st.push_back(l >> 1);
          ready = false;
        }
      if (!ready)
        continue;
      st.pop_back();
      z3::expr v = c.bool_const(("n" + std::to_string(n)).c_str());
      keep.emplace_back(new z3::expr(v));
      memo[n] = keep.back().get();
      switch (nd.kind) {
      case N_VAR: {
        vars.push_back(n);
        const ByteAtom& a = T.batoms[T.bnodes[nd.a].a];
        if (a.app != UINT32_MAX)
          m.uf = true;
        break;
      }
      case N_XOR: s.add(v == (get(nd.a) != get(nd.b))); break;
      case N_AND:
      case N_MONO: s.add(v == (get(ls[0]) && get(ls[1]))); break;
      case N_ISZ: {
        z3::expr_vector ev(c);
        for (Lit l : ls)
          ev.push_back(get(l));
        s.add(v == z3::mk_or(ev));
        break;
      }
      default: break;
      }
    }
    return true;
  };
  bool ok = build(pc);
  for (Lit g : goals_or)
    ok = ok && build(g);
  if (!ok) {
    solver_s += nowd() - ts;
    m.uf = true;
    return S_UNKNOWN;
  }
  s.add(get(pc));
  z3::expr_vector ev(c);
  for (Lit g : goals_or)
    ev.push_back(get(g));
  s.add(z3::mk_or(ev));
  z3::check_result r = s.check();
  if (r == z3::sat) {
    z3::model md = s.get_model();
    for (u32 n : vars)
      m.atom[n] = md.eval(*memo[n], true).is_true();
  }
  solver_s += nowd() - ts;
  return r == z3::sat ? S_SAT : r == z3::unsat ? S_UNSAT : S_UNKNOWN;
}

static void collect_support(Lit l, std::set<u32>& seen, bool& uf, bool& undef) {
  std::vector<u32> st{l >> 1};
  while (!st.empty()) {
    u32 n = st.back();
    st.pop_back();
    if (!n || !seen.insert(n).second)
      continue;
    if (seen.size() > 200000) {
      uf = true;
      return;
    }
    const Node& d = T.nodes[n];
    if (d.kind == N_XOR || d.kind == N_AND) {
      st.push_back(d.a >> 1);
      st.push_back(d.b >> 1);
    } else if (d.kind == N_MONO) {
      st.push_back(d.a);
      st.push_back(d.b);
    } else if (d.kind == N_ISZ) {
      for (u32 x : T.litvecs[d.a])
        st.push_back(x >> 1);
    } else if (d.kind == N_VAR) {
      const ByteAtom& a = T.batoms[T.bnodes[d.a].a];
      if (a.app != UINT32_MAX)
        uf = true;
      else if (T.inputs[a.input].undef)
        undef = true;
    }
  }
}

// is the condition settled by the path condition? 1 true, 0 false, -1 open
static int settled(Lit c) {
  static std::map<std::pair<Lit, Lit>, int> memo;
  auto it = memo.find({S.pc, c});
  if (it != memo.end())
    return it->second;
  int r               = -1;
  const unsigned keep = solver_timeout_ms;
  solver_timeout_ms   = std::min(keep, 2000u);
  Model m;
  if (solve({c}, S.pc, m) == S_UNSAT)
    r = 0;
  else if (solve({c ^ 1}, S.pc, m) == S_UNSAT)
    r = 1;
  solver_timeout_ms = keep;
  return memo[{S.pc, c}] = r;
}

static void add_viol(const std::string& kind, const std::string& label, const std::string& detail, Model* m, bool uf) {
  Viol v;
  v.kind   = kind;
  v.label  = label;
  v.detail = detail;
  v.where  = where();
  v.uf     = uf;
  if (m)
    for (auto& [n, val] : m->atom) {
      const Node& d     = T.nodes[n];
      const ByteAtom& a = T.batoms[T.bnodes[d.a].a];
      if (a.app != UINT32_MAX)
        continue;
      u32& b = v.model[T.inputs[a.input].name][a.idx];
      // low byte value, high byte mask of assigned bits
      b |= (1u << (8 + d.b)) | ((u32)(val ? 1 : 0) << d.b);
    }
  viols.push_back(v);
  if (viols.size() >= max_viol)
    throw ViolationStop{};
}

// Decide obligation: all diffs are zero under the path condition.  diffs: list of (index, lit)
static void oblige_zero(const std::string& kind, const std::string& label, std::vector<std::pair<u64, Lit>> diffs) {
  if (safety_only && kind == "ensures")
    return;
  n_obl++;
  obl_labels[label]++;
  if (T.litvecs.size()) {}
  std::vector<std::pair<u64, Lit>> rest;
  for (auto& d : diffs) {
    if (d.second == L0)
      continue;
    if (S.pc != L1 && T.land(S.pc, d.second) == L0)
      continue;
    rest.push_back(d);
  }
  if (rest.empty()) {
    n_dis++;
    n_norm++;
    return;
  }
  Model m;
  std::vector<Lit> gs;
  // a small sample first gives a model fast; unsat needs all
  SR r;
  if (rest.size() > 64) {
    std::vector<Lit> smp;
    for (size_t i = 0; i < 8; i++)
      smp.push_back(rest[i * rest.size() / 8].second);
    r = solve(smp, S.pc, m);
    if (r != S_SAT) {
      for (auto& d : rest)
        gs.push_back(d.second);
      m = Model();
      r = solve(gs, S.pc, m);
    }
  } else {
    for (auto& d : rest)
      gs.push_back(d.second);
    r = solve(gs, S.pc, m);
  }
  if (r == S_UNSAT) {
    n_dis++;
    return;
  }
  bool uf = false, undef = false;
  std::set<u32> seen;
  collect_support(rest[0].second, seen, uf, undef);
  std::string det = std::to_string(rest.size()) + " of " + std::to_string(diffs.size()) + " bits differ; first: bit " +
                    std::to_string(rest[0].first) + " (byte " + std::to_string(rest[0].first / 8) + "), difference " +
                    litname(rest[0].second) + (undef ? " [depends on uninitialised memory]" : "") +
                    (r == S_UNKNOWN ? " [solver: unknown]" : "");
  add_viol(kind, label, det, &m, uf);
}
static void oblige_true(const std::string& kind, const std::string& label, Lit l) { oblige_zero(kind, label, {{0, l ^ 1}}); }

// ------------------------------------------------------------------ constant flow
// Every branch, selection, address and compared range in /repo's functions may depend on public inputs only: the names
// given on the command line (a final * for any suffix); every other input and every abstract function value counts as secret.
static bool ct_mode;
static std::vector<std::string> ct_public;
static u64 n_ct;
static bool repo_code();
static bool is_public(const std::string& n) {
  for (auto& p : ct_public)
    if (n == p || (p.back() == '*' && n.compare(0, p.size() - 1, p, 0, p.size() - 1) == 0))
      return true;
  return false;
}
static std::string secret_in(Lit l) {
  static std::unordered_map<u32, std::string> memo;
  if (l < 2)
    return "";
  auto it = memo.find(l >> 1);
  if (it != memo.end())
    return it->second;
  std::set<u32> seen;
  std::vector<u32> st{l >> 1};
  std::string r;
  while (!st.empty() && r.empty()) {
    u32 n = st.back();
    st.pop_back();
    if (!n || !seen.insert(n).second)
      continue;
    const Node& d = T.nodes[n];
    if (d.kind == N_XOR || d.kind == N_AND) {
      st.push_back(d.a >> 1);
      st.push_back(d.b >> 1);
    } else if (d.kind == N_MONO) {
      st.push_back(d.a);
      st.push_back(d.b);
    } else if (d.kind == N_ISZ) {
      for (u32 x : T.litvecs[d.a])
        st.push_back(x >> 1);
    } else if (d.kind == N_VAR) {
      const ByteAtom& a = T.batoms[T.bnodes[d.a].a];
      if (a.app != UINT32_MAX) {
        const std::string& f = T.names[T.apps[a.app].fname];
        if (!is_public(f))
          r = "a value of " + f;
      } else if (!T.inputs[a.input].undef && !is_public(T.inputs[a.input].name))
        r = T.inputs[a.input].name + "[" + std::to_string(a.idx) + "]";
    } else
      r = "?";
  }
  return memo[l >> 1] = r;
}
static void ct_check(const std::vector<Lit>& ls, const char* what) {
  if (!ct_mode || !repo_code())
    return;
  n_ct++;
  for (Lit l : ls) {
    std::string s = secret_in(l);
    if (s.empty())
      continue;
    n_obl++;
    add_viol("constant flow", std::string(what) + " depends on a secret", "depends on " + s, nullptr, false);
    return;
  }
}

// ------------------------------------------------------------------ directed inputs
// With --hints: inputs that settle the first symbolic conditions of /repo's functions either way, for the native replay.
static bool hint_mode;
static std::vector<Viol> hints;
static u64 n_hint_sites;
static double hint_t0;
static void hint(const void* site, Lit c) {
  static std::map<const void*, int> seen;
  if (!hint_mode || c < 2 || !repo_code() || S.pc == L0)
    return;
  int& k = seen[site];
  if (k >= 2)
    return;
  if (!k++)
    n_hint_sites++;
  if (hint_t0 == 0)
    hint_t0 = nowd();
  for (Lit g : {c ^ 1, c}) {
    Model m;
    if (solve({g}, S.pc, m) != S_SAT)
      continue;
    auto keep = std::move(viols);
    viols.clear();
    size_t mv = max_viol;
    max_viol  = SIZE_MAX;
    add_viol("hint", "", "", &m, false);
    max_viol = mv;
    if (!viols.back().model.empty())
      hints.push_back(viols.back());
    viols = std::move(keep);
  }
  if (hints.size() >= 32 || nowd() - hint_t0 > 60)
    throw Fatal{"enough hints"};
}

static void safety_fail(const std::string& label, const std::string& det) {
  // reachable only if pc is satisfiable
  if (S.pc == L0)
    return;
  Model m;
  if (S.pc != L1) {
    SR r = solve({L1}, S.pc, m);
    if (r == S_UNSAT)
      return;
  }
  n_obl++;
  add_viol("safety", label, det, &m, false);
  throw ViolationStop{};
}

// ------------------------------------------------------------------ bit helpers on values
static u32 undefctr;
static BV8 fresh_undef() {
  u32 in = T.newinput("undef" + std::to_string(undefctr++), 1, true);
  return T.mkbatom(UINT32_MAX, in, 0);
}
static inline BV8 vbyte(const Val& v, u32 i) {
  if (v.k == V_CONC)
    return i < 8 ? (v.c >> (8 * i)) & 0xff : 0;
  return v.b[i];
}
static Val to_sym_undef(const Val& v) {
  std::vector<BV8> b((v.w + 7) / 8);
  for (auto& x : b)
    x = fresh_undef();
  if (v.w % 8) {
    auto l = T.bits(b.back());
    for (u32 i = v.w % 8; i < 8; i++)
      l[i] = L0;
    b.back() = T.mkoct(l);
  }
  return symv(v.w, std::move(b));
}
static u64 vaddr(const Val& p) { return p.obj ? ((u64)(p.obj + 16) << 32) + p.c : p.c; }
static Val ptrtoint(const Val& p, u32 w) {
  if (p.k == V_PTR)
    return conc(w, vaddr(p));
  fatal("ptrtoint of symbolic pointer");
}
static Val norm_int(const Val& v) {
  if (v.k == V_UNDEF)
    return to_sym_undef(v);
  if (v.k == V_PTR)
    return ptrtoint(v, 64);
  return v;
}
static void getbits(const Val& v0, std::vector<Lit>& o) {
  o.resize(v0.w);
  if (v0.k == V_CONC) {
    for (u32 i = 0; i < v0.w; i++)
      o[i] = v0.c >> i & 1;
    return;
  }
  for (u32 i = 0; i < v0.b.size(); i++) {
    auto l = T.bits(v0.b[i]);
    for (u32 j = 0; j < 8 && i * 8 + j < v0.w; j++)
      o[i * 8 + j] = l[j];
  }
}
static Val frombits(const std::vector<Lit>& o) {
  u32 w = o.size();
  std::vector<BV8> b((w + 7) / 8);
  for (u32 i = 0; i < b.size(); i++) {
    std::array<Lit, 8> l;
    for (u32 j = 0; j < 8; j++)
      l[j] = i * 8 + j < w ? o[i * 8 + j] : L0;
    b[i] = T.mkoct(l);
  }
  return symv(w, std::move(b));
}
static Lit lit1(const Val& v0) { // i1
  Val v = norm_int(v0);
  if (v.k == V_CONC)
    return v.c & 1;
  return T.bits(v.b[0])[0];
}
static Val fromlit(Lit l, u32 w = 1) {
  if (l < 2)
    return conc(w, l);
  std::vector<Lit> b(w, L0);
  b[0] = l;
  return frombits(b);
}
static Val vxor(const Val& a, const Val& b) {
  std::vector<BV8> r((a.w + 7) / 8);
  for (u32 i = 0; i < r.size(); i++)
    r[i] = T.bxor(vbyte(a, i), vbyte(b, i));
  return symv(a.w, std::move(r));
}
static BV8 band8(BV8 x, BV8 y) {
  if (Terms::isconst(x) && Terms::isconst(y))
    return x & y;
  if (x == 0 || y == 0)
    return 0;
  if (x == 0xff || x == y)
    return y;
  if (y == 0xff)
    return x;
  auto p = T.bits(x), q = T.bits(y);
  for (int j = 0; j < 8; j++)
    p[j] = T.land(p[j], q[j]);
  return T.mkoct(p);
}
static BV8 bnot8(BV8 x) { return T.bxor(x, 0xff); }
static Val vand(const Val& a, const Val& b) {
  std::vector<BV8> r((a.w + 7) / 8);
  for (u32 i = 0; i < r.size(); i++)
    r[i] = band8(vbyte(a, i), vbyte(b, i));
  return symv(a.w, std::move(r));
}
static BV8 bor8(BV8 x, BV8 y) {
  if (Terms::isconst(x) && Terms::isconst(y))
    return x | y;
  if (x == 0)
    return y;
  if (y == 0)
    return x;
  if (x == 0xff || y == 0xff)
    return 0xff;
  auto p = T.bits(x), q = T.bits(y);
  for (int j = 0; j < 8; j++)
    p[j] = T.lor(p[j], q[j]);
  return T.mkoct(p);
}
static Val vor(const Val& a, const Val& b) {
  std::vector<BV8> r((a.w + 7) / 8);
  for (u32 i = 0; i < r.size(); i++)
    r[i] = bor8(vbyte(a, i), vbyte(b, i));
  return symv(a.w, std::move(r));
}
static Val vshift(const Val& a, int op, u64 s) { // 0 shl 1 lshr 2 ashr, constant amount < w
  u32 w = a.w;
  if (op == 2 || w % 8) {
    std::vector<Lit> x, y(w);
    getbits(a, x);
    for (u32 i = 0; i < w; i++) {
      if (op == 0)
        y[i] = i >= s ? x[i - s] : L0;
      else
        y[i] = i + s < w ? x[i + s] : (op == 2 ? x[w - 1] : L0);
    }
    return frombits(y);
  }
  u32 n = w / 8, q = s / 8, r = s % 8;
  std::vector<BV8> o(n, 0);
  for (u32 i = 0; i < n; i++) {
    BV8 lo, hi;
    if (op == 0) {
      lo = i >= q ? vbyte(a, i - q) : 0;
      hi = i >= q + 1 ? vbyte(a, i - q - 1) : 0;
      if (r == 0) {
        o[i] = lo;
        continue;
      }
      if (lo == 0 && hi == 0)
        continue;
      auto l = T.bits(lo), h = T.bits(hi);
      std::array<Lit, 8> z;
      for (u32 j = 0; j < 8; j++)
        z[j] = j >= r ? l[j - r] : h[8 + j - r];
      o[i] = T.mkoct(z);
    } else {
      lo = i + q < n ? vbyte(a, i + q) : 0;
      hi = i + q + 1 < n ? vbyte(a, i + q + 1) : 0;
      if (r == 0) {
        o[i] = lo;
        continue;
      }
      if (lo == 0 && hi == 0)
        continue;
      auto l = T.bits(lo), h = T.bits(hi);
      std::array<Lit, 8> z;
      for (u32 j = 0; j < 8; j++)
        z[j] = j + r < 8 ? l[j + r] : h[j + r - 8];
      o[i] = T.mkoct(z);
    }
  }
  return symv(w, std::move(o));
}
static Val vadd(const Val& a, const Val& b, bool sub, Lit* carryout = nullptr) {
  std::vector<Lit> x, y, z(a.w);
  getbits(a, x);
  getbits(b, y);
  Lit c = sub ? L1 : L0;
  for (u32 i = 0; i < a.w; i++) {
    Lit yi = sub ? y[i] ^ 1 : y[i];
    Lit t  = T.lxor(x[i], yi);
    z[i]   = T.lxor(t, c);
    if (i + 1 < a.w || carryout)
      c = T.lxor(T.land(x[i], yi), T.land(c, t));
  }
  if (carryout)
    *carryout = c;
  return frombits(z);
}
static Lit vult(const Val& a, const Val& b) {
  Lit c;
  vadd(a, b, true, &c);
  return c ^ 1;
}
// upper bounds of products and sums that the bit patterns do not show, by the (zero-stripped) value
static std::unordered_map<std::vector<u32>, u64, VecHash> rangehint;
static std::vector<u32> rangekey(const Val& v) {
  std::vector<u32> k(v.b.begin(), v.b.end());
  while (!k.empty() && k.back() == 0)
    k.pop_back();
  return k;
}
static u64 umaxv(const Val& v) { // upper bound of an int value
  if (v.k == V_CONC)
    return v.c;
  if (v.w > 64)
    return ~0ull;
  if (!rangehint.empty()) {
    auto it = rangehint.find(rangekey(v));
    if (it != rangehint.end())
      return it->second;
  }
  std::vector<Lit> x;
  getbits(v, x);
  u64 r = 0;
  for (u32 i = 0; i < x.size(); i++)
    if (x[i] != L0)
      r |= 1ull << i;
  return r;
}
static Lit veq(const Val& a, const Val& b) {
  std::vector<Lit> d;
  for (u32 i = 0; i < (a.w + 7) / 8; i++) {
    BV8 x = T.bxor(vbyte(a, i), vbyte(b, i));
    if (x == 0)
      continue;
    if (Terms::isconst(x))
      return L0;
    auto l = T.bits(x);
    for (int j = 0; j < 8; j++)
      if (l[j] != L0)
        d.push_back(l[j]);
  }
  return T.iszero(d);
}
static Val vite(Lit c, const Val& a0, const Val& b0) {
  if (c == L1)
    return a0;
  if (c == L0)
    return b0;
  if (a0.k == V_AGG) {
    Val r = a0;
    r.agg = std::make_shared<std::vector<Val>>(*a0.agg);
    for (size_t i = 0; i < r.agg->size(); i++)
      (*r.agg)[i] = vite(c, (*a0.agg)[i], (*b0.agg)[i]);
    return r;
  }
  if (a0.k == V_PTR || b0.k == V_PTR || a0.k == V_SPTR || b0.k == V_SPTR) {
    if (a0.k == V_PTR && b0.k == V_PTR && a0.obj == b0.obj && a0.c == b0.c)
      return a0;
    if (a0.k == V_UNDEF)
      return b0;
    if (b0.k == V_UNDEF)
      return a0;
    if (a0.obj == b0.obj && a0.obj) {
      Val x = conc(64, a0.c), y = conc(64, b0.c);
      if (a0.k == V_SPTR)
        x = symv(64, std::vector<BV8>(a0.b));
      if (b0.k == V_SPTR)
        y = symv(64, std::vector<BV8>(b0.b));
      Val o = vite(c, x, y);
      Val r;
      r.w   = 64;
      r.obj = a0.obj;
      if (o.k == V_CONC) {
        r.k = V_PTR;
        r.c = o.c;
      } else {
        r.k = V_SPTR;
        r.b = o.b;
      }
      return r;
    }
    fatal("conditional pointer between different objects");
  }
  if (a0.k == V_UNDEF && b0.k == V_UNDEF)
    return a0;
  Val a = norm_int(a0), b = norm_int(b0);
  if (a.k == V_CONC && b.k == V_CONC && a.c == b.c)
    return a;
  std::vector<BV8> r((a.w + 7) / 8);
  for (u32 i = 0; i < r.size(); i++) {
    BV8 x = vbyte(a, i), y = vbyte(b, i);
    if (x == y) {
      r[i] = x;
      continue;
    }
    auto p = T.bits(x), q = T.bits(y);
    for (int j = 0; j < 8; j++)
      p[j] = T.lite(c, p[j], q[j]);
    r[i] = T.mkoct(p);
  }
  return symv(a.w, std::move(r));
}

// ------------------------------------------------------------------ memory ops
static u32 newobj(u64 size, char kind, const std::string& name) {
  auto o   = std::make_shared<Obj>();
  o->id    = S.objs.size();
  o->size  = size;
  o->kind  = kind;
  o->name  = name;
  o->birth = birthctr++;
  o->b.assign(size, Terms::UNINIT);
  S.objs.push_back(o);
  return o->id;
}
static Val mkptr(u32 obj, u64 off) {
  Val v;
  v.k   = V_PTR;
  v.w   = 64;
  v.obj = obj;
  v.c   = off;
  return v;
}
static Obj& rd(u32 id) { return *S.objs[id]; }
static Obj& wr(u32 id) {
  ObjP& p = S.objs[id];
  if (p.use_count() > 1)
    p = std::make_shared<Obj>(*p);
  p->content = UINT32_MAX;
  return *p;
}
static std::string objname(u32 id) {
  if (id >= S.objs.size())
    return "?";
  Obj& o = rd(id);
  return o.name + "(" + std::string(1, o.kind) + "," + std::to_string(o.size) + " bytes)";
}
static void chk(const Val& p, u64 n, bool write) {
  n_safety++;
  if (p.k == V_UNDEF)
    safety_fail("uninitialised pointer", "access through an uninitialised pointer");
  if (p.k != V_PTR)
    fatal("symbolic pointer in concrete access");
  if (n == 0)
    return;
  if (p.obj == 0)
    safety_fail("null dereference", "access of " + std::to_string(n) + " bytes at null+" + std::to_string(p.c));
  if (p.obj >= S.objs.size())
    safety_fail("wild pointer", "access through a wild pointer");
  Obj& o = rd(p.obj);
  if (!o.alive)
    safety_fail("use after free", "access to dead object " + objname(p.obj));
  if (o.acond != L1)
    oblige_true("safety", "use after free", o.acond);
  if (o.kind == 'f')
    safety_fail("data access to function", objname(p.obj));
  if (p.c > o.size || n > o.size - p.c)
    safety_fail(write ? "out-of-bounds write" : "out-of-bounds read",
                std::to_string(n) + " bytes at offset " + std::to_string((int64_t)p.c) + " of " + objname(p.obj));
  if (write) {
    if (o.ro)
      safety_fail("write to constant object", objname(p.obj));
    if (FC.active && o.birth < FC.birth) {
      n_frame++;
      // the written bytes must be covered by allowed ranges
      u64 a = p.c, e = p.c + n;
      bool ok = false;
      while (a < e) {
        u64 na = a;
        for (auto& [ob, lo, hi] : FC.allowed)
          if (ob == p.obj && lo <= a && hi > na)
            na = hi;
        if (na == a)
          break;
        a = na;
      }
      ok = a >= e;
      if (!ok)
        safety_fail("frame: " + FC.label, "write of " + std::to_string(n) + " bytes at offset " + std::to_string(p.c) + " of " +
                                              objname(p.obj) + " is outside the assigns clause");
    }
  }
}
static void clearptrs(Obj& o, u64 off, u64 n) {
  if (o.ptrs.empty())
    return;
  auto it = o.ptrs.lower_bound(off >= 7 ? off - 7 : 0);
  while (it != o.ptrs.end() && it->first < off + n) {
    u64 st = it->first;
    if (st + 8 > off) {
      for (u64 i = st; i < st + 8; i++)
        if (i < off || i >= off + n)
          o.b[i] = Terms::UNINIT;
      it = o.ptrs.erase(it);
    } else
      ++it;
  }
}
static void store_bytes(const Val& p, const BV8* b, u64 n) {
  chk(p, n, true);
  if (!n)
    return;
  Obj& o = wr(p.obj);
  clearptrs(o, p.c, n);
  memcpy(&o.b[p.c], b, n * sizeof(BV8));
}
// read raw bytes, initialising uninitialised ones to fresh undef atoms
static void load_bytes(const Val& p, BV8* out, u64 n) {
  chk(p, n, false);
  if (!n)
    return;
  Obj* o = &rd(p.obj);
  for (u64 i = 0; i < n; i++) {
    BV8 x = o->b[p.c + i];
    if (Terms::tag(x) == Terms::TAG_S) {
      if (x == Terms::UNINIT) {
        o            = &wr(p.obj);
        x            = fresh_undef();
        o->b[p.c + i] = x;
      } else {
        // byte of a stored pointer
        auto it = o->ptrs.upper_bound(p.c + i);
        --it;
        Val a = ptrtoint(it->second, 64);
        x     = (a.c >> (8 * (p.c + i - it->first))) & 0xff;
      }
    }
    out[i] = x;
  }
}
static void copy_mem(const Val& d, const Val& s, u64 n) {
  chk(s, n, false);
  chk(d, n, true);
  if (!n)
    return;
  std::vector<BV8> tmp(rd(s.obj).b.begin() + s.c, rd(s.obj).b.begin() + s.c + n);
  std::vector<std::pair<u64, Val>> ps;
  {
    Obj& so = rd(s.obj);
    if (!so.ptrs.empty())
      for (auto it = so.ptrs.lower_bound(s.c); it != so.ptrs.end() && it->first + 8 <= s.c + n; ++it)
        ps.push_back({it->first - s.c, it->second});
  }
  Obj& o = wr(d.obj);
  clearptrs(o, d.c, n);
  memcpy(&o.b[d.c], tmp.data(), n * sizeof(BV8));
  for (auto& [off, v] : ps)
    o.ptrs[d.c + off] = v;
}
static u32 content_id(u32 obj, u64 hi) { // identity of the contents of the first hi bytes
  Obj& o = rd(obj);
  if (hi > o.size)
    hi = o.size;
  if (o.content != UINT32_MAX && o.content_hi == hi)
    return o.content;
  o.content_hi = hi;
  std::vector<u32> v(hi);
  for (u64 i = 0; i < hi; i++)
    v[i] = Terms::tag(o.b[i]) == Terms::TAG_S ? o.b[i] : T.canon(o.b[i]);
  return o.content = T.internvec(v);
}
static Val sptr_off(const Val& p) { return symv(64, std::vector<BV8>(p.b)); }

static u64 n_select;
static void sptr_bounds(const Val& p, u64 n, const char* what) {
  n_safety++;
  Obj& o = rd(p.obj);
  if (!o.alive)
    safety_fail("use after free", objname(p.obj));
  if (o.acond != L1)
    oblige_true("safety", "use after free", o.acond);
  Val off = sptr_off(p);
  u64 mx  = umaxv(off);
  if (ct_mode) {
    std::vector<Lit> ls;
    for (BV8 b : off.b)
      for (Lit l : T.bits(b))
        ls.push_back(l);
    ct_check(ls, "memory address");
  }
  if (n <= o.size && mx <= o.size - n)
    return;
  // obligation: off <= size - n
  if (n > o.size)
    safety_fail(what, "symbolic offset access");
  Lit bad = vult(conc(64, o.size - n), off);
  if (bad == L0 || T.land(S.pc, bad) == L0)
    return;
  Model m;
  SR r = solve({bad}, S.pc, m);
  if (r == S_UNSAT)
    return;
  n_obl++;
  add_viol("safety", what, "symbolic offset into " + objname(p.obj) + " may be out of bounds", &m, false);
  throw ViolationStop{};
}
static void select_bytes(const Val& p, BV8* out, u64 n) {
  sptr_bounds(p, n, "out-of-bounds read");
  Obj& o  = rd(p.obj);
  Val off = sptr_off(p);
  std::vector<Lit> ob;
  getbits(off, ob);
  // number of symbolic positions: enumerate if small
  std::vector<u32> symb;
  u64 base = 0;
  for (u32 i = 0; i < 64; i++)
    if (ob[i] > 1)
      symb.push_back(i);
    else
      base |= (u64)ob[i] << i;
  if (symb.size() <= 3) {
    // explicit multiplexer
    std::vector<std::vector<BV8>> vals(1u << symb.size());
    for (u32 x = 0; x < vals.size(); x++) {
      u64 a = base;
      for (u32 k = 0; k < symb.size(); k++)
        if (x >> k & 1)
          a |= 1ull << symb[k];
      vals[x].resize(n);
      if (a + n <= o.size)
        load_bytes(mkptr(p.obj, a), vals[x].data(), n);
      else
        std::fill(vals[x].begin(), vals[x].end(), 0);
    }
    for (u32 k = 0; k < symb.size(); k++) {
      std::vector<std::vector<BV8>> nv(vals.size() / 2);
      for (u32 x = 0; x < nv.size(); x++) {
        Val a = symv(n * 8, std::vector<BV8>(vals[2 * x]));
        Val b = symv(n * 8, std::vector<BV8>(vals[2 * x + 1]));
        Val r = vite(ob[symb[k]], b, a);
        nv[x].resize(n);
        for (u64 i = 0; i < n; i++)
          nv[x][i] = vbyte(r, i);
      }
      vals = nv;
    }
    memcpy(out, vals[0].data(), n * sizeof(BV8));
    return;
  }
  n_select++;
  u64 low = 0;
  for (u32 i = 0; i < 64 && ob[i] < 2; i++) {
    low |= (u64)ob[i] << i;
    ob[i] = L0;
  }
  // the contents up to the largest address, rounded up to the stride
  u64 mx = umaxv(off), stride = symb[0] < 12 ? 1ull << symb[0] : 1;
  u32 cid = content_id(p.obj, mx < o.size ? (mx + n + stride - 1) / stride * stride : o.size);
  std::vector<u32> ov;
  for (Lit l : ob)
    ov.push_back(l);
  u32 app = T.app(T.name("select"), {cid, T.internvec(ov)});
  for (u64 i = 0; i < n; i++)
    out[i] = T.appout(app, low + i);
}

static Val load_typed(const Val& p, Type* ty, const DataLayout& DL);
static void store_typed(const Val& p, const Val& v, Type* ty, const DataLayout& DL);

static bool vec_flat(Type* ty, u32& ew, u32& n) {
  auto* vt = dyn_cast<FixedVectorType>(ty);
  if (!vt || !vt->getElementType()->isIntegerTy())
    return false;
  ew = vt->getElementType()->getIntegerBitWidth();
  n  = vt->getNumElements();
  return true;
}
static u32 widthof(Type* ty) {
  if (ty->isIntegerTy())
    return ty->getIntegerBitWidth();
  if (ty->isPointerTy())
    return 64;
  u32 ew, n;
  if (vec_flat(ty, ew, n))
    return ew * n;
  return 0;
}
static Val load_typed(const Val& p, Type* ty, const DataLayout& DL) {
  if (ty->isPointerTy()) {
    if (p.k == V_SPTR) {
      fatal("pointer load at symbolic offset");
    }
    chk(p, 8, false);
    Obj& o  = rd(p.obj);
    auto it = o.ptrs.find(p.c);
    if (it != o.ptrs.end())
      return it->second;
    BV8 b[8];
    bool un = true;
    for (int i = 0; i < 8; i++)
      un = un && o.b[p.c + i] == Terms::UNINIT;
    if (un) {
      Val u;
      u.w = 64;
      return u;
    }
    load_bytes(p, b, 8);
    u64 a = 0;
    for (int i = 0; i < 8; i++) {
      if (!Terms::isconst(b[i]))
        fatal("load of a symbolic pointer");
      a |= (u64)b[i] << (8 * i);
    }
    if (a >> 36)
      return mkptr((a >> 32) - 16, (u32)a);
    return mkptr(0, a);
  }
  if (ty->isIntegerTy() || ty->isVectorTy()) {
    u32 w = widthof(ty);
    if (!w)
      fatal("load of unsupported vector");
    u32 ew, n;
    if (vec_flat(ty, ew, n) && ew % 8)
      fatal("load of bit vector");
    u64 nb = (w + 7) / 8;
    std::vector<BV8> b(nb);
    if (p.k == V_SPTR)
      select_bytes(p, b.data(), nb);
    else
      load_bytes(p, b.data(), nb);
    Val v = symv(w, std::move(b));
    if (w % 8) {
      std::vector<Lit> l;
      getbits(v, l);
      return frombits(l);
    }
    return v;
  }
  if (auto* st = dyn_cast<StructType>(ty)) {
    Val v;
    v.k   = V_AGG;
    v.agg = std::make_shared<std::vector<Val>>();
    auto* sl = DL.getStructLayout(st);
    for (u32 i = 0; i < st->getNumElements(); i++) {
      Val q = p;
      if (q.k != V_PTR)
        fatal("aggregate load at symbolic offset");
      q.c += sl->getElementOffset(i);
      v.agg->push_back(load_typed(q, st->getElementType(i), DL));
    }
    return v;
  }
  if (auto* at = dyn_cast<ArrayType>(ty)) {
    Val v;
    v.k   = V_AGG;
    v.agg = std::make_shared<std::vector<Val>>();
    for (u32 i = 0; i < at->getNumElements(); i++) {
      Val q = p;
      q.c += i * DL.getTypeAllocSize(at->getElementType());
      v.agg->push_back(load_typed(q, at->getElementType(), DL));
    }
    return v;
  }
  fatal("load of unsupported type");
}
static void store_typed(const Val& p, const Val& v, Type* ty, const DataLayout& DL) {
  if (p.k == V_SPTR) {
    u32 w = widthof(ty);
    if (!w || ty->isPointerTy())
      fatal("store at symbolic offset");
    u64 n = (w + 7) / 8;
    sptr_bounds(p, n, "out-of-bounds write");
    Val off = sptr_off(p);
    u64 mx  = umaxv(off);
    u64 sz  = rd(p.obj).size;
    if (sz > 4096)
      fatal("store at symbolic offset into a large object");
    Val val = norm_int(v);
    std::vector<Lit> ob;
    getbits(off, ob);
    for (u64 a = 0; a + n <= sz && a <= mx; a++) {
      bool poss = true;
      for (u32 i = 0; i < 64; i++)
        if (ob[i] < 2 && ob[i] != ((a >> i) & 1))
          poss = false;
      if (!poss)
        continue;
      Lit c  = veq(off, conc(64, a));
      Val q  = mkptr(p.obj, a);
      Val ov = load_typed(q, ty, DL);
      store_typed(q, vite(c, val, ov), ty, DL);
    }
    return;
  }
  if (ty->isPointerTy()) {
    if (v.k == V_PTR && v.obj == 0) {
      BV8 b[8];
      for (int i = 0; i < 8; i++)
        b[i] = (v.c >> (8 * i)) & 0xff;
      store_bytes(p, b, 8);
      return;
    }
    BV8 b[8];
    if (v.k == V_UNDEF) {
      for (auto& x : b)
        x = Terms::UNINIT;
      store_bytes(p, b, 8);
      return;
    }
    for (auto& x : b)
      x = Terms::PTRB;
    store_bytes(p, b, 8);
    wr(p.obj).ptrs[p.c] = v;
    return;
  }
  if (ty->isIntegerTy() || ty->isVectorTy()) {
    u32 w  = widthof(ty);
    u64 nb = (w + 7) / 8;
    if (v.k == V_UNDEF) {
      std::vector<BV8> b(nb, Terms::UNINIT);
      store_bytes(p, b.data(), nb);
      return;
    }
    Val x = norm_int(v);
    std::vector<BV8> b(nb);
    for (u64 i = 0; i < nb; i++)
      b[i] = vbyte(x, i);
    store_bytes(p, b.data(), nb);
    if (v.k == V_PTR)
      fatal("int store of pointer");
    return;
  }
  if (v.k == V_UNDEF)
    return;
  if (auto* st = dyn_cast<StructType>(ty)) {
    auto* sl = DL.getStructLayout(st);
    for (u32 i = 0; i < st->getNumElements(); i++) {
      Val q = p;
      q.c += sl->getElementOffset(i);
      store_typed(q, (*v.agg)[i], st->getElementType(i), DL);
    }
    return;
  }
  if (auto* at = dyn_cast<ArrayType>(ty)) {
    for (u32 i = 0; i < at->getNumElements(); i++) {
      Val q = p;
      q.c += i * DL.getTypeAllocSize(at->getElementType());
      store_typed(q, (*v.agg)[i], at->getElementType(), DL);
    }
    return;
  }
  fatal("store of unsupported type");
}

// ------------------------------------------------------------------ compiled functions
struct CFunc;
struct CI {
  const Instruction* I;
  unsigned op;
  int dst; // register or -1
  std::vector<int> ops; // >=0 register, <0 constant ~idx
  // gep
  int64_t goff;
  std::vector<std::pair<int, int64_t>> gidx;
  std::vector<int> gw;
  int t0 = -1, t1 = -1; // successor blocks
  u32 w  = 0;
  const Function* callee = nullptr;
};
struct CPhi {
  int dst;
  std::vector<std::pair<int, int>> in; // (pred block, operand)
};
struct CBlock {
  std::vector<CPhi> phis;
  std::vector<CI> ins;
  int ipdom = -1;
  const BasicBlock* bb;
};
struct CFunc {
  const Function* F;
  std::vector<CBlock> blocks;
  int nregs;
  std::vector<int> args;
  bool ours = false; // harness or specification
};
static std::vector<Val> consts;
static std::unordered_map<const Function*, std::unique_ptr<CFunc>> cfuncs;
static std::unordered_map<const Constant*, int> constmap;
static Module* M;
static const DataLayout* DL;
static std::unordered_map<const GlobalValue*, u32> gobj;
static std::map<std::string, std::vector<GlobalVariable*>> gbyname;

static Val constval(const Constant* c);
static Val global_ptr(const GlobalValue* g) {
  auto it = gobj.find(g);
  if (it == gobj.end())
    fatal("unknown global %s", g->getName().str().c_str());
  return mkptr(it->second, 0);
}
static Val constval(const Constant* c) {
  Type* ty = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    u32 w = ci->getBitWidth();
    if (w <= 64)
      return conc(w, ci->getZExtValue());
    std::vector<BV8> b((w + 7) / 8);
    for (u32 i = 0; i < b.size(); i++)
      b[i] = ci->getValue().extractBitsAsZExtValue(std::min(8u, w - 8 * i), 8 * i);
    return symv(w, std::move(b));
  }
  if (isa<ConstantPointerNull>(c))
    return mkptr(0, 0);
  if (isa<UndefValue>(c)) { // includes poison
    Val v;
    v.w = widthof(ty);
    if (v.w == 0 && (ty->isStructTy() || ty->isArrayTy())) {
      v.k   = V_AGG;
      v.agg = std::make_shared<std::vector<Val>>();
      u32 n = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
      for (u32 i = 0; i < n; i++)
        v.agg->push_back(constval(cast<UndefValue>(c)->getElementValue(i)));
    }
    return v;
  }
  if (auto* g = dyn_cast<GlobalValue>(c)) {
    if (auto* al = dyn_cast<GlobalAlias>(g))
      return constval(al->getAliasee());
    return global_ptr(g);
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      Val p = constval(ce->getOperand(0));
      APInt off(64, 0);
      if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
        fatal("constant gep");
      p.c += off.getSExtValue();
      return p;
    }
    case Instruction::BitCast: return constval(ce->getOperand(0));
    case Instruction::PtrToInt: return ptrtoint(constval(ce->getOperand(0)), widthof(ty));
    default: fatal("constant expression %s", ce->getOpcodeName());
    }
  }
  u32 ew, n;
  if (vec_flat(ty, ew, n)) {
    if (ew % 8) {
      std::vector<Lit> l;
      for (u32 i = 0; i < n; i++) {
        Val e = constval(c->getAggregateElement(i));
        if (e.k == V_UNDEF)
          e = conc(ew, 0);
        std::vector<Lit> x;
        getbits(e, x);
        l.insert(l.end(), x.begin(), x.end());
      }
      return frombits(l);
    }
    std::vector<BV8> b;
    for (u32 i = 0; i < n; i++) {
      Val e = constval(c->getAggregateElement(i));
      if (e.k == V_UNDEF)
        e = to_sym_undef(e);
      for (u32 j = 0; j < ew / 8; j++)
        b.push_back(vbyte(e, j));
    }
    return symv(ew * n, std::move(b));
  }
  if (ty->isStructTy() || ty->isArrayTy()) {
    Val v;
    v.k   = V_AGG;
    v.agg = std::make_shared<std::vector<Val>>();
    u32 k = ty->isStructTy() ? ty->getStructNumElements() : ty->getArrayNumElements();
    for (u32 i = 0; i < k; i++)
      v.agg->push_back(constval(c->getAggregateElement(i)));
    return v;
  }
  fatal("unsupported constant");
}
static void init_global(u32 obj, u64 off, const Constant* c) {
  Type* ty = c->getType();
  if (isa<UndefValue>(c))
    return;
  if (isa<ConstantAggregateZero>(c)) {
    std::vector<BV8> z(DL->getTypeAllocSize(ty), 0);
    store_bytes(mkptr(obj, off), z.data(), z.size());
    return;
  }
  if (ty->isArrayTy()) {
    u64 es = DL->getTypeAllocSize(ty->getArrayElementType());
    for (u64 i = 0; i < ty->getArrayNumElements(); i++)
      init_global(obj, off + i * es, c->getAggregateElement(i));
    return;
  }
  if (auto* st = dyn_cast<StructType>(ty)) {
    auto* sl = DL->getStructLayout(st);
    for (u32 i = 0; i < st->getNumElements(); i++)
      init_global(obj, off + sl->getElementOffset(i), c->getAggregateElement(i));
    return;
  }
  store_typed(mkptr(obj, off), constval(c), ty, *DL);
}

static CFunc& compile(const Function* F) {
  auto it = cfuncs.find(F);
  if (it != cfuncs.end())
    return *it->second;
  auto cf = std::make_unique<CFunc>();
  cf->F   = F;
  std::unordered_map<const Value*, int> reg;
  std::unordered_map<const BasicBlock*, int> bid;
  int nr = 0;
  for (auto& a : F->args()) {
    reg[&a] = nr;
    cf->args.push_back(nr++);
  }
  for (auto& bb : *F) {
    int id    = bid.size();
    bid[&bb] = id;
    for (auto& I : bb)
      if (!I.getType()->isVoidTy())
        reg[&I] = nr++;
  }
  cf->nregs = nr;
  auto opnd = [&](const Value* v) -> int {
    auto r = reg.find(v);
    if (r != reg.end())
      return r->second;
    auto* c = dyn_cast<Constant>(v);
    if (!c)
      return ~0; // metadata etc
    auto k = constmap.find(c);
    if (k != constmap.end())
      return ~k->second;
    consts.push_back(constval(c));
    constmap[c] = consts.size() - 1;
    return ~(int)(consts.size() - 1);
  };
  PostDominatorTree PDT(*const_cast<Function*>(F));
  for (auto& bb : *F) {
    CBlock cb;
    cb.bb = &bb;
    if (auto* n = PDT.getNode(const_cast<BasicBlock*>(&bb)))
      if (n->getIDom() && n->getIDom()->getBlock())
        cb.ipdom = bid[n->getIDom()->getBlock()];
    for (auto& I : bb) {
      if (auto* ph = dyn_cast<PHINode>(&I)) {
        CPhi p;
        p.dst = reg[&I];
        for (u32 i = 0; i < ph->getNumIncomingValues(); i++)
          p.in.push_back({bid[ph->getIncomingBlock(i)], opnd(ph->getIncomingValue(i))});
        cb.phis.push_back(p);
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I))
        continue;
      CI ci;
      ci.I   = &I;
      ci.op  = I.getOpcode();
      ci.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
      ci.w   = widthof(I.getType());
      if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
        ci.ops.push_back(opnd(gep->getPointerOperand()));
        MapVector<Value*, APInt> vo;
        APInt co(64, 0);
        if (!gep->collectOffset(*DL, 64, vo, co))
          fatal("gep in %s", F->getName().str().c_str());
        ci.goff = co.getSExtValue();
        for (auto& [v, s] : vo) {
          ci.gidx.push_back({opnd(v), s.getSExtValue()});
          ci.gw.push_back(v->getType()->getIntegerBitWidth());
        }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) {
          ci.ops.push_back(opnd(br->getCondition()));
          ci.t0 = bid[br->getSuccessor(0)];
          ci.t1 = bid[br->getSuccessor(1)];
        } else
          ci.t0 = bid[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        ci.ops.push_back(opnd(sw->getCondition()));
        ci.t0 = bid[sw->getDefaultDest()];
        for (auto& cs : sw->cases())
          ci.gidx.push_back({bid[cs.getCaseSuccessor()], (int64_t)cs.getCaseValue()->getZExtValue()});
      } else if (auto* cb2 = dyn_cast<CallBase>(&I)) {
        ci.callee = cb2->getCalledFunction();
        if (!ci.callee)
          ci.ops.push_back(opnd(cb2->getCalledOperand()));
        for (auto& a : cb2->args())
          ci.ops.push_back(opnd(a.get()));
      } else {
        for (auto& o : I.operands())
          ci.ops.push_back(opnd(o.get()));
      }
      cb.ins.push_back(std::move(ci));
    }
    cf->blocks.push_back(std::move(cb));
  }
  if (F->getSubprogram()) {
    StringRef fn = F->getSubprogram()->getFilename();
    cf->ours     = fn.contains("ob/ob_") || fn.contains("spec/spec_") || fn.contains("spec/fv") || fn.contains("ob/contracts.h");
  }
  return *(cfuncs[F] = std::move(cf));
}

// ------------------------------------------------------------------ execution
struct Frame {
  CFunc* f;
  std::vector<Val> regs;
  std::vector<u32> allocas;
  std::map<int, int> forkdepth;
  const CI* cur = nullptr;
};
static std::vector<Frame*> fstack;
enum RS { R_STOP, R_RET, R_DEAD };
struct Res {
  RS st;
  int prev = -1;
  bool phisdone = false;
  std::vector<Val> phis;
  Val ret;
};
static std::unordered_map<const Function*, const Function*> contracts;
static Val call(const Function* F, std::vector<Val>& args, bool& dead);
static void loop_point(bool& dead);
static Res exec(Frame& fr, int blk, int prev, int stop, bool skipphis);
static int fork_limit = 24;

static inline const Val& opv(Frame& fr, int o) { return o >= 0 ? fr.regs[o] : consts[~o]; }

static Val binop_scalar(unsigned op, const Val& a0, const Val& b0, const Instruction* I) {
  // pointers as ints
  Val a = norm_int(a0), b = norm_int(b0);
  u32 w = a.w;
  if (a.k == V_CONC && b.k == V_CONC) {
    u64 x = a.c, y = b.c, r = 0, m = maskw(w);
    auto sx = [&](u64 v) { return (int64_t)(w < 64 ? (v << (64 - w)) : v) >> (w < 64 ? 64 - w : 0); };
    bool nsw = false;
    if (auto* ob = dyn_cast_or_null<OverflowingBinaryOperator>(I))
      nsw = ob->hasNoSignedWrap() && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Mul);
    switch (op) {
    case Instruction::Add: r = x + y; break;
    case Instruction::Sub: r = x - y; break;
    case Instruction::Mul: r = x * y; break;
    case Instruction::And: r = x & y; break;
    case Instruction::Or: r = x | y; break;
    case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
      n_safety++;
      if (y >= w) {
        // poison: an undefined value, an error only if something depends on it (the optimiser may evaluate shifts early)
        Val u;
        u.w = w;
        return to_sym_undef(u);
      }
      r = op == Instruction::Shl ? x << y : op == Instruction::LShr ? x >> y : (u64)(sx(x) >> y);
      break;
    case Instruction::UDiv:
    case Instruction::URem:
    case Instruction::SDiv:
    case Instruction::SRem:
      n_safety++;
      if (!y) {
        safety_fail("division by zero", "");
        return conc(w, 0);
      }
      if (op == Instruction::UDiv)
        r = x / y;
      else if (op == Instruction::URem)
        r = x % y;
      else if (op == Instruction::SDiv)
        r = (u64)(sx(x) / sx(y));
      else
        r = (u64)(sx(x) % sx(y));
      break;
    default: fatal("binop");
    }
    if (nsw && w <= 64) {
      n_safety++;
      __int128 sxx = sx(x), syy = sx(y), rr = op == Instruction::Add ? sxx + syy : op == Instruction::Sub ? sxx - syy : sxx * syy;
      if (rr != (__int128)sx(r & m))
        safety_fail("signed overflow", std::to_string(sx(x)) + " op " + std::to_string(sx(y)));
    }
    return conc(w, r);
  }
  switch (op) {
  case Instruction::And: return vand(a, b);
  case Instruction::Or: return vor(a, b);
  case Instruction::Xor: return vxor(a, b);
  case Instruction::Shl:
  case Instruction::LShr:
  case Instruction::AShr: {
    int k = op == Instruction::Shl ? 0 : op == Instruction::LShr ? 1 : 2;
    u64 s;
    if (b.k == V_CONC)
      s = b.c;
    else if (b.w > 64 && [&] {
               for (u32 i = 0; i < b.b.size(); i++)
                 if (!Terms::isconst(b.b[i]) || (i >= 8 && b.b[i]))
                   return false;
               return true;
             }()) {
      s = 0;
      for (int i = 0; i < 8; i++)
        s |= (u64)b.b[i] << (8 * i);
    } else {
      // symbolic amount: barrel shifter
      std::vector<Lit> sb;
      getbits(b, sb);
      u64 mx = umaxv(b);
      if (mx >= w) {
        Lit bad = vult(b, conc(w, w)) ^ 1;
        Model m;
        if (T.land(S.pc, bad) != L0 && solve({bad}, S.pc, m) != S_UNSAT)
          safety_fail("shift amount out of range", "symbolic shift amount");
      }
      Val r = a;
      for (u32 i = 0; i < sb.size() && (1ull << i) < w; i++)
        if (sb[i] != L0)
          r = vite(sb[i], vshift(r, k, 1ull << i), r);
      return r;
    }
    n_safety++;
    if (s >= w) {
      Val u;
      u.w = w;
      return to_sym_undef(u);
    }
    return vshift(a, k, s);
  }
  case Instruction::Add: {
    Val r = vadd(a, b, false);
    if (!rangehint.empty() && r.k == V_SYM && w <= 64 && (a.k == V_CONC || b.k == V_CONC)) {
      u64 x = umaxv(a), y = umaxv(b);
      if (x <= maskw(w) - y && (x | y) < (1ull << 62))
        rangehint[rangekey(r)] = x + y;
    }
    return r;
  }
  case Instruction::Sub: return vadd(a, b, true);
  case Instruction::Mul: {
    if (a.k == V_CONC)
      std::swap(a, b);
    if (b.k == V_CONC) {
      if (b.c == 0)
        return conc(w, 0);
      if ((b.c & (b.c - 1)) == 0)
        return vshift(a, 0, __builtin_ctzll(b.c));
      // 0/1 valued operand: mask
      u64 mx = umaxv(a);
      if (mx == 1) {
        std::vector<Lit> x, r(w, L0);
        getbits(a, x);
        for (u32 i = 0; i < w; i++)
          r[i] = (b.c >> i & 1) ? x[0] : L0;
        return frombits(r);
      }
      // constant multiple: shift-add if few bits, else opaque
      Val r = conc(w, 0);
      for (u32 i = 0; i < w; i++)
        if (b.c >> i & 1)
          r = vadd(r, vshift(a, 0, i), false);
      if (r.k == V_SYM && w <= 64 && mx < (1ull << 40) && b.c < (1ull << 20) && mx * b.c <= maskw(w))
        rangehint[rangekey(r)] = mx * b.c;
      return r;
    }
    // 0/1 * x
    for (int t = 0; t < 2; t++) {
      if (umaxv(a) == 1) {
        std::vector<Lit> x, y, r(w);
        getbits(a, x);
        getbits(b, y);
        for (u32 i = 0; i < w; i++)
          r[i] = T.land(x[0], y[i]);
        return frombits(r);
      }
      std::swap(a, b);
    }
    if (w <= 16) {
      std::vector<Lit> x;
      getbits(a, x);
      Val r = conc(w, 0);
      for (u32 i = 0; i < w; i++) {
        if (x[i] == L0)
          continue;
        Val sh = vshift(b, 0, i);
        std::vector<Lit> y;
        getbits(sh, y);
        for (auto& l : y)
          l = T.land(l, x[i]);
        r = vadd(r, frombits(y), false);
      }
      return r;
    }
    fatal("symbolic multiplication");
  }
  case Instruction::UDiv:
  case Instruction::URem:
    if (b.k == V_CONC && b.c && (b.c & (b.c - 1)) == 0) {
      u32 s = __builtin_ctzll(b.c);
      if (op == Instruction::UDiv)
        return vshift(a, 1, s);
      return vand(a, conc(w, b.c - 1));
    }
    fatal("symbolic division");
  case Instruction::SDiv:
  case Instruction::SRem:
    if (b.k == V_CONC && b.c && (b.c & (b.c - 1)) == 0) {
      u64 mx = umaxv(a);
      if (!(mx >> (w - 1) & 1)) {
        u32 s = __builtin_ctzll(b.c);
        if (op == Instruction::SDiv)
          return vshift(a, 1, s);
        return vand(a, conc(w, b.c - 1));
      }
    }
    fatal("symbolic signed division");
  default: fatal("binop %u", op);
  }
}
static Val lane(const Val& v, u32 ew, u32 i) {
  if (v.k == V_UNDEF) {
    Val u;
    u.w = ew;
    return u;
  }
  if (ew % 8 == 0) {
    std::vector<BV8> b(ew / 8);
    for (u32 j = 0; j < ew / 8; j++)
      b[j] = vbyte(v, i * (ew / 8) + j);
    return symv(ew, std::move(b));
  }
  std::vector<Lit> l;
  getbits(v, l);
  return frombits(std::vector<Lit>(l.begin() + i * ew, l.begin() + (i + 1) * ew));
}
static Val fromlanes(const std::vector<Val>& ls, u32 ew) {
  bool allundef = true;
  for (auto& x : ls)
    if (x.k != V_UNDEF)
      allundef = false;
  if (allundef) {
    Val u;
    u.w = ew * ls.size();
    return u;
  }
  if (ew % 8 == 0) {
    std::vector<BV8> b;
    for (auto& x : ls) {
      Val y = norm_int(x);
      for (u32 j = 0; j < ew / 8; j++)
        b.push_back(vbyte(y, j));
    }
    return symv(ew * ls.size(), std::move(b));
  }
  std::vector<Lit> l;
  for (auto& x : ls) {
    Val y = norm_int(x);
    std::vector<Lit> t;
    getbits(y, t);
    l.insert(l.end(), t.begin(), t.end());
  }
  return frombits(l);
}
static Val icmp_scalar(unsigned pred, const Val& a0, const Val& b0) {
  if ((a0.k == V_PTR || a0.k == V_SPTR) && (b0.k == V_PTR || b0.k == V_SPTR)) {
    if (a0.k == V_SPTR || b0.k == V_SPTR) {
      if (a0.obj != b0.obj && (pred == ICmpInst::ICMP_EQ || pred == ICmpInst::ICMP_NE))
        return conc(1, pred == ICmpInst::ICMP_NE);
      fatal("comparison of symbolic pointers");
    }
  }
  Val a = norm_int(a0), b = norm_int(b0);
  u32 w = a.w;
  if (a.k == V_CONC && b.k == V_CONC) {
    u64 x = a.c, y = b.c;
    int64_t sx = (int64_t)(w < 64 ? (x << (64 - w)) : x) >> (w < 64 ? 64 - w : 0);
    int64_t sy = (int64_t)(w < 64 ? (y << (64 - w)) : y) >> (w < 64 ? 64 - w : 0);
    bool r;
    switch (pred) {
    case ICmpInst::ICMP_EQ: r = x == y; break;
    case ICmpInst::ICMP_NE: r = x != y; break;
    case ICmpInst::ICMP_UGT: r = x > y; break;
    case ICmpInst::ICMP_UGE: r = x >= y; break;
    case ICmpInst::ICMP_ULT: r = x < y; break;
    case ICmpInst::ICMP_ULE: r = x <= y; break;
    case ICmpInst::ICMP_SGT: r = sx > sy; break;
    case ICmpInst::ICMP_SGE: r = sx >= sy; break;
    case ICmpInst::ICMP_SLT: r = sx < sy; break;
    case ICmpInst::ICMP_SLE: r = sx <= sy; break;
    default: fatal("icmp");
    }
    return conc(1, r);
  }
  switch (pred) {
  case ICmpInst::ICMP_EQ: return fromlit(veq(a, b));
  case ICmpInst::ICMP_NE: return fromlit(veq(a, b) ^ 1);
  default: break;
  }
  if (pred == ICmpInst::ICMP_SGT || pred == ICmpInst::ICMP_SGE || pred == ICmpInst::ICMP_SLT || pred == ICmpInst::ICMP_SLE) {
    std::vector<Lit> x, y;
    getbits(a, x);
    getbits(b, y);
    x[w - 1] ^= 1;
    y[w - 1] ^= 1;
    a    = frombits(x);
    b    = frombits(y);
    pred = pred == ICmpInst::ICMP_SGT   ? ICmpInst::ICMP_UGT
           : pred == ICmpInst::ICMP_SGE ? ICmpInst::ICMP_UGE
           : pred == ICmpInst::ICMP_SLT ? ICmpInst::ICMP_ULT
                                        : ICmpInst::ICMP_ULE;
  }
  // range shortcut
  if (w <= 64) {
    u64 ma = umaxv(a), mb = umaxv(b);
    if (b.k == V_CONC) {
      if (pred == ICmpInst::ICMP_ULT && ma < b.c)
        return conc(1, 1);
      if (pred == ICmpInst::ICMP_UGE && ma < b.c)
        return conc(1, 0);
      if (pred == ICmpInst::ICMP_UGT && ma <= b.c)
        return conc(1, 0);
      if (pred == ICmpInst::ICMP_ULE && ma <= b.c)
        return conc(1, 1);
      if (b.c == 0 && pred == ICmpInst::ICMP_UGT)
        return fromlit(veq(a, b) ^ 1);
    }
    if (a.k == V_CONC) {
      if (pred == ICmpInst::ICMP_ULT && mb <= a.c)
        return conc(1, 0);
      if (pred == ICmpInst::ICMP_ULE && mb < a.c)
        return conc(1, 0);
      if (a.c == 0 && pred == ICmpInst::ICMP_ULT)
        return fromlit(veq(a, b) ^ 1);
    }
  }
  switch (pred) {
  case ICmpInst::ICMP_ULT: return fromlit(vult(a, b));
  case ICmpInst::ICMP_UGT: return fromlit(vult(b, a));
  case ICmpInst::ICMP_UGE: return fromlit(vult(a, b) ^ 1);
  case ICmpInst::ICMP_ULE: return fromlit(vult(b, a) ^ 1);
  }
  fatal("icmp");
}

// ------------------------------------------------------------------ builtins
// result of a comparison of bytes: zero iff equal, otherwise of unknown sign
static Val cmp_result(Lit differ) {
  if (differ < 2 && !differ)
    return conc(32, 0);
  if (ct_mode)
    return fromlit(differ, 32);
  u32 in = T.newinput("sign of comparison " + std::to_string(undefctr++), 1);
  Lit sg = T.land(differ, T.bits(T.mkbatom(UINT32_MAX, in, 0))[0]);
  std::vector<Lit> b(32, sg);
  b[0] = differ;
  return frombits(b);
}
static std::string cstr(const Val& p) {
  std::string r;
  for (u64 i = 0; i < 4096; i++) {
    BV8 b;
    Val q = p;
    q.c += i;
    load_bytes(q, &b, 1);
    if (!Terms::isconst(b))
      fatal("symbolic string");
    if (!b)
      break;
    r += (char)b;
  }
  return r;
}
static u64 cint(const Val& v, const char* what) {
  Val x = norm_int(v);
  if (x.k != V_CONC)
    fatal("symbolic %s", what);
  return x.c;
}
static u32 argvec(const Val& p, u64 n) {
  std::vector<BV8> b(n);
  if (p.k == V_SPTR)
    select_bytes(p, b.data(), n);
  else
    load_bytes(p, b.data(), n);
  for (auto& x : b)
    x = T.canon(x);
  return T.internvec(b);
}
// ghost byte lists
struct GList {
  int parent;
  std::vector<u32> chunk;
};
static std::vector<GList> glists;
static std::map<std::string, u32> symcount;
static u64 heap_live_mark;
static std::set<u32> heap_mark;
static std::map<u64, u32> gfpoly = {{8, 0x1b}, {64, 0x1b}, {128, 0x87}, {192, 0x87}, {256, 0x425}};

static void gfmul_const(const std::vector<BV8>& a, const std::vector<BV8>& b, std::vector<BV8>& o) {
  u64 n = a.size(), bits = n * 8;
  std::vector<uint8_t> x(n), r(n, 0);
  for (u64 i = 0; i < n; i++)
    x[i] = a[i];
  for (u64 i = 0; i < bits; i++) {
    if (b[i / 8] >> (i % 8) & 1)
      for (u64 k = 0; k < n; k++)
        r[k] ^= x[k];
    bool c = x[n - 1] >> 7;
    for (u64 k = n; k-- > 0;)
      x[k] = (x[k] << 1) | (k ? x[k - 1] >> 7 : 0);
    if (c) {
      u32 p = gfpoly[bits];
      for (int k = 0; k < 4 && (u64)k < n; k++)
        x[k] ^= (p >> (8 * k)) & 0xff;
    }
  }
  o.resize(n);
  for (u64 i = 0; i < n; i++)
    o[i] = r[i];
}

static bool ring_mode;
static u64 n_ring_mul, n_ring_eq;
static RingField& ringfield(u64 nb) {
  static std::map<u64, std::unique_ptr<RingField>> m;
  auto& p = m[nb];
  if (!p)
    p = std::make_unique<RingField>(T, nb, gfpoly[nb * 8]);
  return *p;
}
static bool starts(const StringRef& s, const char* p) { return s.starts_with(p); }

static bool loadconst(const Val& p, u64 n) {
  std::vector<BV8> b(n);
  load_bytes(p, b.data(), n);
  for (BV8 x : b)
    if (!Terms::isconst(x))
      return false;
  return true;
}

// names of the parameters, from debug information
static std::vector<std::string> argnames(const Function* F) {
  std::vector<std::string> r(F->arg_size());
  auto add = [&](DILocalVariable* v) {
    if (v && v->getScope()->getSubprogram() == F->getSubprogram() && v->getArg() && v->getArg() <= r.size())
      r[v->getArg() - 1] = v->getName().str();
  };
  if (auto* sp = F->getSubprogram())
    for (auto* n : sp->getRetainedNodes())
      add(dyn_cast_or_null<DILocalVariable>(n));
  for (auto& B : *F)
    for (auto& I : B)
      if (auto* d = dyn_cast<DbgVariableIntrinsic>(&I))
        if (!d->getDebugLoc() || !d->getDebugLoc().getInlinedAt())
          add(d->getVariable());
  return r;
}
static bool builtin(const Function* F, std::vector<Val>& a, Val& ret, bool& dead) {
  StringRef n = F->getName();
  u32 rw      = widthof(F->getReturnType());
  if (starts(n, "llvm.")) {
    if (starts(n, "llvm.lifetime") || starts(n, "llvm.dbg") || starts(n, "llvm.assume") || starts(n, "llvm.experimental.noalias") ||
        starts(n, "llvm.prefetch"))
      return true;
    if (starts(n, "llvm.memcpy") || starts(n, "llvm.memmove")) {
      if (a[1].k == V_SPTR) {
        u64 len = cint(a[2], "memcpy length");
        chk(a[0], len, true);
        std::vector<BV8> b(len);
        select_bytes(a[1], b.data(), len);
        store_bytes(a[0], b.data(), len);
        return true;
      }
      u64 len = cint(a[2], "memcpy length");
      if (starts(n, "llvm.memcpy") && a[0].k == V_PTR && a[1].k == V_PTR && a[0].obj == a[1].obj && len && a[0].c != a[1].c &&
          a[0].c < a[1].c + len && a[1].c < a[0].c + len)
        safety_fail("overlapping memcpy", std::to_string(len) + " bytes within " + objname(a[0].obj));
      copy_mem(a[0], a[1], len);
      return true;
    }
    if (starts(n, "llvm.memset")) {
      u64 len = cint(a[2], "memset length");
      chk(a[0], len, true);
      std::vector<BV8> b(len, vbyte(norm_int(a[1]), 0));
      store_bytes(a[0], b.data(), len);
      return true;
    }
    if (starts(n, "llvm.bswap")) {
      Val v = norm_int(a[0]);
      std::vector<BV8> b(rw / 8);
      for (u32 i = 0; i < rw / 8; i++)
        b[i] = vbyte(v, rw / 8 - 1 - i);
      ret = symv(rw, std::move(b));
      return true;
    }
    if (starts(n, "llvm.fshl") || starts(n, "llvm.fshr")) {
      if (F->getReturnType()->isVectorTy())
        fatal("vector fshl");
      Val x = norm_int(a[0]), y = norm_int(a[1]);
      u64 s = cint(a[2], "funnel shift") % rw;
      bool l = starts(n, "llvm.fshl");
      if (s == 0) {
        ret = l ? x : y;
        return true;
      }
      if (!l)
        s = rw - s;
      Val p = binop_scalar(Instruction::Shl, x, conc(rw, s), nullptr), q = binop_scalar(Instruction::LShr, y, conc(rw, rw - s), nullptr);
      ret = binop_scalar(Instruction::Or, p, q, nullptr);
      return true;
    }
    if (starts(n, "llvm.umin") || starts(n, "llvm.umax") || starts(n, "llvm.smin") || starts(n, "llvm.smax")) {
      bool mn = starts(n, "llvm.umin") || starts(n, "llvm.smin"), sg = starts(n, "llvm.s");
      Lit c = lit1(icmp_scalar(sg ? ICmpInst::ICMP_SLT : ICmpInst::ICMP_ULT, a[0], a[1]));
      ret   = mn ? vite(c, a[0], a[1]) : vite(c, a[1], a[0]);
      return true;
    }
    if (starts(n, "llvm.ctpop")) {
      Val v = norm_int(a[0]);
      if (v.k == V_CONC) {
        ret = conc(rw, __builtin_popcountll(v.c));
        return true;
      }
      std::vector<Lit> l;
      getbits(v, l);
      Val r = conc(rw, 0);
      for (Lit x : l)
        r = vadd(r, fromlit(x, rw), false);
      ret = r;
      return true;
    }
    if (starts(n, "llvm.abs")) {
      u64 x = cint(a[0], "abs");
      int64_t sx = (int64_t)(x << (64 - rw)) >> (64 - rw);
      ret        = conc(rw, sx < 0 ? -sx : sx);
      return true;
    }
    if (starts(n, "llvm.uadd.sat") || starts(n, "llvm.usub.sat")) {
      u64 x = cint(a[0], "sat"), y = cint(a[1], "sat");
      ret = starts(n, "llvm.usub") ? conc(rw, x > y ? x - y : 0) : conc(rw, x + y > maskw(rw) || x + y < x ? maskw(rw) : x + y);
      return true;
    }
    if (n.contains(".with.overflow")) {
      u32 w  = a[0].w;
      u64 x = cint(a[0], "ovf"), y = cint(a[1], "ovf");
      __int128 sx = x, sy = y;
      bool sg = starts(n, "llvm.s");
      if (sg) {
        sx = (int64_t)(x << (64 - w)) >> (64 - w);
        sy = (int64_t)(y << (64 - w)) >> (64 - w);
      }
      __int128 r = n.contains("add") ? sx + sy : n.contains("sub") ? sx - sy : sx * sy;
      u64 t      = (u64)r & maskw(w);
      __int128 back = sg ? (__int128)((int64_t)(t << (64 - w)) >> (64 - w)) : (__int128)t;
      ret.k   = V_AGG;
      ret.agg = std::make_shared<std::vector<Val>>();
      ret.agg->push_back(conc(w, t));
      ret.agg->push_back(conc(1, back != r));
      return true;
    }
    if (starts(n, "llvm.stacksave")) {
      ret = mkptr(0, 0);
      return true;
    }
    if (starts(n, "llvm.stackrestore"))
      return true;
    if (starts(n, "llvm.is.constant")) {
      ret = conc(1, 0);
      return true;
    }
    if (starts(n, "llvm.expect")) {
      ret = a[0];
      return true;
    }
    if (starts(n, "llvm.objectsize")) {
      ret = conc(rw, ~0ull);
      return true;
    }
    if (starts(n, "llvm.trap")) {
      safety_fail("trap", "");
      dead = true;
      return true;
    }
    fatal("intrinsic %s", n.str().c_str());
  }
  if (!F->isDeclaration())
    return false;
  auto name = n.str();
  if (name == "malloc" || name == "aligned_alloc" || name == "calloc" || name == "realloc") {
    u64 sz;
    if (name == "malloc")
      sz = cint(a[0], "malloc size");
    else if (name == "calloc") {
      u64 x = cint(a[0], "calloc"), y = cint(a[1], "calloc");
      sz = x * y;
    } else if (name == "aligned_alloc")
      sz = cint(a[1], "aligned_alloc size");
    else
      sz = cint(a[1], "realloc size");
    if (sz > (1ull << 28))
      fatal("allocation of %llu bytes", (unsigned long long)sz);
    u32 o = newobj(sz, 'h', name + "@" + (curI && curI->getDebugLoc() ? std::to_string(curI->getDebugLoc().getLine()) : "?"));
    if (name == "calloc")
      std::fill(S.objs[o]->b.begin(), S.objs[o]->b.end(), 0);
    ret = mkptr(o, 0);
    if (name == "realloc") {
      if (a[0].k != V_PTR)
        fatal("realloc of symbolic pointer");
      if (a[0].obj) {
        n_safety++;
        u64 os = rd(a[0].obj).size;
        if (rd(a[0].obj).kind != 'h' || !rd(a[0].obj).alive || a[0].c)
          safety_fail("invalid realloc", objname(a[0].obj));
        copy_mem(ret, a[0], os < sz ? os : sz);
        Obj& w  = wr(a[0].obj);
        w.alive = false;
        w.b.clear();
        w.ptrs.clear();
      }
    }
    return true;
  }
  if (name == "posix_memalign") {
    u64 sz = cint(a[2], "size");
    u32 o  = newobj(sz, 'h', name);
    store_typed(a[0], mkptr(o, 0), PointerType::get(M->getContext(), 0), *DL);
    ret = conc(32, 0);
    return true;
  }
  if (name == "free") {
    n_safety++;
    if (a[0].k == V_UNDEF)
      safety_fail("free of uninitialised pointer", "");
    if (a[0].k != V_PTR)
      fatal("free of symbolic pointer");
    if (a[0].obj == 0)
      return true;
    Obj& o = rd(a[0].obj);
    if (o.kind != 'h' || a[0].c != 0)
      safety_fail("invalid free", "free of " + objname(a[0].obj) + "+" + std::to_string(a[0].c));
    if (!o.alive)
      safety_fail("double free", objname(a[0].obj));
    if (o.acond != L1)
      oblige_true("safety", "double free", o.acond);
    Obj& w  = wr(a[0].obj);
    w.alive = false;
    w.b.clear();
    w.b.shrink_to_fit();
    w.ptrs.clear();
    return true;
  }
  if (name == "explicit_bzero" || name == "bzero") {
    u64 len = cint(a[1], "bzero length");
    chk(a[0], len, true);
    std::vector<BV8> b(len, 0);
    store_bytes(a[0], b.data(), len);
    return true;
  }
  if (name == "memcpy" || name == "memmove") {
    copy_mem(a[0], a[1], cint(a[2], "length"));
    ret = a[0];
    return true;
  }
  if (name == "memset") {
    u64 len = cint(a[2], "memset length");
    chk(a[0], len, true);
    std::vector<BV8> b(len, vbyte(norm_int(a[1]), 0));
    store_bytes(a[0], b.data(), len);
    ret = a[0];
    return true;
  }
  if (name == "memcmp" || name == "bcmp") {
    u64 len = cint(a[2], "memcmp length");
    chk(a[0], len, false);
    chk(a[1], len, false);
    std::vector<BV8> x(len), y(len);
    load_bytes(a[0], x.data(), len);
    load_bytes(a[1], y.data(), len);
    if (ct_mode)
      for (u64 i = 0; i < len; i++)
        for (BV8 b : {x[i], y[i]})
          if (Terms::tag(b) != Terms::TAG_S) {
            auto l = T.bits(b);
            ct_check(std::vector<Lit>(l.begin(), l.end()), "variable-time comparison");
          }
    bool allc = true;
    for (u64 i = 0; i < len; i++)
      allc = allc && Terms::isconst(x[i]) && Terms::isconst(y[i]);
    if (allc) {
      int r = 0;
      for (u64 i = 0; i < len && !r; i++)
        r = (int)x[i] - (int)y[i];
      ret = conc(32, (u64)(int64_t)r);
      return true;
    }
    if (!len) {
      ret = conc(32, 0);
      return true;
    }
    Lit e = veq(symv(len * 8, std::move(x)), symv(len * 8, std::move(y)));
    ret   = cmp_result(e ^ 1);
    return true;
  }
  if (name == "strncmp" || name == "strcmp") {
    u64 len = name == "strncmp" ? cint(a[2], "strncmp length") : UINT64_MAX;
    auto limit = T.and_limit; // no expansion of these products
    T.and_limit = 1;
    Lit act = L1, diff = L0; // still comparing; differed before
    for (u64 i = 0; i < len && act != L0; i++) {
      BV8 c[2];
      for (int k = 0; k < 2; k++) {
        Val q = a[k];
        q.c += i;
        if (q.k == V_PTR && q.obj && q.obj < S.objs.size() && q.c >= rd(q.obj).size)
          oblige_true("safety", "out-of-bounds read by " + name, act ^ 1);
        if (q.k == V_PTR && q.obj && q.obj < S.objs.size() && q.c >= rd(q.obj).size && i)
          goto done;
        load_bytes(q, &c[k], 1);
        if (ct_mode && Terms::tag(c[k]) != Terms::TAG_S) {
          auto l = T.bits(c[k]);
          ct_check(std::vector<Lit>(l.begin(), l.end()), "variable-time comparison");
        }
      }
      {
        Lit e = veq(symv(8, {c[0]}), symv(8, {c[1]}));
        diff  = T.land(diff ^ 1, T.land(act, e ^ 1) ^ 1) ^ 1;
        act   = T.land(act, T.land(e, veq(symv(8, {c[0]}), conc(8, 0)) ^ 1));
      }
    }
  done:
    T.and_limit = limit;
    ret = cmp_result(diff);
    return true;
  }
  if (name == "strlen") {
    ret = conc(64, cstr(a[0]).size());
    return true;
  }
  if (name == "__assert_fail") {
    safety_fail("assertion", "assert(" + cstr(a[0]) + ") can fail");
    dead = true;
    return true;
  }
  if (name == "abort" || name == "exit") {
    safety_fail("abort", "call to " + name);
    dead = true;
    return true;
  }
  // ---------------- specification primitives
  if (name == "fv_sym") {
    u64 len        = cint(a[1], "fv_sym");
    chk(a[0], len, true);
    std::string nm = cstr(a[2]);
    u32 k          = symcount[nm]++;
    if (k)
      nm += "#" + std::to_string(k);
    u32 in = T.newinput(nm, len);
    std::vector<BV8> b(len);
    for (u64 i = 0; i < len; i++)
      b[i] = T.mkbatom(UINT32_MAX, in, i);
    store_bytes(a[0], b.data(), len);
    return true;
  }
  if (name == "fv_eq") {
    std::string l = cstr(a[0]);
    u64 len       = cint(a[3], "fv_eq length");
    chk(a[1], len, false);
    chk(a[2], len, false);
    std::vector<BV8> x(len), y(len);
    load_bytes(a[1], x.data(), len);
    load_bytes(a[2], y.data(), len);
    std::vector<std::pair<u64, Lit>> d;
    if (ring_mode && (len == 8 || len == 16 || len == 24 || len == 32) && x != y) {
      bool special = false;
      for (u64 i = 0; i < len; i++)
        if (Terms::tag(x[i]) == Terms::TAG_S || Terms::tag(y[i]) == Terms::TAG_S)
          special = true;
      if (!special && ringfield(len).vec(x.data()) == ringfield(len).vec(y.data())) {
        n_ring_eq++;
        oblige_zero("ensures", l, d);
        return true;
      }
    }
    for (u64 i = 0; i < len; i++) {
      BV8 z = T.bxor(x[i], y[i]);
      if (z == 0)
        continue;
      auto b = T.bits(z);
      for (int j = 0; j < 8; j++)
        if (b[j] != L0)
          d.push_back({i * 8 + j, b[j]});
    }
    oblige_zero("ensures", l, d);
    return true;
  }
  if (name == "fv_check" || name == "fv_require") {
    std::string l = cstr(a[0]);
    Val c         = norm_int(a[1]);
    Lit nz        = veq(c, conc(c.w, 0)) ^ 1;
    if (name == "fv_require")
      n_require++;
    oblige_true(name == "fv_require" ? "requires" : "ensures", l, nz);
    return true;
  }
  if (name == "fv_assume") {
    Val c  = norm_int(a[0]);
    Lit nz = veq(c, conc(c.w, 0)) ^ 1;
    S.pc   = T.land(S.pc, nz);
    n_assumes++;
    Model m;
    if (S.pc == L0 || (S.pc != L1 && solve({L1}, S.pc, m) == S_UNSAT))
      fatal("vacuous: contradictory assumption");
    return true;
  }
  if (name == "fv_cover") {
    covers[cstr(a[0])]++;
    n_covers++;
    return true;
  }
  if (name == "fv_contract") {
    if (a[0].k != V_PTR || a[1].k != V_PTR || !rd(a[0].obj).fn || !rd(a[1].obj).fn)
      fatal("fv_contract");
    contracts[rd(a[0].obj).fn] = rd(a[1].obj).fn;
    return true;
  }
  if (name == "fv_nocontract") {
    contracts.erase(rd(a[0].obj).fn);
    return true;
  }
  if (name == "fv_find_static" || name == "fv_contract_static") {
    // a function of the code under proof found by its source name; it must have the type and parameter names of the
    // contract, otherwise it counts as absent
    std::string f = cstr(a[0]);
    if (a[1].k != V_PTR || !rd(a[1].obj).fn)
      fatal("%s", name.c_str());
    const Function* C = rd(a[1].obj).fn;
    u64 found         = 0;
    Val first         = mkptr(0, 0);
    for (Function& G : *M) {
      if (G.isDeclaration() || !G.getSubprogram() || G.getSubprogram()->getName() != f || G.getFunctionType() != C->getFunctionType())
        continue;
      if (argnames(&G) != argnames(C))
        continue;
      if (!found++)
        first = global_ptr(&G);
      if (name == "fv_contract_static")
        contracts[&G] = C;
    }
    ret = name == "fv_find_static" ? first : conc(32, found);
    return true;
  }
  if (name == "fv_member") {
    static std::map<std::pair<std::string, std::string>, u64> offs;
    static bool scanned;
    if (!scanned) {
      scanned = true;
      DebugInfoFinder f;
      f.processModule(*M);
      for (DIType* t : f.types()) {
        auto* td = dyn_cast<DIDerivedType>(t);
        if (!td || td->getTag() != dwarf::DW_TAG_typedef)
          continue;
        auto* ct = dyn_cast_or_null<DICompositeType>(td->getBaseType());
        if (!ct || ct->getTag() != dwarf::DW_TAG_structure_type)
          continue;
        for (auto* e : ct->getElements())
          if (auto* d = dyn_cast<DIDerivedType>(e))
            if (d->getTag() == dwarf::DW_TAG_member)
              offs[{td->getName().str(), d->getName().str()}] = d->getOffsetInBits() / 8;
      }
    }
    auto it = offs.find({cstr(a[0]), cstr(a[1])});
    ret     = conc(64, it == offs.end() ? ~0ull : it->second);
    return true;
  }
  if (name == "fv_xor") {
    u64 n = cint(a[3], "xor length");
    for (int i = 0; i < 3; i++)
      chk(a[i], n, i == 0);
    std::vector<BV8> x(n), y(n);
    load_bytes(a[1], x.data(), n);
    load_bytes(a[2], y.data(), n);
    for (u64 i = 0; i < n; i++)
      x[i] = T.bxor(x[i], y[i]);
    store_bytes(a[0], x.data(), n);
    return true;
  }
  if (name == "fv_havoc") { // arbitrary, unusable contents
    chk(a[0], cint(a[1], "havoc"), true);
    std::vector<BV8> b(cint(a[1], "havoc"), Terms::UNINIT);
    store_bytes(a[0], b.data(), b.size());
    return true;
  }
  if (name == "fv_uf") {
    // name, out, outlen, nargs, {ptr,len}...
    std::string f = cstr(a[0]);
    u64 ol        = cint(a[2], "uf len");
    u64 na        = cint(a[3], "uf nargs");
    std::vector<u32> av;
    for (u64 i = 0; i < na; i++)
      av.push_back(argvec(a[4 + 2 * i], cint(a[5 + 2 * i], "uf arg len")));
    u32 ap = T.app(T.name(f), av);
    std::vector<BV8> o(ol);
    for (u64 i = 0; i < ol; i++)
      o[i] = T.appout(ap, i);
    store_bytes(a[1], o.data(), ol);
    return true;
  }
  if (name == "fv_uf8") { // name, table(256 bytes concrete) or null, x -> byte; folds constants through the table
    std::string f = cstr(a[0]);
    Val x         = norm_int(a[2]);
    BV8 b         = vbyte(x, 0);
    if (Terms::isconst(b) && a[1].obj) {
      BV8 r;
      Val p = a[1];
      p.c += b;
      load_bytes(p, &r, 1);
      ret = conc(8, r);
      return true;
    }
    u32 ap = T.app(T.name(f), {T.internvec({T.canon(b)})});
    ret    = symv(8, {T.appout(ap, 0)});
    return true;
  }
  if (name == "fv_gfmul") { // out, a, b, bytes
    u64 nb = cint(a[3], "gfmul");
    std::vector<BV8> x(nb), y(nb), o(nb);
    load_bytes(a[1], x.data(), nb);
    load_bytes(a[2], y.data(), nb);
    auto zero = [&](std::vector<BV8>& v) {
      for (BV8 b : v)
        if (b)
          return false;
      return true;
    };
    auto one = [&](std::vector<BV8>& v) {
      if (v[0] != 1)
        return false;
      for (u64 i = 1; i < nb; i++)
        if (v[i])
          return false;
      return true;
    };
    auto cst = [&](std::vector<BV8>& v) {
      for (BV8 b : v)
        if (!Terms::isconst(b))
          return false;
      return true;
    };
    if (zero(x) || zero(y))
      std::fill(o.begin(), o.end(), 0);
    else if (one(x))
      o = y;
    else if (one(y))
      o = x;
    else if (cst(x) && cst(y))
      gfmul_const(x, y, o);
    else if (ring_mode && nb >= 8) {
      RingField& R = ringfield(nb);
      n_ring_mul++;
      R.product(R.mul(R.vec(x.data()), R.vec(y.data())), o.data());
    }
    else if (cst(x) || cst(y)) { // multiplication by a constant is GF(2)-linear: expand it exactly
      auto &c = cst(x) ? x : y, &v = cst(x) ? y : x;
      std::vector<Lit> acc(nb * 8, L0);
      std::vector<BV8> pw = c, xx(nb, 0), t(nb);
      xx[0] = 2;
      for (u64 i = 0; i < nb * 8; i++) {
        Lit l = T.bits(v[i / 8])[i % 8];
        if (l != L0)
          for (u64 k = 0; k < nb * 8; k++)
            if (pw[k / 8] >> (k % 8) & 1)
              acc[k] = T.lxor(acc[k], l);
        gfmul_const(pw, xx, t);
        pw = t;
      }
      for (u64 i = 0; i < nb; i++) {
        std::array<Lit, 8> r;
        for (int j = 0; j < 8; j++)
          r[j] = acc[8 * i + j];
        o[i] = T.mkoct(r);
      }
    } else {
      for (auto& b : x)
        b = T.canon(b);
      for (auto& b : y)
        b = T.canon(b);
      u32 p = T.internvec(x), q = T.internvec(y);
      if (p > q)
        std::swap(p, q);
      u32 ap = T.app(T.name("gfmul" + std::to_string(nb * 8)), {p, q});
      for (u64 i = 0; i < nb; i++)
        o[i] = T.appout(ap, i);
    }
    store_bytes(a[0], o.data(), nb);
    return true;
  }
  if (name == "fv_list_new") {
    glists.push_back({-1, {}});
    ret = conc(64, glists.size() - 1);
    return true;
  }
  if (name == "fv_list_append") { // id, ptr, len
    u64 id = cint(a[0], "ghost list");
    if (id >= glists.size())
      fatal("bad ghost list");
    GList g;
    g.parent = id;
    Val len  = norm_int(a[2]);
    if (len.k == V_CONC) {
      if (a[1].k == V_PTR)
        chk(a[1], len.c, false);
      g.chunk.resize(len.c);
      if (a[1].k == V_SPTR)
        select_bytes(a[1], g.chunk.data(), len.c);
      else
        load_bytes(a[1], g.chunk.data(), len.c);
      for (auto& x : g.chunk)
        x = T.canon(x);
    } else {
      if (a[1].k != V_PTR)
        fatal("blob pointer");
      g.chunk.push_back(Terms::TAG_S | 32);
      g.chunk.push_back(a[1].obj);
      g.chunk.push_back((u32)a[1].c);
      std::vector<Lit> lb;
      getbits(len, lb);
      std::vector<u32> lv(lb.begin(), lb.end());
      g.chunk.push_back(T.internvec(lv));
    }
    glists.push_back(std::move(g));
    ret = conc(64, glists.size() - 1);
    return true;
  }
  if (name == "fv_list_uf") { // name, list, out, skip, outlen
    std::string f = cstr(a[0]);
    u64 id        = cint(a[1], "ghost list");
    std::vector<u64> ch;
    for (int64_t g = id; g >= 0; g = glists[g].parent)
      ch.push_back(g);
    std::vector<u32> v;
    for (auto it = ch.rbegin(); it != ch.rend(); ++it)
      v.insert(v.end(), glists[*it].chunk.begin(), glists[*it].chunk.end());
    u32 ap   = T.app(T.name(f), {T.internvec(v)});
    u64 skip = cint(a[3], "skip"), ol = cint(a[4], "len");
    std::vector<BV8> o(ol);
    for (u64 i = 0; i < ol; i++)
      o[i] = T.appout(ap, skip + i);
    store_bytes(a[2], o.data(), ol);
    return true;
  }
  if (name == "fv_frame_begin") {
    if (FC.active)
      fatal("nested frame");
    FC         = FrameCk();
    FC.active  = true;
    FC.label   = cstr(a[0]);
    FC.birth   = birthctr++;
    return true;
  }
  if (name == "fv_assigns") {
    u64 len = cint(a[1], "assigns");
    if (a[0].k == V_PTR && a[0].obj)
      FC.allowed.push_back({a[0].obj, a[0].c, a[0].c + len});
    return true;
  }
  if (name == "fv_frame_end") {
    if (!FC.active)
      fatal("no frame");
    FC.active = false;
    n_obl++;
    n_dis++;
    n_norm++;
    obl_labels["frame: " + FC.label]++;
    return true;
  }
  if (name == "fv_heap_mark") {
    heap_mark.clear();
    for (auto& o : S.objs)
      if (o && o->kind == 'h' && o->alive)
        heap_mark.insert(o->id);
    return true;
  }
  if (name == "fv_heap_check") { // label, extra allowed live objects
    std::string l = cstr(a[0]);
    u64 ex        = cint(a[1], "extra");
    u64 live      = 0;
    std::string which;
    for (auto& o : S.objs)
      if (o && o->kind == 'h' && o->alive && !heap_mark.count(o->id)) {
        if (o->acond != L1) {
          Model m;
          if (solve({o->acond}, S.pc, m) == S_UNSAT)
            continue;
        }
        live++;
        which += objname(o->id) + " ";
      }
    n_obl++;
    obl_labels[l]++;
    if (live > ex) {
      add_viol("leak", l, "leaked heap objects: " + which, nullptr, false);
    } else {
      n_dis++;
      n_norm++;
    }
    return true;
  }
  if (name == "fv_is_const") { // ptr,len -> 1 if all concrete
    ret = conc(32, loadconst(a[0], cint(a[1], "len")));
    return true;
  }
  if (name == "fv_obj_size") {
    ret = conc(64, rd(a[0].obj).size - a[0].c);
    return true;
  }
  if (name == "fv_loop_point") {
    loop_point(dead);
    return true;
  }
  if (name == "fv_symbolic") {
    ret = conc(32, 1);
    return true;
  }
  if (name == "fv_log") {
    std::string s = cstr(a[0]);
    fprintf(stderr, "[fv] %s", s.c_str());
    if (a.size() > 1) {
      Val v = norm_int(a[1]);
      if (v.k == V_CONC)
        fprintf(stderr, " %llu", (unsigned long long)v.c);
      else
        fprintf(stderr, " <%s ...>", litname(T.bits(v.b[0])[0]).c_str());
    }
    fprintf(stderr, "\n");
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ loops with a data-dependent number of iterations
// fv_loop_point() inside a contract marks the program point of its caller.  The second time a path comes to the point,
// the state there is compared with the state of the first time.  Where they differ, the first state is generalised
// (arbitrary value, the run is repeated) until the second one is an instance of the first: then everything shown from
// the first passage on covers the second, and the path is cut (induction on the number of passages).
struct Snap {
  std::vector<std::map<int, Val>> live;
  std::vector<ObjP> objs;
};
static std::set<int> live_after(CFunc& f, const CI* at) {
  size_t n = f.blocks.size();
  std::vector<std::set<int>> in(n);
  auto phiuses = [&](int b, int succ, std::set<int>& l) {
    for (auto& p : f.blocks[succ].phis)
      for (auto& [pb, o] : p.in)
        if (pb == b && o >= 0)
          l.insert(o);
  };
  auto succs = [&](CBlock& b) {
    std::vector<int> r;
    const CI& t = b.ins.back();
    if (t.t0 >= 0)
      r.push_back(t.t0);
    if (t.t1 >= 0)
      r.push_back(t.t1);
    if (t.op == Instruction::Switch)
      for (auto& [tb, v] : t.gidx)
        r.push_back(tb);
    return r;
  };
  auto out = [&](int b) {
    std::set<int> l;
    for (int s : succs(f.blocks[b])) {
      l.insert(in[s].begin(), in[s].end());
      phiuses(b, s, l);
    }
    return l;
  };
  auto uses = [&](const CI& c, std::set<int>& l) {
    if (c.dst >= 0)
      l.erase(c.dst);
    for (int o : c.ops)
      if (o >= 0)
        l.insert(o);
    if (c.op == Instruction::GetElementPtr)
      for (auto& [o, sc] : c.gidx)
        if (o >= 0)
          l.insert(o);
  };
  bool ch = true;
  while (ch) {
    ch = false;
    for (int b = n - 1; b >= 0; b--) {
      std::set<int> l = out(b);
      auto& ins       = f.blocks[b].ins;
      for (size_t i = ins.size(); i-- > 0;)
        uses(ins[i], l);
      for (auto& p : f.blocks[b].phis)
        l.erase(p.dst);
      if (l != in[b]) {
        in[b] = l;
        ch    = true;
      }
    }
  }
  for (size_t b = 0; b < n; b++) {
    auto& ins = f.blocks[b].ins;
    if (!ins.empty() && at >= &ins[0] && at <= &ins.back()) {
      std::set<int> l = out(b);
      for (size_t i = ins.size(); &ins[--i] != at;)
        uses(ins[i], l);
      if (at->dst >= 0)
        l.erase(at->dst);
      return l;
    }
  }
  fatal("loop point");
}
static std::set<std::pair<u32, u64>> widen_mem;
static std::set<std::pair<u32, int>> widen_reg;
static int g_argc;
static char** g_argv;
static u64 n_loop_points, n_loop_cuts;
static bool repo_code() { return !fstack.empty() && !fstack.back()->f->ours; }
static Val fresh_val(const Val& v, const std::string& nm) {
  Val x   = norm_int(v);
  u32 nb  = (x.w + 7) / 8;
  u32 in  = T.newinput(nm, nb);
  std::vector<BV8> b(nb);
  for (u32 i = 0; i < nb; i++)
    b[i] = T.mkbatom(UINT32_MAX, in, i);
  if (x.w % 8) {
    auto l = T.bits(b.back());
    for (u32 i = x.w % 8; i < 8; i++)
      l[i] = L0;
    b.back() = T.mkoct(l);
  }
  return symv(x.w, std::move(b));
}
static bool sameval(const Val& a, const Val& b) {
  if (a.k == V_UNDEF)
    return true;
  if (a.k != b.k) {
    return false;
  }
  if (a.k == V_AGG) {
    if (a.agg->size() != b.agg->size())
      return false;
    for (size_t i = 0; i < a.agg->size(); i++)
      if (!sameval((*a.agg)[i], (*b.agg)[i]))
        return false;
    return true;
  }
  return a.w == b.w && a.obj == b.obj && a.c == b.c && a.b == b.b;
}
static void loop_point(bool& dead) {
  // frames below the one of the contract
  if (fstack.size() < 2)
    fatal("loop point outside a contract");
  std::vector<const void*> key;
  size_t nf = fstack.size() - 1;
  for (size_t i = 0; i < nf; i++)
    key.push_back(fstack[i]->cur);
  n_loop_points++;
  if (S.snaps) {
    auto it = S.snaps->find(key);
    if (it != S.snaps->end()) {
      Snap& sn = *it->second;
      std::vector<std::string> w;
      for (size_t i = 0; i < nf; i++)
        for (auto& [r, v] : sn.live[i]) {
          const Val& x = fstack[i]->regs[r];
          if (sameval(v, x) || (widen_reg.count({(u32)i, r}) && (x.k == V_CONC || x.k == V_SYM)))
            continue;
          if ((v.k != V_CONC && v.k != V_SYM) || (x.k != V_CONC && x.k != V_SYM))
            fatal("loop without derivable invariant (register)");
          w.push_back("r:" + std::to_string(i) + ":" + std::to_string(r));
        }
      for (size_t i = 0; i < sn.objs.size(); i++) {
        ObjP &a = sn.objs[i], &b = S.objs[i];
        if (a == b || !a || !a->alive)
          continue;
        if (!b->alive) {
          if (a->kind == 's')
            continue;
          fatal("loop without derivable invariant (released object)");
        }
        if (a->size != b->size || a->acond != b->acond)
          fatal("loop without derivable invariant (object)");
        for (u64 k = 0; k < a->size; k++) {
          BV8 x = a->b[k], y = b->b[k];
          if (x == Terms::UNINIT)
            continue;
          if (x == Terms::PTRB || y == Terms::PTRB) {
            if (x != y)
              fatal("loop without derivable invariant (pointer)");
            continue;
          }
          if (x != y && y == Terms::UNINIT)
            fatal("loop without derivable invariant (uninitialised)");
          if (x != y && !widen_mem.count({(u32)i, k}))
            w.push_back("m:" + std::to_string(i) + ":" + std::to_string(k));
        }
        for (auto& [o, v] : a->ptrs) {
          auto p = b->ptrs.find(o);
          if (a->b[o] == Terms::PTRB && (p == b->ptrs.end() || !sameval(v, p->second)))
            fatal("loop without derivable invariant (pointer)");
        }
      }
      for (size_t i = sn.objs.size(); i < S.objs.size(); i++)
        if (S.objs[i] && S.objs[i]->kind == 'h' && S.objs[i]->alive)
          fatal("loop without derivable invariant (allocation)");
      if (w.empty()) {
        n_loop_cuts++;
        n_obl++, n_dis++, n_norm++;
        obl_labels["loop: state of a later passage is an instance of the first"]++;
        dead = true;
        return;
      }
      // repeat with the differing parts arbitrary
      std::vector<char*> av;
      std::string ws;
      for (int i = 0; i < g_argc; i++) {
        if (!strcmp(g_argv[i], "--widen")) {
          ws = std::string(g_argv[++i]) + ",";
          continue;
        }
        av.push_back(g_argv[i]);
      }
      for (auto& x : w)
        ws += x + ",";
      av.push_back((char*)"--widen");
      av.push_back((char*)ws.c_str());
      av.push_back(nullptr);
      fflush(stdout);
      fflush(stderr);
      if (getenv("FVE_DEBUG_WIDEN"))
        fprintf(stderr, "widen %zu: %.2000s\n", w.size(), ws.c_str());
      execv("/proc/self/exe", av.data());
      fatal("restart: %s", strerror(errno));
    }
  }
  for (auto& [i, r] : widen_reg)
    if (i < nf && r < (int)fstack[i]->regs.size())
      fstack[i]->regs[r] = fresh_val(fstack[i]->regs[r], "loop_r" + std::to_string(i) + "_" + std::to_string(r));
  for (auto& [o, k] : widen_mem)
    if (o < S.objs.size() && rd(o).alive && k < rd(o).size)
      wr(o).b[k] = T.mkbatom(UINT32_MAX, T.newinput("loop_m" + std::to_string(o) + "_" + std::to_string(k), 1), 0);
  auto sn = std::make_shared<Snap>();
  for (size_t i = 0; i < nf; i++) {
    std::map<int, Val> l;
    for (int r : live_after(*fstack[i]->f, fstack[i]->cur))
      l[r] = fstack[i]->regs[r];
    sn->live.push_back(l);
  }
  sn->objs   = S.objs;
  auto ns    = S.snaps ? std::make_shared<Snaps>(*S.snaps) : std::make_shared<Snaps>();
  (*ns)[key] = sn;
  S.snaps    = ns;
}

static Val call(const Function* F, std::vector<Val>& args, bool& dead) {
  auto ct = contracts.find(F);
  if (ct != contracts.end()) {
    contract_uses[(F->hasLocalLinkage() && F->getSubprogram() ? F->getSubprogram()->getName() : F->getName()).str() + " -> " + ct->second->getName().str()]++;
    n_calls_contract++;
    F = ct->second;
  }
  Val ret;
  ret.w = widthof(F->getReturnType());
  if (F->isIntrinsic() || F->isDeclaration()) {
    if (builtin(F, args, ret, dead))
      return ret;
    fatal("call of function without body or contract: %s", F->getName().str().c_str());
  }
  if (cstack.size() > 400)
    fatal("call depth");
  CFunc& cf = compile(F);
  Frame fr;
  fr.f = &cf;
  fr.regs.resize(cf.nregs);
  // ABI: byval copies
  for (u32 i = 0; i < cf.args.size(); i++) {
    if (i >= args.size())
      fatal("argument count");
    if (F->hasParamAttribute(i, Attribute::ByVal)) {
      Type* ty = F->getParamByValType(i);
      u32 o    = newobj(DL->getTypeAllocSize(ty), 's', "byval");
      copy_mem(mkptr(o, 0), args[i], DL->getTypeAllocSize(ty));
      fr.allocas.push_back(o);
      fr.regs[cf.args[i]] = mkptr(o, 0);
    } else
      fr.regs[cf.args[i]] = args[i];
  }
  const Instruction* sv = curI;
  cstack.push_back(F);
  u64* const cur0 = n_safety_cur;
  n_safety_cur    = cf.ours ? &n_safety_own : &n_safety_repo;
  fstack.push_back(&fr);
  Res r = exec(fr, 0, -1, -1, false);
  fstack.pop_back();
  n_safety_cur = cur0;
  cstack.pop_back();
  curI = sv;
  for (u32 o : fr.allocas)
    if (o < S.objs.size()) {
      Obj& w  = wr(o);
      w.alive = false;
      w.b.clear();
      w.b.shrink_to_fit();
      w.ptrs.clear();
    }
  if (r.st == R_DEAD)
    dead = true;
  if (r.st == R_RET && !F->getReturnType()->isVoidTy())
    return r.ret;
  return ret;
}

static void eval_phis(Frame& fr, CBlock& b, int prev, std::vector<Val>& out) {
  for (auto& p : b.phis) {
    bool f = false;
    for (auto& [pb, o] : p.in)
      if (pb == prev) {
        out.push_back(opv(fr, o));
        f = true;
        break;
      }
    if (!f)
      fatal("phi");
  }
}

static void merge_mem(Lit c, std::vector<ObjP>& A, std::vector<ObjP>& B, size_t base) {
  // result into S.objs: A where c, B otherwise
  // objects created after the fork: A's keep ids; B's created with different ids cannot be shared.
  std::vector<ObjP> R;
  size_t n = std::max(A.size(), B.size());
  R.resize(n);
  for (size_t i = 0; i < n; i++) {
    ObjP a = i < A.size() ? A[i] : nullptr, b = i < B.size() ? B[i] : nullptr;
    if (!a || !b) {
      R[i] = a ? a : b;
      continue;
    }
    if (a == b) {
      R[i] = a;
      continue;
    }
    if (a->alive != b->alive) {
      if (a->kind == 's') {
        R[i] = a->alive ? b : a;
        continue;
      }
      // released on one path only
      auto r   = std::make_shared<Obj>(a->alive ? *a : *b);
      r->acond = T.lite(c, a->alive ? a->acond : L0, b->alive ? b->acond : L0);
      R[i]     = r;
      continue;
    }
    if (!a->alive) {
      R[i] = a;
      continue;
    }
    auto r     = std::make_shared<Obj>(*a);
    r->acond   = T.lite(c, a->acond, b->acond);
    r->content = UINT32_MAX;
    if (a->size != b->size)
      throw Fatal{"merge of different objects"};
    for (u64 k = 0; k < a->size; k++) {
      BV8 x = a->b[k], y = b->b[k];
      if (x == y)
        continue;
      if (Terms::tag(x) == Terms::TAG_S || Terms::tag(y) == Terms::TAG_S) {
        if (x == Terms::PTRB || y == Terms::PTRB)
          throw Fatal{"merge of pointer bytes at " + where()};
        // uninitialised on one side: make it a fresh undefined byte
        if (x == Terms::UNINIT)
          x = fresh_undef();
        if (y == Terms::UNINIT)
          y = fresh_undef();
      }
      auto p = T.bits(x), q = T.bits(y);
      for (int j = 0; j < 8; j++)
        p[j] = T.lite(c, p[j], q[j]);
      r->b[k] = T.mkoct(p);
    }
    for (auto& [off, v] : a->ptrs) {
      auto it = b->ptrs.find(off);
      if (it == b->ptrs.end())
        throw Fatal{"merge of pointers"};
      r->ptrs[off] = vite(c, v, it->second);
    }
    R[i] = r;
  }
  S.objs = std::move(R);
  (void)base;
}

static void check_undef_branch(Lit c) {
  bool uf = false, un = false;
  std::set<u32> seen;
  collect_support(c, seen, uf, un);
  n_safety++;
  if (un)
    safety_fail("branch on uninitialised value", litname(c));
}

static std::shared_ptr<Snaps> snaps_common(const std::shared_ptr<Snaps>& a, const std::shared_ptr<Snaps>& b) {
  if (a == b)
    return a;
  auto r = std::make_shared<Snaps>();
  if (a && b)
    for (auto& [k, v] : *a) {
      auto it = b->find(k);
      if (it != b->end() && it->second == v)
        (*r)[k] = v;
    }
  return r;
}

static Res exec(Frame& fr, int blk, int prev, int stop, bool skipphis) {
  std::vector<Val> pv;
  while (true) {
    if (blk == stop) {
      Res r;
      r.st   = R_STOP;
      r.prev = prev;
      if (skipphis) {
        r.phisdone = true;
        for (auto& p : fr.f->blocks[blk].phis)
          r.phis.push_back(fr.regs[p.dst]);
      }
      return r;
    }
    CBlock& b = fr.f->blocks[blk];
    if (!skipphis && !b.phis.empty()) {
      pv.clear();
      eval_phis(fr, b, prev, pv);
      for (size_t i = 0; i < pv.size(); i++)
        fr.regs[b.phis[i].dst] = std::move(pv[i]);
    }
    skipphis = false;
    for (auto& ci : b.ins) {
      n_instr++;
      curI = ci.I;
      switch (ci.op) {
      case Instruction::Ret: {
        Res r;
        r.st = R_RET;
        if (!ci.ops.empty())
          r.ret = opv(fr, ci.ops[0]);
        return r;
      }
      case Instruction::Unreachable: {
        Res r;
        r.st = R_DEAD;
        return r;
      }
      case Instruction::Br: {
        if (ci.ops.empty()) {
          prev = blk;
          blk  = ci.t0;
          goto next;
        }
        const Val& cv = opv(fr, ci.ops[0]);
        Lit c         = lit1(cv);
        if (c < 2) {
          prev = blk;
          blk  = c ? ci.t0 : ci.t1;
          goto next;
        }
        check_undef_branch(c);
        ct_check({c}, "branch condition");
        hint(ci.I, c);
        Lit pct = T.land(S.pc, c), pcf = T.land(S.pc, c ^ 1);
        if (pct == L0 || pcf == L0) {
          prev = blk;
          blk  = pcf == L0 ? ci.t0 : ci.t1;
          goto next;
        }
        if (n_assumes) { // conditions settled by the assumptions
          const int k = settled(c);
          if (k >= 0) {
            prev = blk;
            blk  = k ? ci.t0 : ci.t1;
            goto next;
          }
        }
        int ip = b.ipdom;
        if (++fr.forkdepth[blk] > fork_limit) {
          fatal("data-dependent loop (no invariant)");
        }
        Lit pc0 = S.pc;
        std::vector<ObjP> m0 = S.objs;
        std::vector<Val> r0  = fr.regs;
        auto sn0             = S.snaps;
        size_t na            = fr.allocas.size();
        S.pc                 = pct;
        Res ra               = exec(fr, ci.t0, blk, ip, false);
        const Lit pca        = S.pc;
        auto sna             = S.snaps;
        S.snaps              = sn0;
        std::vector<ObjP> ma = std::move(S.objs);
        std::vector<Val> rga = std::move(fr.regs);
        std::vector<u32> ala = fr.allocas;
        // second side: objects it creates get ids after those of the first side
        S.objs = std::move(m0);
        size_t basen = S.objs.size();
        (void)basen;
        std::vector<ObjP> pad;
        while (S.objs.size() < ma.size()) {
          auto d   = std::make_shared<Obj>();
          d->id    = S.objs.size();
          d->size  = 0;
          d->kind  = 'x';
          d->alive = false;
          d->name  = "other-path";
          d->birth = birthctr;
          S.objs.push_back(d);
        }
        fr.regs = std::move(r0);
        S.pc    = pcf;
        curI    = ci.I;
        Res rb  = exec(fr, ci.t1, blk, ip, false);
        const Lit pcb = S.pc;
        if (ra.st != R_DEAD && rb.st != R_DEAD)
          S.snaps = snaps_common(sna, S.snaps);
        else if (rb.st == R_DEAD)
          S.snaps = sna;
        fr.forkdepth[blk]--;
        std::vector<ObjP> mb = std::move(S.objs);
        for (size_t i = na; i < ala.size(); i++)
          fr.allocas.push_back(ala[i]);
        // paths cut on the way (assumptions, dead ends, loop induction) stay excluded
        S.pc = pca == pct && pcb == pcf ? pc0 : T.lor(pca, pcb);
        if (ra.st == R_DEAD && rb.st == R_DEAD) {
          S.objs = std::move(ma);
          return ra;
        }
        if (ra.st == R_DEAD || rb.st == R_DEAD) {
          // the dead side was shown infeasible or reported; continue with the other
          Res& r = ra.st == R_DEAD ? rb : ra;
          if (ra.st == R_DEAD)
            S.objs = std::move(mb);
          else {
            S.objs  = std::move(ma);
            fr.regs = std::move(rga);
          }
          S.pc = ra.st == R_DEAD ? pcb : pca;
          if (r.st == R_RET)
            return r;
          if (!r.phisdone) {
            prev = r.prev;
            blk  = ip;
            goto next;
          }
          for (size_t i = 0; i < r.phis.size(); i++)
            fr.regs[fr.f->blocks[ip].phis[i].dst] = r.phis[i];
          prev     = -1;
          blk      = ip;
          skipphis = true;
          goto next;
        }
        // objects created only on side a are padded entries in b: take a's; b's own come after
        for (size_t i = 0; i < mb.size() && i < ma.size(); i++)
          if (mb[i]->kind == 'x' && ma[i]->kind != 'x')
            mb[i] = ma[i];
        if (ra.st == R_RET && rb.st == R_RET) {
          curI = ci.I;
          merge_mem(c, ma, mb, 0);
          Res r;
          r.st = R_RET;
          if (!fr.f->F->getReturnType()->isVoidTy())
            r.ret = vite(c, ra.ret, rb.ret);
          return r;
        }
        if (ra.st != R_STOP || rb.st != R_STOP)
          fatal("mixed branch outcome");
        // phi values at the join
        std::vector<Val> pa, pb2;
        CBlock& jb = fr.f->blocks[ip];
        if (rb.phisdone)
          pb2 = rb.phis;
        else
          eval_phis(fr, jb, rb.prev, pb2);
        std::swap(fr.regs, rga);
        if (ra.phisdone)
          pa = ra.phis;
        else
          eval_phis(fr, jb, ra.prev, pa);
        curI = ci.I;
        merge_mem(c, ma, mb, 0);
        for (size_t i = 0; i < pa.size(); i++)
          fr.regs[jb.phis[i].dst] = vite(c, pa[i], pb2[i]);
        prev     = -1;
        blk      = ip;
        skipphis = true;
        goto next;
      }
      case Instruction::Switch: {
        Val v = norm_int(opv(fr, ci.ops[0]));
        if (v.k != V_CONC)
          fatal("symbolic switch");
        int t = ci.t0;
        for (auto& [tb, cv] : ci.gidx)
          if ((u64)cv == v.c) {
            t = tb;
            break;
          }
        prev = blk;
        blk  = t;
        goto next;
      }
      case Instruction::Alloca: {
        auto* ai = cast<AllocaInst>(ci.I);
        u64 n    = cint(opv(fr, ci.ops[0]), "alloca size");
        u64 sz   = n * DL->getTypeAllocSize(ai->getAllocatedType());
        u32 o    = newobj(sz, 's', ai->hasName() ? ai->getName().str() : "alloca");
        fr.allocas.push_back(o);
        fr.regs[ci.dst] = mkptr(o, 0);
        break;
      }
      case Instruction::Load: fr.regs[ci.dst] = load_typed(opv(fr, ci.ops[0]), ci.I->getType(), *DL); break;
      case Instruction::Store:
        store_typed(opv(fr, ci.ops[1]), opv(fr, ci.ops[0]), ci.I->getOperand(0)->getType(), *DL);
        break;
      case Instruction::GetElementPtr: {
        Val p = opv(fr, ci.ops[0]);
        if (ci.I->getType()->isVectorTy())
          fatal("vector gep");
        if (p.k == V_UNDEF) {
          fr.regs[ci.dst] = p;
          break;
        }
        int64_t off = ci.goff;
        bool sym    = p.k == V_SPTR;
        Val so      = sym ? sptr_off(p) : conc(64, p.c);
        for (size_t i = 0; i < ci.gidx.size(); i++) {
          Val x = norm_int(opv(fr, ci.gidx[i].first));
          if (x.k == V_CONC) {
            int64_t sx = ci.gw[i] < 64 ? (int64_t)(x.c << (64 - ci.gw[i])) >> (64 - ci.gw[i]) : (int64_t)x.c;
            off += sx * ci.gidx[i].second;
          } else {
            sym = true;
            // index is sign-extended
            std::vector<Lit> l;
            getbits(x, l);
            Lit sg = l.back();
            l.resize(64, sg);
            Val e = frombits(l);
            int64_t sc = ci.gidx[i].second;
            if (sc < 0)
              fatal("negative symbolic scale");
            so = binop_scalar(Instruction::Add, so, binop_scalar(Instruction::Mul, e, conc(64, sc), nullptr), nullptr);
          }
        }
        if (sym) {
          so = binop_scalar(Instruction::Add, so, conc(64, (u64)off), nullptr);
          Val r;
          r.w   = 64;
          r.obj = p.obj;
          if (so.k == V_CONC) {
            r.k = V_PTR;
            r.c = so.c;
          } else {
            r.k = V_SPTR;
            r.b = so.b;
          }
          fr.regs[ci.dst] = r;
        } else {
          p.c += off;
          fr.regs[ci.dst] = p;
        }
        break;
      }
      case Instruction::ICmp: {
        auto* ic = cast<ICmpInst>(ci.I);
        u32 ew, nl;
        Type* ot = ic->getOperand(0)->getType();
        if (ot->isVectorTy()) {
          if (!vec_flat(ot, ew, nl))
            fatal("vector icmp");
          std::vector<Val> ls;
          const Val &x = opv(fr, ci.ops[0]), &y = opv(fr, ci.ops[1]);
          for (u32 i = 0; i < nl; i++)
            ls.push_back(icmp_scalar(ic->getPredicate(), lane(x, ew, i), lane(y, ew, i)));
          fr.regs[ci.dst] = fromlanes(ls, 1);
        } else
          fr.regs[ci.dst] = icmp_scalar(ic->getPredicate(), opv(fr, ci.ops[0]), opv(fr, ci.ops[1]));
        if (hint_mode && !ot->isVectorTy() && fr.regs[ci.dst].k != V_CONC)
          hint(ci.I, lit1(fr.regs[ci.dst]));
        break;
      }
      case Instruction::Select: {
        const Val& cv = opv(fr, ci.ops[0]);
        u32 ew, nl;
        if (ci.I->getOperand(0)->getType()->isVectorTy()) {
          if (!vec_flat(ci.I->getType(), ew, nl))
            fatal("vector select");
          std::vector<Val> ls;
          for (u32 i = 0; i < nl; i++)
            ls.push_back(vite(lit1(lane(cv, 1, i)), lane(opv(fr, ci.ops[1]), ew, i), lane(opv(fr, ci.ops[2]), ew, i)));
          fr.regs[ci.dst] = fromlanes(ls, ew);
          break;
        }
        Lit c           = lit1(cv);
        ct_check({c}, "selection");
        hint(ci.I, c);
        Val r           = vite(c, opv(fr, ci.ops[1]), opv(fr, ci.ops[2]));
        fr.regs[ci.dst] = std::move(r);
        break;
      }
      case Instruction::Call: {
        const Function* cal = ci.callee;
        size_t ai           = 0;
        if (!cal) {
          const Val& fp = opv(fr, ci.ops[0]);
          if (fp.k != V_PTR || !fp.obj || !rd(fp.obj).fn)
            fatal("indirect call");
          cal = rd(fp.obj).fn;
          ai  = 1;
        }
        std::vector<Val> args;
        for (; ai < ci.ops.size(); ai++)
          args.push_back(opv(fr, ci.ops[ai]));
        bool dead = false;
        fr.cur    = &ci;
        Val r     = call(cal, args, dead);
        curI      = ci.I;
        if (dead) {
          Res rr;
          rr.st = R_DEAD;
          return rr;
        }
        if (ci.dst >= 0)
          fr.regs[ci.dst] = std::move(r);
        break;
      }
      case Instruction::Trunc:
      case Instruction::ZExt:
      case Instruction::SExt: {
        Type* st = ci.I->getOperand(0)->getType();
        auto one = [&](const Val& x0, u32 w) -> Val {
          if (x0.k == V_UNDEF && ci.op == Instruction::Trunc) {
            Val u;
            u.w = w;
            return u;
          }
          Val x = norm_int(x0);
          if (x.k == V_CONC && w <= 64) {
            u64 c = x.c;
            if (ci.op == Instruction::SExt && x.w < 64)
              c = (u64)((int64_t)(c << (64 - x.w)) >> (64 - x.w));
            return conc(w, c);
          }
          if (x.w % 8 == 0 && w % 8 == 0 && ci.op != Instruction::SExt) {
            std::vector<BV8> b(w / 8, 0);
            for (u32 i = 0; i < w / 8 && i < x.w / 8; i++)
              b[i] = vbyte(x, i);
            return symv(w, std::move(b));
          }
          std::vector<Lit> l;
          getbits(x, l);
          Lit s = ci.op == Instruction::SExt ? l.back() : L0;
          l.resize(w, s);
          return frombits(l);
        };
        u32 ew, nl, ew2, nl2;
        if (st->isVectorTy()) {
          if (!vec_flat(st, ew, nl) || !vec_flat(ci.I->getType(), ew2, nl2))
            fatal("vector cast");
          std::vector<Val> ls;
          for (u32 i = 0; i < nl; i++)
            ls.push_back(one(lane(opv(fr, ci.ops[0]), ew, i), ew2));
          fr.regs[ci.dst] = fromlanes(ls, ew2);
        } else
          fr.regs[ci.dst] = one(opv(fr, ci.ops[0]), ci.w);
        break;
      }
      case Instruction::Freeze: {
        Val x           = opv(fr, ci.ops[0]);
        fr.regs[ci.dst] = x.k == V_UNDEF && !ci.I->getType()->isPointerTy() ? to_sym_undef(x) : x;
        break;
      }
      case Instruction::BitCast: {
        Type *st = ci.I->getOperand(0)->getType(), *dt = ci.I->getType();
        if (!st->isPointerTy() && (!widthof(st) || !widthof(dt)))
          fatal("bitcast");
        fr.regs[ci.dst] = opv(fr, ci.ops[0]);
        break;
      }
      case Instruction::PtrToInt: fr.regs[ci.dst] = ptrtoint(opv(fr, ci.ops[0]), ci.w); break;
      case Instruction::IntToPtr: {
        u64 x = cint(opv(fr, ci.ops[0]), "inttoptr");
        fr.regs[ci.dst] = x >> 36 ? mkptr((x >> 32) - 16, (u32)x) : mkptr(0, x);
        break;
      }
      case Instruction::ExtractValue: {
        const Val* v = &opv(fr, ci.ops[0]);
        for (u32 i : cast<ExtractValueInst>(ci.I)->indices()) {
          if (v->k != V_AGG)
            fatal("extractvalue");
          v = &(*v->agg)[i];
        }
        Val r           = *v;
        fr.regs[ci.dst] = r;
        break;
      }
      case Instruction::InsertValue: {
        Val v    = opv(fr, ci.ops[0]);
        auto* iv = cast<InsertValueInst>(ci.I);
        if (v.k != V_AGG || iv->getNumIndices() != 1)
          fatal("insertvalue");
        v.agg                         = std::make_shared<std::vector<Val>>(*v.agg);
        (*v.agg)[*iv->indices().begin()] = opv(fr, ci.ops[1]);
        fr.regs[ci.dst]               = v;
        break;
      }
      case Instruction::ExtractElement: {
        u32 ew, nl;
        if (!vec_flat(ci.I->getOperand(0)->getType(), ew, nl))
          fatal("extractelement");
        u64 i = cint(opv(fr, ci.ops[1]), "lane index");
        if (i >= nl)
          safety_fail("vector lane out of range", std::to_string(i));
        fr.regs[ci.dst] = lane(opv(fr, ci.ops[0]), ew, i);
        break;
      }
      case Instruction::InsertElement: {
        u32 ew, nl;
        if (!vec_flat(ci.I->getType(), ew, nl))
          fatal("insertelement");
        u64 i = cint(opv(fr, ci.ops[2]), "lane index");
        if (i >= nl)
          safety_fail("vector lane out of range", std::to_string(i));
        const Val& v = opv(fr, ci.ops[0]);
        Val x        = norm_int(opv(fr, ci.ops[1]));
        if (ew % 8)
          fatal("insertelement bits");
        std::vector<BV8> by(ew * nl / 8);
        Val vv = v.k == V_UNDEF ? to_sym_undef(v) : v;
        for (u32 j = 0; j < by.size(); j++)
          by[j] = vbyte(vv, j);
        for (u32 j = 0; j < ew / 8; j++)
          by[i * ew / 8 + j] = vbyte(x, j);
        fr.regs[ci.dst] = symv(ew * nl, std::move(by));
        break;
      }
      case Instruction::ShuffleVector: {
        auto* sv = cast<ShuffleVectorInst>(ci.I);
        u32 ew, nl, ew2, nl2;
        if (!vec_flat(sv->getOperand(0)->getType(), ew, nl) || !vec_flat(sv->getType(), ew2, nl2))
          fatal("shufflevector");
        std::vector<Val> ls;
        for (int m : sv->getShuffleMask()) {
          if (m < 0) {
            Val u;
            u.w = ew;
            ls.push_back(u);
          } else if ((u32)m < nl)
            ls.push_back(lane(opv(fr, ci.ops[0]), ew, m));
          else
            ls.push_back(lane(opv(fr, ci.ops[1]), ew, m - nl));
        }
        fr.regs[ci.dst] = fromlanes(ls, ew);
        break;
      }
      default: {
        if (!ci.I->isBinaryOp())
          fatal("instruction %s", ci.I->getOpcodeName());
        u32 ew, nl;
        if (ci.I->getType()->isVectorTy()) {
          if (!vec_flat(ci.I->getType(), ew, nl))
            fatal("vector op");
          const Val &x = opv(fr, ci.ops[0]), &y = opv(fr, ci.ops[1]);
          if (ci.op == Instruction::Xor && x.k != V_UNDEF && y.k != V_UNDEF) {
            fr.regs[ci.dst] = vxor(x, y);
            break;
          }
          if (ci.op == Instruction::And && x.k != V_UNDEF && y.k != V_UNDEF) {
            fr.regs[ci.dst] = vand(x, y);
            break;
          }
          if (ci.op == Instruction::Or && x.k != V_UNDEF && y.k != V_UNDEF) {
            fr.regs[ci.dst] = vor(x, y);
            break;
          }
          std::vector<Val> ls;
          for (u32 i = 0; i < nl; i++)
            ls.push_back(binop_scalar(ci.op, lane(x, ew, i), lane(y, ew, i), nullptr));
          fr.regs[ci.dst] = fromlanes(ls, ew);
        } else {
          const Val &x = opv(fr, ci.ops[0]), &y = opv(fr, ci.ops[1]);
          Val r = binop_scalar(ci.op, x, y, ci.I);
          fr.regs[ci.dst] = std::move(r);
        }
      }
      }
    }
    fatal("block without terminator");
  next:;
  }
}

// ------------------------------------------------------------------ main
static std::string jesc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\')
      r += std::string("\\") + c;
    else if ((unsigned char)c < 32)
      r += ' ';
    else
      r += c;
  }
  return r;
}

int main(int argc, char** argv) {
  t0     = nowd();
  g_argc = argc;
  g_argv = argv;
  std::string file, entry, out;
  std::vector<u64> eargs;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--entry")
      entry = argv[++i];
    else if (a == "--arg")
      eargs.push_back(strtoull(argv[++i], nullptr, 0));
    else if (a == "--out")
      out = argv[++i];
    else if (a == "--max-viol")
      max_viol = atoi(argv[++i]);
    else if (a == "--widen") {
      std::istringstream is(argv[++i]);
      std::string t;
      while (std::getline(is, t, ',')) {
        char k;
        unsigned x;
        unsigned long long y;
        if (sscanf(t.c_str(), "%c:%u:%llu", &k, &x, &y) == 3) {
          if (k == 'm')
            widen_mem.insert({x, y});
          else
            widen_reg.insert({x, (int)y});
        }
      }
    }
    else if (a == "-v")
      verbose = true;
    else if (a == "--hints") {
      hint_mode         = true;
      solver_timeout_ms = 2000;
    } else if (a == "--solver-timeout")
      solver_timeout_ms = atoi(argv[++i]);
    else if (a == "--ct") {
      ct_mode = safety_only = true;
      std::istringstream is(argv[++i]);
      std::string t;
      while (std::getline(is, t, ','))
        if (!t.empty())
          ct_public.push_back(t);
    } else if (a == "--safety-only")
      safety_only = true;
    else if (a == "--ring")
      ring_mode = true;
    else if (a == "--and-limit")
      T.and_limit = strtoull(argv[++i], nullptr, 0);
    else
      file = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) {
    fprintf(stderr, "fve: cannot read %s: %s\n", file.c_str(), err.getMessage().str().c_str());
    return 3;
  }
  M  = mod.get();
  DL = &M->getDataLayout();
  std::string status = "ok", msg;
  // deep recursion in exec for nested forks
  try {
    newobj(0, 'n', "null");
    S.objs[0]->alive = false;
    for (auto& f : *M) {
      u32 o           = newobj(0, 'f', f.getName().str());
      S.objs[o]->fn   = &f;
      gobj[&f]        = o;
    }
    for (auto& g : M->globals()) {
      u64 sz  = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 0;
      u32 o   = newobj(sz, 'g', g.getName().str());
      gobj[&g] = o;
      // static buffers of the specification are ghost state: not subject to frame conditions
      SmallVector<DIGlobalVariableExpression*, 1> gv;
      g.getDebugInfo(gv);
      if (!gv.empty() && gv[0]->getVariable()->getFile() &&
          gv[0]->getVariable()->getFile()->getFilename().contains("spec/spec_"))
        S.objs[o]->birth = UINT64_MAX;
    }
    for (auto& g : M->globals())
      if (g.hasInitializer()) {
        init_global(gobj[&g], 0, g.getInitializer());
        S.objs[gobj[&g]]->ro = g.isConstant();
      }
    Function* E = M->getFunction(entry);
    if (!E || E->isDeclaration())
      throw Fatal{"no entry " + entry};
    std::vector<Val> args;
    for (size_t i = 0; i < E->arg_size(); i++)
      args.push_back(conc(widthof(E->getArg(i)->getType()), i < eargs.size() ? eargs[i] : 0));
    bool dead = false;
    call(E, args, dead);
    if (dead)
      throw Fatal{"harness does not terminate normally"};
  } catch (Fatal& f) {
    status = "error";
    msg    = f.msg;
  } catch (ViolationStop&) {
  } catch (z3::exception& e) {
    status = "error";
    msg    = std::string("z3: ") + e.msg();
  } catch (std::bad_alloc&) {
    status = "error";
    msg    = "out of memory";
  } catch (std::exception& e) {
    status = "error";
    msg    = std::string("internal: ") + e.what();
  }
  if (!viols.empty())
    status = "violation";
  if (safety_only) {
    n_obl += n_safety_repo;
    n_dis += n_safety_repo;
    n_norm += n_safety_repo;
  }
  if (status == "ok" && n_obl == 0) {
    status = "error";
    msg    = "no obligations generated";
  }
  struct rusage ru;
  getrusage(RUSAGE_SELF, &ru);
  std::ostringstream o;
  o << "{\"entry\":\"" << entry << "\",\"args\":[";
  for (size_t i = 0; i < eargs.size(); i++)
    o << (i ? "," : "") << eargs[i];
  o << "],\"status\":\"" << status << "\",\"msg\":\"" << jesc(msg) << "\",\"obligations\":" << n_obl << ",\"discharged\":" << n_dis
    << ",\"by_normal_form\":" << n_norm << ",\"by_z3\":" << (n_dis - n_norm) << ",\"solver_queries\":" << n_sat << ",\"solver_s\":" << solver_s
    << ",\"safety\":" << n_safety_repo << ",\"frame_writes\":" << n_frame << ",\"requires\":" << n_require << ",\"assumes\":" << n_assumes
    << ",\"instructions\":" << n_instr << ",\"nodes\":" << T.nodes.size() << ",\"bnodes\":" << T.bnodes.size() << ",\"apps\":" << T.apps.size()
    << ",\"loop_points\":" << n_loop_points << ",\"loop_cuts\":" << n_loop_cuts << ",\"wall_s\":" << nowd() - t0 << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024;
  o << ",\"constant_flow\":" << n_ct;
  o << ",\"contracts\":{";
  bool first = true;
  for (auto& [k, v] : contract_uses) {
    o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v;
    first = false;
  }
  o << "},\"covers\":{";
  first = true;
  for (auto& [k, v] : covers) {
    o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v;
    first = false;
  }
  o << "},\"functions\":[";
  first = true;
  for (auto& [f, c] : cfuncs) {
    std::string fn = f->getSubprogram() ? f->getSubprogram()->getFilename().str() : "";
    o << (first ? "" : ",") << "\"" << jesc(fn + ":" + f->getName().str()) << "\"";
    first = false;
  }
  o << "],\"labels\":{";
  first = true;
  for (auto& [k, v] : obl_labels) {
    o << (first ? "" : ",") << "\"" << jesc(k) << "\":" << v;
    first = false;
  }
  auto list = [&](const std::vector<Viol>& l) {
  first = true;
  for (auto& v : l) {
    o << (first ? "" : ",") << "{\"kind\":\"" << v.kind << "\",\"label\":\"" << jesc(v.label) << "\",\"detail\":\"" << jesc(v.detail)
      << "\",\"where\":\"" << jesc(v.where) << "\",\"uf\":" << (v.uf ? "true" : "false") << ",\"model\":{";
    bool f2 = true;
    for (auto& [nm, bs] : v.model) {
      o << (f2 ? "" : ",") << "\"" << jesc(nm) << "\":{";
      f2      = false;
      bool f3 = true;
      for (auto& [i, b] : bs) {
        o << (f3 ? "" : ",") << "\"" << i << "\":[" << (b & 0xff) << "," << (b >> 8) << "]";
        f3 = false;
      }
      o << "}";
    }
    o << "}}";
    first = false;
  }
  };
  o << "},\"violations\":[";
  list(viols);
  o << "],\"hints\":[";
  list(hints);
  o << "]}";
  if (out.empty())
    printf("%s\n", o.str().c_str());
  else
    std::ofstream(out) << o.str() << "\n";
  fflush(stdout);
  _Exit(status == "ok" ? 0 : status == "violation" ? 1 : 3);
}
