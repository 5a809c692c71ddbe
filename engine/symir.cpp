// symir: a symbolic executor for LLVM IR (bit-vector semantics, Z3 back end).
//
//   symir module.bc --entry NAME [--param v]... [--time S] [--seed N]
//         [--out report.json] [--max-violations N] [--max-steps N]
//
// Every path of the entry function is executed; inputs obtained through sym_bits/sym_range are SMT
// variables, conditional branches whose both sides are satisfiable fork, assertions are decided by the
// solver for all inputs following the path.
#include "solver.h"

#include <llvm/ADT/StringRef.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>

#include <pthread.h>
#include <set>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;

static std::string g_entry = "", g_out = "";
static std::vector<s64> g_params;
static double g_time = 600;
static u64 g_seed = 1, g_maxsteps = 60000000;
static int g_maxviol = 3, g_samples = 6;
static bool g_verbose = false;

struct Val { u64 c; E e; };

static ExprPool *PP;
static Solver *SS;
#define P (*PP)

static inline E toE(Val v, u32 w) { return v.e ? v.e : P.konst(v.c, w); }
static inline Val fromE(E e) { if (e->op == OConst && e->width <= 64) return {(u64)e->c, nullptr}; return {0, e}; }
static inline Val conc(u64 v) { return {v, nullptr}; }

// ------------------------------------------------------------------ memory
struct SB { E e; u32 idx; };
enum ObjKind : u8 { KHeap, KStack, KGlobal, KConst, KFunc };
struct Obj {
  int rc = 1;
  ObjKind kind;
  u32 size;
  std::vector<u8> data;
  std::vector<SB> sym; // empty when fully concrete
};
static Obj *const FREED = (Obj *)1;
struct Chunk { int rc = 1; Obj *o[64]; };
static inline void objRel(Obj *o) { if (o && o != FREED && --o->rc == 0) delete o; }
static void chunkRel(Chunk *c) { if (--c->rc == 0) { for (auto o : c->o) objRel(o); delete c; } }

struct Mem {
  std::vector<Chunk *> ch;
  u32 next = 1;
  Mem() {}
  Mem(Mem const &m) : ch(m.ch), next(m.next) { for (auto c : ch) ++c->rc; }
  Mem &operator=(Mem const &) = delete;
  ~Mem() { for (auto c : ch) chunkRel(c); }
  Obj *get(u32 id) const { return (id >> 6) < ch.size() ? ch[id >> 6]->o[id & 63] : nullptr; }
  Chunk *wchunk(u32 id) {
    Chunk *&c = ch[id >> 6];
    if (c->rc > 1) {
      Chunk *n = new Chunk();
      for (int i = 0; i < 64; ++i) { n->o[i] = c->o[i]; if (n->o[i] && n->o[i] != FREED) ++n->o[i]->rc; }
      --c->rc;
      c = n;
    }
    return c;
  }
  Obj *getw(u32 id) {
    Chunk *c = wchunk(id);
    Obj *&o = c->o[id & 63];
    if (o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; --o->rc; o = n; }
    return o;
  }
  u32 alloc(u32 size, ObjKind k, int fill = 0xCD) {
    u32 id = next++;
    if ((id >> 6) >= ch.size()) { Chunk *c = new Chunk(); memset(c->o, 0, sizeof c->o); ch.push_back(c); }
    Obj *o = new Obj();
    o->kind = k; o->size = size; o->data.assign(size, fill);
    wchunk(id)->o[id & 63] = o;
    return id;
  }
  void free(u32 id) {
    Chunk *c = wchunk(id);
    objRel(c->o[id & 63]);
    c->o[id & 63] = FREED;
  }
};

// ------------------------------------------------------------------ decoded code
enum DOp : u16 {
  DAdd, DSub, DMul, DUDiv, DSDiv, DURem, DSRem, DShl, DLShr, DAShr, DAnd, DOr, DXor,
  DFAdd, DFSub, DFMul, DFDiv, DFRem, DFNeg,
  DICmp, DFCmp, DTrunc, DZExt, DSExt, DFPToUI, DFPToSI, DUIToFP, DSIToFP, DFPTrunc, DFPExt, DMove, DBitcast,
  DAlloca, DLoad, DStore, DGep, DBr, DCondBr, DSwitch, DRet, DCall, DLandingPad, DResume, DUnreachable, DSelect,
  DExtractValue, DInsertValue, DExtractElem, DInsertElem, DShuffle, DFreeze, DCmpXchg, DAtomicRMW, DNop, DUnsupported
};
struct Elem { u32 w; u32 off; u32 size; };
struct Edge { u32 target; std::vector<std::pair<u32, int>> copies; };
struct GepIdx { int ref; s64 scale; u32 w; };
struct DFunc;
struct State;
struct DInst;
enum HRes { H_OK, H_END, H_JUMP };
typedef HRes (*Handler)(State &, DInst &, std::vector<Val> &);
struct Clause { bool isCatch; std::vector<Val> types; };
struct CallInfo {
  Function *callee = nullptr; DFunc *df = nullptr; int fnref = 0;
  std::vector<std::pair<int, u32>> args; // ref, count
  std::vector<u32> argw;
  std::vector<u32> byval; // size or 0
  Handler h = nullptr; unsigned iid = 0;
  bool invoke = false; Edge normal, unwind;
  bool cleanup = false; std::vector<Clause> clauses;
  std::string name; u32 retw = 0; u32 nret = 0;
  bool retIsPtr = false;
};
struct DInst {
  u16 op = DUnsupported; u16 sub = 0; u32 w = 0, w2 = 0; u32 dst = 0, n = 1;
  int a = 0, b = 0, c = 0;
  bool hit = false;
  s64 imm = 0;
  std::vector<Elem> *elems = nullptr;
  std::vector<GepIdx> *gep = nullptr;
  std::vector<int> *mask = nullptr;
  std::vector<Edge> *edges = nullptr;
  std::vector<u64> *cases = nullptr;
  CallInfo *call = nullptr;
  Instruction *I = nullptr;
};
struct DFunc {
  Function *F; u32 nslots = 0; std::vector<DInst> code; std::vector<Val> consts;
  std::vector<std::pair<u32, u32>> params;
};

struct Model { std::vector<u64> v; u64 id; };
static u64 g_modelid = 1, g_curmodel = 0;

struct Frame {
  DFunc *f; u32 pc; std::vector<Val> regs; std::vector<u32> allocas;
};
struct ExcRec { u64 ptr; u64 tinfo; int count; };
struct InputRec { const char *name; Val v; u64 add; };

struct IdSet {
  std::vector<u32> t; u32 n = 0;
  IdSet() : t(64, ~0u) {}
  bool has(u32 x) const { u32 m = t.size() - 1; for (u32 i = (x * 2654435761u) & m;; i = (i + 1) & m) { if (t[i] == x) return true; if (t[i] == ~0u) return false; } }
  void ins(u32 x) {
    if (has(x)) return;
    if (2 * (n + 1) > t.size()) { std::vector<u32> o(t.size() * 2, ~0u); o.swap(t); n = 0; for (u32 y : o) if (y != ~0u) ins(y); }
    u32 m = t.size() - 1; u32 i = (x * 2654435761u) & m; while (t[i] != ~0u) i = (i + 1) & m; t[i] = x; ++n;
  }
};

// order facts between opaque terms known on a path (transitive closure); answers most index comparisons
struct Ord {
  std::vector<E> nodes;
  std::vector<u8> rel; // [i*N+j]: 1: i<j, 2: i<=j, 4: i!=j
  static constexpr u32 N = 24;
  int node(E e, bool add) {
    for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i] == e) return i;
    if (!add || nodes.size() >= N) return -1;
    if (rel.empty()) rel.assign(N * N, 0);
    nodes.push_back(e);
    return nodes.size() - 1;
  }
  u8 &at(u32 i, u32 j) { return rel[i * N + j]; }
  void close() {
    u32 n = nodes.size();
    for (bool ch = true; ch;) {
      ch = false;
      auto set = [&](u32 i, u32 j, u8 b) { if ((at(i, j) & b) != b) { at(i, j) |= b; ch = true; } };
      for (u32 i = 0; i < n; ++i) for (u32 j = 0; j < n; ++j) {
        u8 r = at(i, j);
        if (!r) continue;
        if (r & 1) { set(i, j, 6); set(j, i, 4); }
        if (r & 4) set(j, i, 4);
        if ((r & 6) == 6) set(i, j, 1);
        if (r & 2) {
          bool eq = at(j, i) & 2;
          for (u32 k = 0; k < n; ++k) {
            u8 q = at(j, k);
            if (q & 2) set(i, k, (u8)(2 | ((r | q) & 1)));
            if (eq && (q & 4)) set(i, k, 4);
          }
        }
      }
    }
  }
  void fact(E a, E b, u8 bits) {
    int i = node(a, true), j = node(b, true);
    if (i < 0 || j < 0) return;
    if ((at(i, j) & bits) == bits) return;
    at(i, j) |= bits;
    close();
  }
  // 0/1/-1
  int lt(E a, E b, bool orEq) {
    int i = node(a, false), j = node(b, false);
    if (i < 0 || j < 0) return -1;
    u8 f = at(i, j), r = at(j, i);
    if (orEq) return (f & 2) ? 1 : (r & 1) ? 0 : -1;
    return (f & 1) ? 1 : (r & 2) ? 0 : -1;
  }
  int eq(E a, E b) {
    int i = node(a, false), j = node(b, false);
    if (i < 0 || j < 0) return -1;
    u8 f = at(i, j), r = at(j, i);
    if ((f & 2) && (r & 2)) return 1;
    return ((f | r) & 5) ? 0 : -1;
  }
};
struct State {
  std::vector<Frame> frames;
  Mem mem;
  std::vector<E> pc;
  IdSet known;
  Ord so, uo;   // signed and unsigned order facts
  std::shared_ptr<Model> model;
  std::vector<InputRec> inputs;
  std::vector<Val> observed;
  std::vector<ExcRec> exc, caught;
  u64 curExc = 0; u32 curSel = 0;
  u64 steps = 0;
  u32 stage = 0;  // index into the list of functions to run
  u64 heapcount = 0;
};

// ------------------------------------------------------------------ globals of the run
static Module *M;
static const DataLayout *DL;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<u32, Function *> funcById;
static std::unordered_map<Function *, DFunc *> dfuncs;
static std::unordered_map<std::string, Handler> handlers;
static std::vector<State *> work;
static std::vector<Function *> stages;
struct Stats {
  u64 paths = 0, infeasible = 0, forks = 0, insts = 0, checks = 0, checks_trivial = 0, checks_solver = 0, symbranch = 0;
  u64 errors = 0;
} ST;
struct ViolRec { std::string kind, label, where; std::vector<std::pair<std::string, u64>> inputs; };
static std::vector<ViolRec> viols;
static std::map<std::string, u64> inconclusive;
static std::map<std::string, u64> checkLabels, coverLabels;
struct Sample { std::vector<std::pair<std::string, u64>> inputs; std::vector<u64> observed; };
static std::vector<Sample> samples;
static std::map<std::string, std::vector<std::pair<std::string, u64>>> coverWit;
static u64 g_rng;
static u64 rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static State *CUR;

static void useModel(State &st) {
  if (g_curmodel != st.model->id) { P.setModel(&st.model->v); g_curmodel = st.model->id; }
}
// variables of an expression
typedef std::vector<u64> VSet;
static std::unordered_map<u32, std::shared_ptr<VSet>> g_vset;
static const VSet &varsOf(E e) {
  auto it = g_vset.find(e->id);
  if (it != g_vset.end()) return *it->second;
  auto r = std::make_shared<VSet>((P.vars.size() + 63) / 64, 0);
  std::vector<E> stk{e};
  std::unordered_set<u32> seen;
  while (!stk.empty()) {
    E x = stk.back(); stk.pop_back();
    if (x->op == OConst || !seen.insert(x->id).second) continue;
    if (x->op == OVar) { (*r)[x->aux / 64] |= 1ULL << (x->aux & 63); continue; }
    auto jt = g_vset.find(x->id);
    if (jt != g_vset.end()) { for (size_t i = 0; i < jt->second->size(); ++i) (*r)[i] |= (*jt->second)[i]; continue; }
    for (E k : {x->k[0], x->k[1], x->k[2]}) if (k) stk.push_back(k);
  }
  g_vset[e->id] = r;
  return *r;
}
// linear algebra over GF(2): true when the parity constraints among rel contradict extra
static bool linUnsat(std::vector<E> const &rel, E extra) {
  bool any = P.hasPar(extra) || (extra->op == OXor && P.hasPar(extra->k[0]));
  if (!any) { for (E c : rel) if (P.hasPar(c)) { any = true; break; } if (!any || extra->width != 1 || (extra->op != OExtract && extra->op != OXor)) return false; }
  std::map<std::pair<u32, u32>, u32> col;
  std::vector<std::pair<std::vector<u64>, bool>> rows; // reduced, with pivots
  std::vector<u32> piv;
  auto addRow = [&](ExprPool::Lin const &l, bool rhs) -> bool { // false: contradiction
    std::vector<u64> v;
    for (auto &x : l.t) for (u64 m = x.second.second; m; m &= m - 1) {
      auto k = std::make_pair(x.first, (u32)std::countr_zero(m));
      u32 c = col.emplace(k, (u32)col.size()).first->second;
      if (v.size() <= c / 64) v.resize(c / 64 + 1, 0);
      v[c / 64] ^= 1ULL << (c & 63);
    }
    bool r = rhs ^ l.c;
    for (size_t i = 0; i < rows.size(); ++i) {
      u32 p = piv[i];
      if (p / 64 < v.size() && (v[p / 64] >> (p & 63) & 1)) {
        auto &o = rows[i].first;
        if (v.size() < o.size()) v.resize(o.size(), 0);
        for (size_t q = 0; q < o.size(); ++q) v[q] ^= o[q];
        r ^= rows[i].second;
      }
    }
    for (size_t q = 0; q < v.size(); ++q) if (v[q]) { piv.push_back(q * 64 + std::countr_zero(v[q])); rows.push_back({v, r}); return true; }
    return !r;
  };
  auto addC = [&](E c) -> bool {
    if (c->op == OEq && P.isC(c->k[1]) && c->k[0]->width <= 64) {
      E x = c->k[0];
      for (u32 i = 0; i < x->width; ++i) { ExprPool::Lin l; P.parInto(x, 1ULL << i, l); if (!addRow(l, (u64)c->k[1]->c >> i & 1)) return false; }
      return true;
    }
    if (c->op == OPar || c->op == OXor || c->op == OExtract) { ExprPool::Lin l; P.parInto(c, 1, l); return addRow(l, true); }
    return true;
  };
  for (E c : rel) if (!addC(c)) return true;
  return !addC(extra);
}
struct QRes { int r; std::vector<std::pair<u32, u64>> vals; };
struct QHash { size_t operator()(std::vector<u32> const &k) const { u64 h = 1469598103934665603ULL; for (u32 x : k) { h ^= x; h *= 1099511628211ULL; h ^= h >> 29; } return h; } };
static std::unordered_map<std::vector<u32>, QRes, QHash> g_qcache;
static u64 g_qhits;
// satisfiability of path condition and extra; only the constraints connected to extra through shared
// variables are sent to the solver (the rest is satisfied by the path's model), answers are cached
static int query(State &st, E extra, std::shared_ptr<Model> *out) {
  VSet vs = varsOf(extra);
  auto grow = [&](const VSet &o) { if (vs.size() < o.size()) vs.resize(o.size(), 0); for (size_t i = 0; i < o.size(); ++i) vs[i] |= o[i]; };
  auto meets = [&](const VSet &o) { for (size_t i = 0; i < o.size() && i < vs.size(); ++i) if (vs[i] & o[i]) return true; return false; };
  std::vector<char> in(st.pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < st.pc.size(); ++i) if (!in[i]) { const VSet &o = varsOf(st.pc[i]); if (meets(o)) { in[i] = 1; ch = true; grow(o); } }
  }
  std::vector<E> rel;
  std::vector<u32> key;
  for (size_t i = 0; i < st.pc.size(); ++i) if (in[i]) { rel.push_back(st.pc[i]); key.push_back(st.pc[i]->id); }
  std::sort(key.begin(), key.end());
  key.push_back(extra->id);
  auto it = g_qcache.find(key);
  if (it != g_qcache.end()) ++g_qhits;
  else {
    QRes q;
    std::vector<u64> mv;
    q.r = linUnsat(rel, extra) ? 0 : SS->check(rel, extra, &mv);
    g_curmodel = 0;
    if (getenv("SYM_DEBUGQ")) fprintf(stderr, "Q r=%d rel=%zu %s\n", q.r, rel.size(), Z3_ast_to_string(SS->ctx, SS->tr(extra)));
    if (q.r == 1) for (size_t i = 0; i < vs.size(); ++i) for (u64 b = vs[i]; b; b &= b - 1) { u32 v = i * 64 + std::countr_zero(b); q.vals.push_back({v, mv[v]}); }
    if (q.r < 0) { inconclusive["solver gave no answer within its time limit"]++; return -1; }
    it = g_qcache.emplace(std::move(key), std::move(q)).first;
  }
  if (it->second.r == 1 && out) {
    auto m = std::make_shared<Model>();
    m->v = st.model->v;
    for (auto &x : it->second.vals) { if (m->v.size() <= x.first) m->v.resize(x.first + 1, 0); m->v[x.first] = x.second; }
    m->id = ++g_modelid;
    *out = m;
  }
  return it->second.r;
}
static bool ordAtom(E a, E b) { return a->op != OConst && b->op != OConst && a->width > 1; }
static void ordFact(State &st, E c) {
  bool neg = false;
  if (c->op == OXor && c->k[1] == P.T) { neg = true; c = c->k[0]; }
  E a = c->k[0], b = c->k[1];
  switch (c->op) {
  case OEq: if (ordAtom(a, b)) { for (Ord *o : {&st.so, &st.uo}) if (neg) o->fact(a, b, 4); else { o->fact(a, b, 2); o->fact(b, a, 2); } } break;
  case OSlt: case OUlt: if (ordAtom(a, b)) { Ord &o = c->op == OSlt ? st.so : st.uo; if (neg) o.fact(b, a, 2); else o.fact(a, b, 1); } break;
  case OSle: case OUle: if (ordAtom(a, b)) { Ord &o = c->op == OSle ? st.so : st.uo; if (neg) o.fact(b, a, 1); else o.fact(a, b, 2); } break;
  default: break;
  }
}
static int ordKnown(State &st, E c) {
  E a = c->k[0], b = c->k[1];
  switch (c->op) {
  case OEq: { if (!ordAtom(a, b)) return -1; int r = st.so.eq(a, b); return r >= 0 ? r : st.uo.eq(a, b); }
  case OSlt: return ordAtom(a, b) ? st.so.lt(a, b, false) : -1;
  case OUlt: return ordAtom(a, b) ? st.uo.lt(a, b, false) : -1;
  case OSle: return ordAtom(a, b) ? st.so.lt(a, b, true) : -1;
  case OUle: return ordAtom(a, b) ? st.uo.lt(a, b, true) : -1;
  case OXor: if (b == P.T) { int r = ordKnown(st, a); return r < 0 ? r : !r; } return -1;
  case OAnd: { int x = ordKnown(st, a), y = ordKnown(st, b); return x == 0 || y == 0 ? 0 : x == 1 && y == 1 ? 1 : -1; }
  case OOr: { int x = ordKnown(st, a), y = ordKnown(st, b); return x == 1 || y == 1 ? 1 : x == 0 && y == 0 ? 0 : -1; }
  default: return -1;
  }
}
static void addPC(State &st, E c) {
  if (c == P.T) return;
  if (c->op == OAnd && c->width == 1) { addPC(st, c->k[0]); addPC(st, c->k[1]); st.known.ins(c->id); return; }
  st.pc.push_back(c);
  st.known.ins(c->id);
  ordFact(st, c);
}
static int knownVal(State &st, E c) {
  if (c == P.T) return 1;
  if (c == P.F) return 0;
  if (st.known.has(c->id)) return 1;
  E n = P.bnot(c);
  if (st.known.has(n->id)) return 0;
  if (c->op == OAnd) { int x = knownVal(st, c->k[0]), y = knownVal(st, c->k[1]); if (x == 0 || y == 0) return 0; if (x == 1 && y == 1) return 1; }
  if (c->op == OOr) { int x = knownVal(st, c->k[0]), y = knownVal(st, c->k[1]); if (x == 1 || y == 1) return 1; if (x == 0 && y == 0) return 0; }
  return ordKnown(st, c);
}
// decide a condition on the current path; forks a copy of the state (at the same instruction) for the other side
static bool decide(State &st, E c) {
  int k = knownVal(st, c);
  if (k >= 0) return k;
  useModel(st);
  bool b = P.eval(c) != 0;
  E me = b ? c : P.bnot(c), other = b ? P.bnot(c) : c;
  ++ST.symbranch;
  std::shared_ptr<Model> m;
  int r = query(st, other, &m);
  if (r == 1) {
    State *o = new State(st);
    addPC(*o, other);
    o->model = m;
    work.push_back(o);
    ++ST.forks;
    addPC(st, me);
  } else if (r == 0)
    st.known.ins(me->id);
  return b;
}
static u64 concretize(State &st, E e) {
  if (e->op == OConst) return (u64)e->c;
  useModel(st);
  u64 v = (u64)P.eval(e);
  E c = P.eq(e, P.konst(v, e->width));
  bool b = decide(st, c);
  assert(b); (void)b;
  return v;
}
static u64 concV(State &st, Val v) { return v.e ? concretize(st, v.e) : v.c; }

static std::vector<std::pair<std::string, u64>> witness(State &st, const std::vector<u64> *model) {
  std::vector<std::pair<std::string, u64>> r;
  P.setModel(model); g_curmodel = 0;
  for (auto &i : st.inputs) r.push_back({i.name, (i.v.e ? (u64)P.eval(i.v.e) : i.v.c) + i.add});
  return r;
}
static std::string where(State &st) {
  std::string s;
  int cnt = 0;
  for (size_t k = st.frames.size(); k-- > 0 && cnt < 8;) {
    Frame &f = st.frames[k];
    if (f.pc >= f.f->code.size()) continue;
    Instruction *I = f.f->code[f.pc].I;
    if (!I) continue;
    const DILocation *L = I->getDebugLoc().get();
    for (; L && cnt < 8; L = L->getInlinedAt()) {
      if (!s.empty()) s += " < ";
      s += L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "?";
      s += " (" + L->getFilename().str() + ":" + std::to_string(L->getLine()) + ")";
      ++cnt;
    }
  }
  return s;
}
static void violation(State &st, std::string const &kind, std::string const &label, const std::vector<u64> *model) {
  int n = 0;
  for (auto &v : viols) if (v.label == label && v.kind == kind) ++n;
  if (n >= 2) return;
  viols.push_back({kind, label, where(st), witness(st, model)});
  if (g_verbose) fprintf(stderr, "VIOLATION %s %s\n", kind.c_str(), label.c_str());
}
static HRes fail(State &st, std::string const &kind, std::string const &label) {
  violation(st, kind, label, &st.model->v);
  return H_END;
}
static HRes unsupported(State &st, std::string const &what) {
  inconclusive["unsupported: " + what + (g_verbose ? " at " + where(st) : "")]++;
  return H_END;
}

// ------------------------------------------------------------------ memory access
static Val loadAt(Obj *o, u32 off, u32 n, u32 w) {
  if (o->sym.empty()) {
    if (n <= 8) { u64 v = 0; memcpy(&v, &o->data[off], n); return conc(v & mask64(w)); }
  } else {
    bool any = false;
    for (u32 i = 0; i < n; ++i) if (o->sym[off + i].e) { any = true; break; }
    if (!any && n <= 8) { u64 v = 0; memcpy(&v, &o->data[off], n); return conc(v & mask64(w)); }
    if (any) {
      E e0 = o->sym[off].e;
      if (e0 && o->sym[off].idx == 0 && e0->width == 8 * n) {
        bool same = true;
        for (u32 i = 1; i < n; ++i) if (o->sym[off + i].e != e0 || o->sym[off + i].idx != i) { same = false; break; }
        if (same) return fromE(P.extract(e0, 0, w));
      }
      E r = nullptr;
      for (u32 i = 0; i < n; ++i) {
        SB &s = o->sym[off + i];
        E b = s.e ? P.extract(s.e, s.idx * 8, 8) : P.konst(o->data[off + i], 8);
        r = r ? P.concat(b, r) : b;
      }
      return fromE(P.extract(r, 0, w));
    }
  }
  u128 v = 0;
  memcpy(&v, &o->data[off], n);
  return {0, P.konst(v & mask128(w), w)};
}
static void storeAt(Obj *o, u32 off, u32 n, Val v, u32 w) {
  if (v.e && v.e->op == OConst) {
    u128 c = v.e->c;
    memcpy(&o->data[off], &c, n);
    if (!o->sym.empty()) for (u32 i = 0; i < n; ++i) o->sym[off + i].e = nullptr;
    return;
  }
  if (!v.e) {
    if (n <= 8) memcpy(&o->data[off], &v.c, n);
    else { memcpy(&o->data[off], &v.c, 8); memset(&o->data[off + 8], 0, n - 8); }
    if (!o->sym.empty()) for (u32 i = 0; i < n; ++i) o->sym[off + i].e = nullptr;
    return;
  }
  if (o->sym.empty()) o->sym.assign(o->size, SB{nullptr, 0});
  E e = P.zext(v.e, 8 * n);
  for (u32 i = 0; i < n; ++i) o->sym[off + i] = SB{e, i};
}

static const char *objErr(Obj *o) { return o == FREED ? "use after free or after scope end" : "access through invalid pointer"; }

struct Ref { u32 id; Obj *o; Val off; };
// resolve a pointer for an access of n bytes; H_OK on success
static HRes resolve(State &st, Val p, u32 n, Ref &r, bool write, bool forceConc = false) {
  if (p.e) {
    useModel(st);
    u64 mv = (u64)P.eval(p.e);
    u32 id = mv >> 32;
    if ((p.e->umin >> 32) != (p.e->umax >> 32)) {
      E hi = P.extract(p.e, 32, 32);
      E c = P.eq(hi, P.konst(id, 32));
      if (!decide(st, c)) abort();
    }
    r.id = id;
    r.o = st.mem.get(id);
    if (!r.o || r.o == FREED || r.o->kind == KFunc) return fail(st, "memory", objErr(r.o));
    E off = P.extract(p.e, 0, 32);
    if (r.o->size < n) return fail(st, "memory", "out-of-bounds access");
    E inb = P.ule(off, P.konst(r.o->size - n, 32));
    if (inb != P.T && knownVal(st, inb) != 1) {
      std::shared_ptr<Model> m;
      int q = query(st, P.bnot(inb), &m);
      if (q == 1) { violation(st, "memory", "out-of-bounds access", &m->v); }
      if (q == 0) st.known.ins(inb->id);
      else {
        if (q < 0) return H_END;
        useModel(st);
        if (!P.eval(inb)) { if (query(st, inb, &m) != 1) return H_END; st.model = m; }
        addPC(st, inb);
      }
    }
    if (off->op == OConst) { r.off = conc((u64)off->c); return H_OK; }
    if (forceConc) { r.off = conc(concretize(st, off)); return H_OK; }
    r.off = {0, off};
    return H_OK;
  }
  r.id = p.c >> 32;
  u32 off = (u32)p.c;
  r.o = st.mem.get(r.id);
  if (!r.o || r.o == FREED || r.o->kind == KFunc) return n == 0 ? H_OK : fail(st, "memory", r.id == 0 ? "null pointer access" : objErr(r.o));
  if ((u64)off + n > r.o->size) return fail(st, "memory", "out-of-bounds access");
  r.off = conc(off);
  (void)write;
  return H_OK;
}
static bool candidates(Obj *o, u32 n, E off, std::vector<u32> &out) {
  u64 lo = off->umin, hi = std::min<u64>(off->umax, o->size - n);
  u32 tz = std::countr_one(off->kz); if (tz > 16) tz = 16;
  u64 step = 1ULL << tz;
  lo = (lo + step - 1) / step * step;
  if (hi < lo) return false;
  if ((hi - lo) / step > 4096) return false;
  for (u64 x = lo; x <= hi; x += step) if (!(x & off->kz)) out.push_back(x);
  return true;
}
static HRes loadPtr(State &st, Val p, u32 n, u32 w, Val &out) {
  Ref r;
  HRes h = resolve(st, p, n, r, false);
  if (h != H_OK) return h;
  if (!r.off.e) { out = loadAt(r.o, (u32)r.off.c, n, w); return H_OK; }
  E off = r.off.e;
  if (off->dist && off->leaves <= 4096) {
    bool ok = true;
    std::function<void(E)> chk = [&](E x) { if (x->op == OIte) { chk(x->k[1]); chk(x->k[2]); } else if ((u64)x->c + n > r.o->size) ok = false; };
    if (off->leaves <= 4096) chk(off);
    if (ok) { out = fromE(P.mapTree(off, [&](E x) { return toE(loadAt(r.o, (u32)x->c, n, w), w); })); return H_OK; }
  }
  std::vector<u32> cs;
  if (!candidates(r.o, n, off, cs)) { u32 o = concretize(st, off); out = loadAt(r.o, o, n, w); return H_OK; }
  if (cs.empty()) return H_END;
  // group equal values
  std::vector<std::pair<E, E>> groups; // value, condition
  std::unordered_map<E, size_t> idx;
  for (u32 k : cs) {
    E v = toE(loadAt(r.o, k, n, w), w);
    E c = P.eq(off, P.konst(k, 32));
    if (c == P.F) continue;
    auto it = idx.find(v);
    if (it == idx.end()) { idx[v] = groups.size(); groups.push_back({v, c}); }
    else groups[it->second].second = P.bor(groups[it->second].second, c);
  }
  E res = groups.back().first;
  for (size_t i = groups.size() - 1; i-- > 0;) res = P.ite(groups[i].second, groups[i].first, res);
  out = fromE(res);
  return H_OK;
}
static HRes storePtr(State &st, Val p, u32 n, Val v, u32 w) {
  Ref r;
  HRes h = resolve(st, p, n, r, true);
  if (h != H_OK) return h;
  if (r.o->kind == KConst) return fail(st, "memory", "write to constant memory");
  if (r.off.e) {
    std::vector<u32> cs;
    E off = r.off.e;
    if (candidates(r.o, n, off, cs) && cs.size() <= 512) {
      Obj *o = st.mem.getw(r.id);
      bool overlap = std::countr_one(off->kz) < 32 && (1u << std::countr_one(off->kz)) < n;
      if (!overlap) {
        for (u32 k : cs) {
          E old = toE(loadAt(o, k, n, w), w);
          E c = P.eq(off, P.konst(k, 32));
          storeAt(o, k, n, fromE(P.ite(c, toE(v, w), old)), w);
        }
        return H_OK;
      }
    }
    r.off = conc(concretize(st, off));
  }
  storeAt(st.mem.getw(r.id), (u32)r.off.c, n, v, w);
  return H_OK;
}
static HRes copyBytes(State &st, u64 d, u64 s, u64 n) {
  if (!n) return H_OK;
  Ref rd, rs;
  HRes h = resolve(st, conc(s), n, rs, false);
  if (h != H_OK) return h;
  h = resolve(st, conc(d), n, rd, true);
  if (h != H_OK) return h;
  if (rd.o->kind == KConst) return fail(st, "memory", "write to constant memory");
  Obj *o = st.mem.getw(rd.id);
  Obj *q = st.mem.get(rs.id);
  u32 od = (u32)rd.off.c, os = (u32)rs.off.c;
  memmove(&o->data[od], &q->data[os], n);
  if (!q->sym.empty() || !o->sym.empty()) {
    if (o->sym.empty()) o->sym.assign(o->size, SB{nullptr, 0});
    if (q->sym.empty()) for (u64 i = 0; i < n; ++i) o->sym[od + i].e = nullptr;
    else memmove(&o->sym[od], &q->sym[os], n * sizeof(SB));
  }
  return H_OK;
}

// ------------------------------------------------------------------ constants
static u32 tyWidth(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  if (t->isHalfTy()) return 16;
  return 0;
}
static void flatten(Type *t, u32 off, std::vector<Elem> &out) {
  if (auto *s = dyn_cast<StructType>(t)) {
    const StructLayout *L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) flatten(s->getElementType(i), off + L->getElementOffset(i), out);
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    u32 sz = DL->getTypeAllocSize(a->getElementType());
    for (u64 i = 0; i < a->getNumElements(); ++i) flatten(a->getElementType(), off + i * sz, out);
  } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    u32 sz = DL->getTypeStoreSize(v->getElementType());
    for (unsigned i = 0; i < v->getNumElements(); ++i) flatten(v->getElementType(), off + i * sz, out);
  } else if (!t->isVoidTy()) {
    out.push_back({tyWidth(t), off, (u32)DL->getTypeStoreSize(t)});
  }
}
static u32 nflat(Type *t) {
  if (t->isVoidTy() || !t->isSized()) return 0;
  if (t->isSingleValueType() && !t->isVectorTy()) return 1;
  std::vector<Elem> e; flatten(t, 0, e); return e.size();
}
static Val apv(APInt const &a) {
  if (a.getBitWidth() <= 64) return conc(a.getZExtValue());
  u128 v = a.extractBitsAsZExtValue(64, 0);
  v |= (u128)a.extractBitsAsZExtValue(a.getBitWidth() - 64, 64) << 64;
  return {0, P.konst(v, a.getBitWidth())};
}
static bool evalConst(const Constant *c, std::vector<Val> &out);
static Val const1(const Constant *c) { std::vector<Val> v; evalConst(c, v); return v.empty() ? conc(0) : v[0]; }
static bool evalConst(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { out.push_back(apv(ci->getValue())); return true; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    if (t->isDoubleTy() || t->isFloatTy()) out.push_back(conc(cf->getValueAPF().bitcastToAPInt().getZExtValue()));
    else out.push_back(apv(cf->getValueAPF().bitcastToAPInt()));
    return true;
  }
  if (isa<ConstantPointerNull>(c)) { out.push_back(conc(0)); return true; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { // includes poison
    std::vector<Elem> e; flatten(t, 0, e);
    for (auto &x : e) out.push_back(x.w > 64 ? Val{0, P.konst(0, x.w)} : conc(0));
    return true;
  }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) if (!evalConst(cast<Constant>(ca->getOperand(i)), out)) return false;
    return true;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    for (unsigned i = 0; i < cd->getNumElements(); ++i) evalConst(cd->getElementAsConstant(i), out);
    return true;
  }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return evalConst(ga->getAliasee(), out);
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    auto it = gaddr.find(gv);
    out.push_back(conc(it == gaddr.end() ? 0 : it->second));
    return it != gaddr.end();
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce);
      APInt off(64, 0);
      Val b = const1(cast<Constant>(g->getPointerOperand()));
      if (!g->accumulateConstantOffset(*DL, off)) return false;
      out.push_back(conc(b.c + off.getSExtValue()));
      return true; }
    case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
      Val v = const1(ce->getOperand(0));
      u32 w = tyWidth(t);
      out.push_back(conc(v.c & mask64(w)));
      return true; }
    case Instruction::Trunc: out.push_back(conc(const1(ce->getOperand(0)).c & mask64(tyWidth(t)))); return true;
    case Instruction::Sub: out.push_back(conc((const1(ce->getOperand(0)).c - const1(ce->getOperand(1)).c) & mask64(tyWidth(t)))); return true;
    case Instruction::Add: out.push_back(conc((const1(ce->getOperand(0)).c + const1(ce->getOperand(1)).c) & mask64(tyWidth(t)))); return true;
    case Instruction::ICmp: {
      u64 x = const1(ce->getOperand(0)).c, y = const1(ce->getOperand(1)).c;
      auto pr = (CmpInst::Predicate)ce->getPredicate();
      out.push_back(conc(pr == CmpInst::ICMP_EQ ? x == y : pr == CmpInst::ICMP_NE ? x != y : 0));
      return true; }
    default: break;
    }
  }
  std::vector<Elem> e; flatten(t, 0, e);
  for (size_t i = 0; i < e.size(); ++i) out.push_back(conc(0));
  return false;
}

// ------------------------------------------------------------------ decoding
static void lookupHandler(CallInfo *ci, Function *f);
static DFunc *decode(Function *F) {
  auto it = dfuncs.find(F);
  if (it != dfuncs.end()) return it->second;
  DFunc *D = new DFunc();
  dfuncs[F] = D;
  D->F = F;
  std::unordered_map<const Value *, u32> slot;
  auto newSlot = [&](const Value *v) { u32 n = nflat(v->getType()); u32 s = D->nslots; D->nslots += n; slot[v] = s; return s; };
  for (auto &a : F->args()) { u32 n = nflat(a.getType()); u32 s = newSlot(&a); D->params.push_back({s, n}); }
  std::unordered_map<const BasicBlock *, u32> start;
  for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) newSlot(&I);
  std::unordered_map<const Constant *, int> cref;
  auto ref = [&](const Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) {
      auto f = cref.find(c);
      if (f != cref.end()) return f->second;
      int r = ~(int)D->consts.size();
      evalConst(c, D->consts);
      cref[c] = r;
      return r;
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return ~0;
    return slot.at(v);
  };
  D->consts.push_back(conc(0));
  // block starts: count non-phi instructions
  u32 pc = 0;
  for (auto &B : *F) { start[&B] = pc; for (auto &I : B) if (!isa<PHINode>(I)) ++pc; }
  D->code.resize(pc);
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.target = start[to];
    for (auto &phi : to->phis()) {
      const Value *v = phi.getIncomingValueForBlock(from);
      u32 n = nflat(phi.getType()); u32 d = slot[&phi]; int r = ref(v);
      for (u32 i = 0; i < n; ++i) e.copies.push_back({d + i, r >= 0 ? r + (int)i : ~(~r + (int)i)});
    }
    return e;
  };
  pc = 0;
  for (auto &B : *F) for (auto &I : B) {
    if (isa<PHINode>(I)) continue;
    DInst &d = D->code[pc++];
    d.I = &I;
    Type *t = I.getType();
    if (!t->isVoidTy()) { d.dst = slot[&I]; d.n = nflat(t); }
    auto scal = [](Type *x) { return x->getScalarType(); };
    if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
      static const std::map<unsigned, DOp> mp = {
        {Instruction::Add, DAdd}, {Instruction::Sub, DSub}, {Instruction::Mul, DMul}, {Instruction::UDiv, DUDiv}, {Instruction::SDiv, DSDiv},
        {Instruction::URem, DURem}, {Instruction::SRem, DSRem}, {Instruction::Shl, DShl}, {Instruction::LShr, DLShr}, {Instruction::AShr, DAShr},
        {Instruction::And, DAnd}, {Instruction::Or, DOr}, {Instruction::Xor, DXor}, {Instruction::FAdd, DFAdd}, {Instruction::FSub, DFSub},
        {Instruction::FMul, DFMul}, {Instruction::FDiv, DFDiv}, {Instruction::FRem, DFRem}};
      d.op = mp.at(bo->getOpcode()); d.w = tyWidth(scal(t)); d.a = ref(bo->getOperand(0)); d.b = ref(bo->getOperand(1));
      if (d.op >= DFAdd && d.w != 32 && d.w != 64) d.op = DUnsupported;
    } else if (auto *uo = dyn_cast<UnaryOperator>(&I)) {
      d.op = DFNeg; d.w = tyWidth(scal(t)); d.a = ref(uo->getOperand(0));
      if (d.w != 32 && d.w != 64) d.op = DUnsupported;
    } else if (auto *ic = dyn_cast<ICmpInst>(&I)) {
      d.op = DICmp; d.sub = ic->getPredicate(); d.w = tyWidth(scal(ic->getOperand(0)->getType())); d.a = ref(ic->getOperand(0)); d.b = ref(ic->getOperand(1));
    } else if (auto *fc = dyn_cast<FCmpInst>(&I)) {
      d.op = DFCmp; d.sub = fc->getPredicate(); d.w = tyWidth(scal(fc->getOperand(0)->getType())); d.a = ref(fc->getOperand(0)); d.b = ref(fc->getOperand(1));
      if (d.w != 32 && d.w != 64) d.op = DUnsupported;
    } else if (auto *ca = dyn_cast<CastInst>(&I)) {
      Type *s = ca->getOperand(0)->getType();
      d.w = tyWidth(scal(s)); d.w2 = tyWidth(scal(t)); d.a = ref(ca->getOperand(0));
      switch (ca->getOpcode()) {
      case Instruction::Trunc: d.op = DTrunc; break;
      case Instruction::ZExt: d.op = DZExt; break;
      case Instruction::SExt: d.op = DSExt; break;
      case Instruction::FPToUI: d.op = DFPToUI; break;
      case Instruction::FPToSI: d.op = DFPToSI; break;
      case Instruction::UIToFP: d.op = DUIToFP; break;
      case Instruction::SIToFP: d.op = DSIToFP; break;
      case Instruction::FPTrunc: d.op = DFPTrunc; break;
      case Instruction::FPExt: d.op = DFPExt; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: d.op = d.w == d.w2 ? DMove : (d.w > d.w2 ? DTrunc : DZExt); break;
      case Instruction::AddrSpaceCast: d.op = DMove; break;
      case Instruction::BitCast:
        if (d.w == d.w2) d.op = DMove;
        else { d.op = DBitcast; d.imm = nflat(s); }
        break;
      default: break;
      }
      if (d.op >= DFPToUI && d.op <= DFPExt) {
        auto plain = [](Type *t) { t = t->getScalarType(); return t->isDoubleTy() || t->isFloatTy() || (t->isIntegerTy() && t->getIntegerBitWidth() <= 64); };
        if (!plain(I.getType()) || !plain(I.getOperand(0)->getType())) d.op = DUnsupported;
      }
    } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
      d.op = DAlloca; d.imm = DL->getTypeAllocSize(al->getAllocatedType()); d.a = ref(al->getArraySize()); d.w = tyWidth(al->getArraySize()->getType());
    } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
      d.op = DLoad; d.a = ref(ld->getPointerOperand()); d.elems = new std::vector<Elem>(); flatten(t, 0, *d.elems);
    } else if (auto *sr = dyn_cast<StoreInst>(&I)) {
      d.op = DStore; d.a = ref(sr->getPointerOperand()); d.b = ref(sr->getValueOperand()); d.elems = new std::vector<Elem>(); flatten(sr->getValueOperand()->getType(), 0, *d.elems);
    } else if (auto *gp = dyn_cast<GetElementPtrInst>(&I)) {
      if (t->isVectorTy()) { d.op = DUnsupported; continue; }
      d.op = DGep; d.a = ref(gp->getPointerOperand()); d.gep = new std::vector<GepIdx>(); d.imm = 0;
      for (auto gi = gep_type_begin(gp), ge = gep_type_end(gp); gi != ge; ++gi) {
        Value *ix = gi.getOperand();
        if (StructType *s = gi.getStructTypeOrNull()) d.imm += DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        else {
          s64 sc = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *c = dyn_cast<ConstantInt>(ix)) d.imm += c->getSExtValue() * sc;
          else d.gep->push_back({ref(ix), sc, tyWidth(ix->getType())});
        }
      }
    } else if (auto *br = dyn_cast<BranchInst>(&I)) {
      d.edges = new std::vector<Edge>();
      if (br->isUnconditional()) { d.op = DBr; d.edges->push_back(mkEdge(&B, br->getSuccessor(0))); }
      else { d.op = DCondBr; d.a = ref(br->getCondition()); d.edges->push_back(mkEdge(&B, br->getSuccessor(0))); d.edges->push_back(mkEdge(&B, br->getSuccessor(1))); }
    } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
      d.op = DSwitch; d.a = ref(sw->getCondition()); d.w = tyWidth(sw->getCondition()->getType()); d.edges = new std::vector<Edge>(); d.cases = new std::vector<u64>();
      d.edges->push_back(mkEdge(&B, sw->getDefaultDest()));
      for (auto &cs : sw->cases()) { d.cases->push_back(cs.getCaseValue()->getZExtValue()); d.edges->push_back(mkEdge(&B, cs.getCaseSuccessor())); }
    } else if (auto *rt = dyn_cast<ReturnInst>(&I)) {
      d.op = DRet; if (rt->getReturnValue()) { d.a = ref(rt->getReturnValue()); d.n = nflat(rt->getReturnValue()->getType()); } else d.n = 0;
    } else if (auto *cb = dyn_cast<CallBase>(&I)) {
      d.op = DCall;
      CallInfo *ci = new CallInfo(); d.call = ci;
      if (t->isVoidTy()) d.n = 0;
      ci->nret = d.n; ci->retw = t->isVoidTy() ? 0 : tyWidth(t->getScalarType()); ci->retIsPtr = t->isPointerTy();
      Function *callee = cb->getCalledFunction();
      if (!callee) if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) callee = dyn_cast<Function>(ga->getAliaseeObject());
      if (!callee) callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
      if (callee && callee->getName() == "_ZSt24__throw_out_of_range_fmtPKcz") if (Function *r = M->getFunction("sym_throw_oor")) callee = r;
      ci->callee = callee;
      if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty()) { d.op = DNop; continue; } d.op = DUnsupported; continue; }
      if (!callee) ci->fnref = ref(cb->getCalledOperand());
      else { ci->name = callee->getName().str(); ci->iid = callee->getIntrinsicID(); }
      bool dbg = isa<DbgInfoIntrinsic>(cb);
      if (!dbg) for (unsigned i = 0; i < cb->arg_size(); ++i) {
        Value *av = cb->getArgOperand(i);
        if (!av->getType()->isSized()) continue;
        ci->args.push_back({ref(av), nflat(av->getType())});
        ci->argw.push_back(tyWidth(av->getType()->getScalarType()));
        u32 bv = 0;
        if (cb->isByValArgument(i)) bv = DL->getTypeAllocSize(cb->getParamByValType(i));
        ci->byval.push_back(bv);
      }
      if (dbg) { d.op = DNop; }
      if (auto *iv = dyn_cast<InvokeInst>(cb)) {
        ci->invoke = true; ci->normal = mkEdge(&B, iv->getNormalDest()); ci->unwind = mkEdge(&B, iv->getUnwindDest());
        LandingPadInst *lp = iv->getLandingPadInst();
        ci->cleanup = lp->isCleanup();
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
          Clause c; c.isCatch = lp->isCatch(i);
          evalConst(lp->getClause(i), c.types);
          ci->clauses.push_back(c);
        }
      }
      if (callee && d.op == DCall) {
        lookupHandler(ci, callee);
      }
    } else if (isa<LandingPadInst>(I)) d.op = DLandingPad;
    else if (auto *rs = dyn_cast<ResumeInst>(&I)) { d.op = DResume; d.a = ref(rs->getValue()); }
    else if (isa<UnreachableInst>(I)) d.op = DUnreachable;
    else if (auto *se = dyn_cast<SelectInst>(&I)) {
      d.op = DSelect; d.a = ref(se->getCondition()); d.b = ref(se->getTrueValue()); d.c = ref(se->getFalseValue()); d.imm = nflat(se->getCondition()->getType());
      d.elems = new std::vector<Elem>(); flatten(t, 0, *d.elems);
    } else if (auto *ev = dyn_cast<ExtractValueInst>(&I)) {
      d.op = DExtractValue; d.a = ref(ev->getAggregateOperand());
      Type *ct = ev->getAggregateOperand()->getType(); u32 off = 0;
      for (unsigned ix : ev->indices()) {
        if (auto *s = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; ++k) off += nflat(s->getElementType(k)); ct = s->getElementType(ix); }
        else { auto *a = cast<ArrayType>(ct); off += ix * nflat(a->getElementType()); ct = a->getElementType(); }
      }
      d.imm = off;
    } else if (auto *iv = dyn_cast<InsertValueInst>(&I)) {
      d.op = DInsertValue; d.a = ref(iv->getAggregateOperand()); d.b = ref(iv->getInsertedValueOperand());
      Type *ct = iv->getAggregateOperand()->getType(); u32 off = 0;
      for (unsigned ix : iv->indices()) {
        if (auto *s = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; ++k) off += nflat(s->getElementType(k)); ct = s->getElementType(ix); }
        else { auto *a = cast<ArrayType>(ct); off += ix * nflat(a->getElementType()); ct = a->getElementType(); }
      }
      d.imm = off; d.w = nflat(iv->getInsertedValueOperand()->getType());
    } else if (auto *ee = dyn_cast<ExtractElementInst>(&I)) {
      d.op = DExtractElem; d.a = ref(ee->getVectorOperand()); d.b = ref(ee->getIndexOperand());
    } else if (auto *ie = dyn_cast<InsertElementInst>(&I)) {
      d.op = DInsertElem; d.a = ref(ie->getOperand(0)); d.b = ref(ie->getOperand(1)); d.c = ref(ie->getOperand(2));
    } else if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) {
      d.op = DShuffle; d.a = ref(sv->getOperand(0)); d.b = ref(sv->getOperand(1)); d.imm = nflat(sv->getOperand(0)->getType()); d.mask = new std::vector<int>();
      for (int m : sv->getShuffleMask()) d.mask->push_back(m);
    } else if (auto *fz = dyn_cast<FreezeInst>(&I)) { d.op = DMove; d.a = ref(fz->getOperand(0)); }
    else if (auto *cx = dyn_cast<AtomicCmpXchgInst>(&I)) {
      d.op = DCmpXchg; d.a = ref(cx->getPointerOperand()); d.b = ref(cx->getCompareOperand()); d.c = ref(cx->getNewValOperand()); d.w = tyWidth(cx->getCompareOperand()->getType());
    } else if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) {
      d.op = DAtomicRMW; d.a = ref(rm->getPointerOperand()); d.b = ref(rm->getValOperand()); d.w = tyWidth(t); d.sub = rm->getOperation();
    } else if (isa<FenceInst>(I)) d.op = DNop;
  }
  return D;
}

// ------------------------------------------------------------------ scalar operations
static Val binop(State &st, u16 op, Val x, Val y, u32 w, bool &bad) {
  if (!x.e && !y.e && w <= 64) {
    u64 a = x.c, b = y.c, m = mask64(w);
    switch (op) {
    case DAdd: return conc((a + b) & m);
    case DSub: return conc((a - b) & m);
    case DMul: return conc((a * b) & m);
    case DAnd: return conc(a & b);
    case DOr: return conc(a | b);
    case DXor: return conc(a ^ b);
    case DShl: return conc(b >= w ? 0 : (a << b) & m);
    case DLShr: return conc(b >= w ? 0 : a >> b);
    case DAShr: return conc((u64)(sx(a, w) >> (b >= w ? w - 1 : b)) & m);
    case DUDiv: case DURem: case DSDiv: case DSRem: {
      if (b == 0) { bad = true; return conc(0); }
      Op o = op == DUDiv ? OUDiv : op == DURem ? OURem : op == DSDiv ? OSDiv : OSRem;
      return conc((u64)ExprPool::foldDiv(o, a, b, w)); }
    case DFAdd: return conc(ExprPool::ffold(OFAdd, a, b, w));
    case DFSub: return conc(ExprPool::ffold(OFSub, a, b, w));
    case DFMul: return conc(ExprPool::ffold(OFMul, a, b, w));
    case DFDiv: return conc(ExprPool::ffold(OFDiv, a, b, w));
    case DFRem: return w == 64 ? conc(ExprPool::fromD(fmod(ExprPool::asD(a), ExprPool::asD(b)))) : conc(ExprPool::fromF(fmodf(ExprPool::asF(a), ExprPool::asF(b))));
    }
  }
  E a = toE(x, w), b = toE(y, w);
  switch (op) {
  case DAdd: return fromE(P.add(a, b));
  case DSub: return fromE(P.sub(a, b));
  case DMul: return fromE(P.mul(a, b));
  case DAnd: return fromE(P.band(a, b));
  case DOr:
    // disjoint or == add: keep linear form for addresses
    if (w <= 64 && w > 1 && (a->kz | b->kz) == ~0ULL && b->op == OConst) return fromE(P.add(a, b));
    return fromE(P.bor(a, b));
  case DXor: return fromE(P.bxor(a, b));
  case DShl: return fromE(P.shl(a, b));
  case DLShr: return fromE(P.lshr(a, b));
  case DAShr: return fromE(P.ashr(a, b));
  case DUDiv: case DURem: case DSDiv: case DSRem: {
    E z = P.eq(b, P.konst(0, w));
    if (decide(st, z)) { bad = true; return conc(0); }
    Op o = op == DUDiv ? OUDiv : op == DURem ? OURem : op == DSDiv ? OSDiv : OSRem;
    return fromE(P.div(o, a, b)); }
  case DFAdd: return fromE(P.fbin(OFAdd, a, b));
  case DFSub: return fromE(P.fbin(OFSub, a, b));
  case DFMul: return fromE(P.fbin(OFMul, a, b));
  case DFDiv: return fromE(P.fbin(OFDiv, a, b));
  }
  bad = true;
  return conc(0);
}
static E icmpE(u32 pred, E a, E b) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return P.eq(a, b);
  case CmpInst::ICMP_NE: return P.bnot(P.eq(a, b));
  case CmpInst::ICMP_ULT: return P.ult(a, b);
  case CmpInst::ICMP_ULE: return P.ule(a, b);
  case CmpInst::ICMP_UGT: return P.ult(b, a);
  case CmpInst::ICMP_UGE: return P.ule(b, a);
  case CmpInst::ICMP_SLT: return P.slt(a, b);
  case CmpInst::ICMP_SLE: return P.sle(a, b);
  case CmpInst::ICMP_SGT: return P.slt(b, a);
  case CmpInst::ICMP_SGE: return P.sle(b, a);
  }
  abort();
}
static Val icmp(u32 pred, Val x, Val y, u32 w) {
  if (!x.e && !y.e) {
    u64 a = x.c, b = y.c; s64 p = sx(a, w), q = sx(b, w);
    switch (pred) {
    case CmpInst::ICMP_EQ: return conc(a == b);
    case CmpInst::ICMP_NE: return conc(a != b);
    case CmpInst::ICMP_ULT: return conc(a < b);
    case CmpInst::ICMP_ULE: return conc(a <= b);
    case CmpInst::ICMP_UGT: return conc(a > b);
    case CmpInst::ICMP_UGE: return conc(a >= b);
    case CmpInst::ICMP_SLT: return conc(p < q);
    case CmpInst::ICMP_SLE: return conc(p <= q);
    case CmpInst::ICMP_SGT: return conc(p > q);
    case CmpInst::ICMP_SGE: return conc(p >= q);
    }
  }
  return fromE(icmpE(pred, toE(x, w), toE(y, w)));
}
// enumerate all feasible values of an integer expression into an ITE tree (solver driven)
static E summarise(State &st, E e, u32 limit) {
  if (e->dist) return e;
  std::vector<u64> vals;
  E excl = P.T;
  useModel(st);
  u64 v0 = (u64)P.eval(e);
  vals.push_back(v0);
  excl = P.bnot(P.eq(e, P.konst(v0, e->width)));
  while (true) {
    std::shared_ptr<Model> m;
    int r = query(st, excl, &m);
    if (r == 0) break;
    if (r < 0) return nullptr;
    P.setModel(&m->v); g_curmodel = 0;
    u64 v = (u64)P.eval(e);
    vals.push_back(v);
    if (vals.size() > limit) return nullptr;
    excl = P.band(excl, P.bnot(P.eq(e, P.konst(v, e->width))));
  }
  std::sort(vals.begin(), vals.end());
  // balanced decision over the value order
  std::function<E(size_t, size_t)> build = [&](size_t lo, size_t hi) -> E {
    if (hi - lo == 1) return P.konst(vals[lo], e->width);
    size_t mid = (lo + hi) / 2;
    E c = hi - lo == 2 ? P.eq(e, P.konst(vals[lo], e->width)) : P.ult(e, P.konst(vals[mid], e->width));
    return P.ite(c, build(lo, mid), build(mid, hi));
  };
  return build(0, vals.size());
}
static Val castop(State &st, u16 op, Val x, u32 w, u32 w2) {
  if (!x.e && w2 <= 64 && w <= 64) {
    switch (op) {
    case DTrunc: return conc(x.c & mask64(w2));
    case DZExt: return x;
    case DSExt: return conc((u64)sx(x.c, w) & mask64(w2));
    default: break;
    }
  }
  E a = toE(x, w);
  switch (op) {
  case DTrunc: return fromE(P.extract(a, 0, w2));
  case DZExt: { E r = P.zext(a, w2); return w2 > 64 ? Val{0, r} : fromE(r); }
  case DSExt: { E r = P.sext(a, w2); return w2 > 64 ? Val{0, r} : fromE(r); }
  case DFPToUI: return fromE(P.fconv(OFToU, a, w2));
  case DFPToSI: return fromE(P.fconv(OFToS, a, w2));
  case DUIToFP: case DSIToFP: {
    if (!a->dist) { E s = summarise(st, a, 520); if (s) a = s; }
    return fromE(P.fconv(op == DUIToFP ? OFConvU : OFConvS, a, w2)); }
  case DFPTrunc: return fromE(P.fconv(OFTrunc, a, w2));
  case DFPExt: return fromE(P.fconv(OFExt, a, w2));
  }
  abort();
}

// ------------------------------------------------------------------ exceptions & RTTI
static std::unordered_map<u64, std::string> specialGlobals; // address -> name (for RTTI vtables)
static u64 ld64(State &st, u64 a, bool &ok) {
  u32 id = a >> 32; Obj *o = st.mem.get(id);
  if (!o || o == FREED || (u64)(u32)a + 8 > o->size) { ok = false; return 0; }
  Val v = loadAt(o, (u32)a, 8, 64);
  if (v.e) { ok = false; return 0; }
  return v.c;
}
enum TIKind { TIClass, TISi, TIVmi, TIOther };
static TIKind tiKind(State &st, u64 ti) {
  bool ok = true;
  u64 vp = ld64(st, ti, ok);
  if (!ok) return TIOther;
  auto it = specialGlobals.find(vp & ~0xffffffffULL);
  if (it == specialGlobals.end()) return TIOther;
  if (it->second.find("__si_class_type_info") != std::string::npos) return TISi;
  if (it->second.find("__vmi_class_type_info") != std::string::npos) return TIVmi;
  if (it->second.find("__class_type_info") != std::string::npos) return TIClass;
  return TIOther;
}
// find base/derived `want` inside object p of dynamic type ti; returns true and address
static bool findBase(State &st, u64 ti, u64 p, u64 want, u64 &out) {
  if (ti == want) { out = p; return true; }
  bool ok = true;
  switch (tiKind(st, ti)) {
  case TISi: { u64 b = ld64(st, ti + 16, ok); return ok && findBase(st, b, p, want, out); }
  case TIVmi: {
    u64 fc = ld64(st, ti + 16, ok);
    if (!ok) return false;
    u32 n = fc >> 32;
    for (u32 i = 0; i < n; ++i) {
      u64 b = ld64(st, ti + 24 + 16 * i, ok); s64 of = (s64)ld64(st, ti + 32 + 16 * i, ok);
      if (!ok) return false;
      s64 off = of >> 8;
      u64 q = p;
      if (of & 1) { u64 vp = ld64(st, p, ok); if (!ok) return false; q = p + ld64(st, vp + off, ok); }
      else q = p + off;
      if (findBase(st, b, q, want, out)) return true;
    }
    return false; }
  default: return false;
  }
}
static void popFrame(State &st) {
  for (u32 id : st.frames.back().allocas) st.mem.free(id);
  st.frames.pop_back();
}
static void takeEdge(Frame &f, Edge const &e) {
  if (!e.copies.empty()) {
    if (e.copies.size() == 1) {
      int r = e.copies[0].second;
      f.regs[e.copies[0].first] = r >= 0 ? f.regs[r] : f.f->consts[~r];
    } else {
      Val tmp[32]; std::vector<Val> big; Val *t = tmp;
      size_t n = e.copies.size();
      if (n > 32) { big.resize(n); t = big.data(); }
      for (size_t i = 0; i < n; ++i) { int r = e.copies[i].second; t[i] = r >= 0 ? f.regs[r] : f.f->consts[~r]; }
      for (size_t i = 0; i < n; ++i) f.regs[e.copies[i].first] = t[i];
    }
  }
  f.pc = e.target;
}
static std::string tiName(State &st, u64 ti) {
  for (auto &g : gaddr) if (g.second == ti) return demangle(g.first->getName().str());
  (void)st;
  return "?";
}
static ExcRec *findExc(State &st, u64 p) { for (auto &e : st.exc) if (e.ptr == p) return &e; return nullptr; }
static HRes unwindExc(State &st, u64 excPtr) {
  ExcRec *er = findExc(st, excPtr);
  u64 ti = er ? er->tinfo : 0;
  std::string name = tiName(st, ti);
  State *save = nullptr; (void)save;
  std::string wh = where(st);
  bool first = true;
  while (!st.frames.empty()) {
    Frame &f = st.frames.back();
    DInst &d = f.f->code[f.pc];
    if (!(first && d.op == DResume) && d.op == DCall && d.call->invoke) {
      CallInfo &ci = *d.call;
      u32 sel = 0; bool land = false; u64 adj = excPtr;
      for (auto &c : ci.clauses) {
        if (c.isCatch) {
          u64 want = c.types[0].c, q = excPtr;
          if (want == 0 || findBase(st, ti, excPtr, want, q)) { land = true; sel = want ? (u32)(want >> 32) : 0x7fffffff; adj = q; break; }
        } else { // filter: exception specification
          bool allowed = false; u64 q;
          for (auto &t : c.types) if (t.c == 0 || findBase(st, ti, excPtr, t.c, q)) allowed = true;
          if (!allowed) { land = true; sel = (u32)-1; break; }
        }
      }
      if (land || ci.cleanup) {
        st.curExc = excPtr; st.curSel = sel; (void)adj;
        takeEdge(f, ci.unwind);
        return H_JUMP;
      }
    }
    first = false;
    if (st.frames.size() == 1) break;
    popFrame(st);
  }
  violation(st, "exception", "uncaught exception " + name, &st.model->v);
  if (!viols.empty() && viols.back().where.empty()) viols.back().where = wh;
  return H_END;
}

// ------------------------------------------------------------------ handlers
static void setRet(State &st, DInst &d, Val v) { if (d.n) st.frames.back().regs[d.dst] = v; }
static std::string readStr(State &st, u64 p) {
  std::string s;
  if (!(p >> 32)) return s;
  Obj *o = st.mem.get(p >> 32);
  if (!o || o == FREED) return s;
  for (u32 i = (u32)p; i < o->size && o->data[i]; ++i) s += (char)o->data[i];
  return s;
}
static std::unordered_map<std::string, const char *> internTab;
static const char *intern(std::string const &s) {
  auto it = internTab.find(s);
  if (it == internTab.end()) it = internTab.emplace(s, strdup(s.c_str())).first;
  return it->second;
}
static HRes hMalloc(State &st, DInst &d, std::vector<Val> &a) {
  u64 n = concV(st, a[0]);
  if (n > (1ULL << 30)) { return unsupported(st, "allocation of " + std::to_string(n) + " bytes"); }
  setRet(st, d, conc((u64)st.mem.alloc(n, KHeap) << 32));
  return H_OK;
}
static HRes hNew(State &st, DInst &d, std::vector<Val> &a) {
  u64 n = concV(st, a[0]);
  if (n > (1ULL << 30)) return fail(st, "memory", "allocation of more than 2^30 bytes requested");
  setRet(st, d, conc((u64)st.mem.alloc(n, KHeap) << 32));
  return H_OK;
}
static HRes hCalloc(State &st, DInst &d, std::vector<Val> &a) {
  u64 n = concV(st, a[0]) * concV(st, a[1]);
  if (n > (1ULL << 30)) return unsupported(st, "large calloc");
  setRet(st, d, conc((u64)st.mem.alloc(n, KHeap, 0) << 32));
  return H_OK;
}
static HRes hFree(State &st, DInst &, std::vector<Val> &a) {
  u64 p = concV(st, a[0]);
  if (!p) return H_OK;
  Obj *o = st.mem.get(p >> 32);
  if (!o || o == FREED) return fail(st, "memory", "double free or invalid free");
  if (o->kind != KHeap || (u32)p) return fail(st, "memory", "free of non-heap pointer");
  st.mem.free(p >> 32);
  return H_OK;
}
static HRes hRealloc(State &st, DInst &d, std::vector<Val> &a) {
  u64 p = concV(st, a[0]), n = concV(st, a[1]);
  u32 id = st.mem.alloc(n, KHeap);
  if (p) {
    Obj *o = st.mem.get(p >> 32);
    if (!o || o == FREED) return fail(st, "memory", "realloc of freed pointer");
    u64 m = std::min<u64>(n, o->size);
    HRes h = copyBytes(st, (u64)id << 32, p, m);
    if (h != H_OK) return h;
    st.mem.free(p >> 32);
  }
  setRet(st, d, conc((u64)id << 32));
  return H_OK;
}
static HRes hMemcpy(State &st, DInst &d, std::vector<Val> &a) {
  u64 n = concV(st, a[2]), x = concV(st, a[0]), y = concV(st, a[1]);
  HRes h = copyBytes(st, x, y, n);
  if (h == H_OK) setRet(st, d, conc(x));
  return h;
}
static HRes hMemset(State &st, DInst &d, std::vector<Val> &a) {
  u64 n = concV(st, a[2]), x = concV(st, a[0]);
  if (n) {
    Ref r; HRes h = resolve(st, conc(x), n, r, true);
    if (h != H_OK) return h;
    Obj *o = st.mem.getw(r.id);
    Val v = a[1];
    u32 aw = d.call->argw[1];
    Val b = v.e ? fromE(P.extract(v.e, 0, 8)) : conc(v.c & 0xff);
    (void)aw;
    if (!b.e) {
      memset(&o->data[(u32)x], (int)b.c, n);
      if (!o->sym.empty()) for (u64 i = 0; i < n; ++i) o->sym[(u32)x + i].e = nullptr;
    } else for (u64 i = 0; i < n; ++i) storeAt(o, (u32)x + i, 1, b, 8);
  }
  setRet(st, d, conc(x));
  return H_OK;
}
static HRes hMemcmp(State &st, DInst &d, std::vector<Val> &a) {
  u64 n = concV(st, a[2]), x = concV(st, a[0]), y = concV(st, a[1]);
  if (!n) { setRet(st, d, conc(0)); return H_OK; }
  Ref rx, ry;
  HRes h = resolve(st, conc(x), n, rx, false); if (h != H_OK) return h;
  h = resolve(st, conc(y), n, ry, false); if (h != H_OK) return h;
  E r = P.konst(0, 32);
  for (u64 i = n; i-- > 0;) {
    E p = toE(loadAt(rx.o, (u32)x + i, 1, 8), 8), q = toE(loadAt(ry.o, (u32)y + i, 1, 8), 8);
    r = P.ite(P.eq(p, q), r, P.ite(P.ult(p, q), P.konst(~0u, 32), P.konst(1, 32)));
  }
  setRet(st, d, fromE(r));
  return H_OK;
}
static HRes hStrlen(State &st, DInst &d, std::vector<Val> &a) {
  u64 x = concV(st, a[0]);
  for (u64 n = 0;; ++n) {
    Ref r; HRes h = resolve(st, conc(x + n), 1, r, false); if (h != H_OK) return h;
    Val b = loadAt(r.o, (u32)(x + n), 1, 8);
    bool z = b.e ? decide(st, P.eq(b.e, P.konst(0, 8))) : b.c == 0;
    if (z) { setRet(st, d, conc(n)); return H_OK; }
  }
}
static HRes hMemchr(State &st, DInst &d, std::vector<Val> &a) {
  u64 x = concV(st, a[0]), c = concV(st, a[1]) & 0xff, n = concV(st, a[2]);
  for (u64 i = 0; i < n; ++i) {
    Ref r; HRes h = resolve(st, conc(x + i), 1, r, false); if (h != H_OK) return h;
    Val b = loadAt(r.o, (u32)(x + i), 1, 8);
    bool z = b.e ? decide(st, P.eq(b.e, P.konst(c, 8))) : b.c == c;
    if (z) { setRet(st, d, conc(x + i)); return H_OK; }
  }
  setRet(st, d, conc(0));
  return H_OK;
}
static HRes hStrcmp(State &st, DInst &d, std::vector<Val> &a) {
  u64 x = concV(st, a[0]), y = concV(st, a[1]);
  std::string s = readStr(st, x), t = readStr(st, y);
  int r = s.compare(t);
  setRet(st, d, conc((u32)(r < 0 ? -1 : r > 0)));
  return H_OK;
}
static HRes hAbort(State &st, DInst &d, std::vector<Val> &) { return fail(st, "abort", "call of " + d.call->name); }
static HRes hAssertFail(State &st, DInst &, std::vector<Val> &a) {
  return fail(st, "assert", "library assertion failed: " + readStr(st, a[0].c));
}
static HRes hThrowAlloc(State &st, DInst &d, std::vector<Val> &a) {
  setRet(st, d, conc((u64)st.mem.alloc(concV(st, a[0]), KHeap, 0) << 32));
  return H_OK;
}
static HRes hFreeExc(State &, DInst &, std::vector<Val> &) { return H_OK; }
static HRes hThrow(State &st, DInst &, std::vector<Val> &a) {
  st.exc.push_back({a[0].c, a[1].c, 0});
  return unwindExc(st, a[0].c);
}
static HRes hBeginCatch(State &st, DInst &d, std::vector<Val> &a) {
  u64 p = a[0].c;
  ExcRec *e = findExc(st, p);
  if (e) { st.caught.push_back(*e); }
  // adjusted pointer: re-run base search is unnecessary for single inheritance at offset 0
  setRet(st, d, conc(p));
  return H_OK;
}
static HRes hEndCatch(State &st, DInst &, std::vector<Val> &) { if (!st.caught.empty()) st.caught.pop_back(); return H_OK; }
static HRes hRethrow(State &st, DInst &, std::vector<Val> &) {
  if (st.caught.empty()) return fail(st, "abort", "rethrow without exception");
  return unwindExc(st, st.caught.back().ptr);
}
static HRes hDynCast(State &st, DInst &d, std::vector<Val> &a) {
  u64 p = concV(st, a[0]);
  if (!p) { setRet(st, d, conc(0)); return H_OK; }
  Val vp;
  HRes h = loadPtr(st, conc(p), 8, 64, vp);
  if (h != H_OK) return h;
  u64 v = concV(st, vp);
  bool ok = true;
  s64 top = (s64)ld64(st, v - 16, ok); u64 ti = ld64(st, v - 8, ok);
  if (!ok) return fail(st, "memory", "dynamic_cast on invalid object");
  u64 r = 0;
  if (!findBase(st, ti, p + top, concV(st, a[2]), r)) r = 0;
  setRet(st, d, conc(r));
  return H_OK;
}
static HRes hNop(State &st, DInst &d, std::vector<Val> &) { if (d.n) for (u32 i = 0; i < d.n; ++i) st.frames.back().regs[d.dst + i] = conc(0); return H_OK; }
static HRes hGuardAcquire(State &st, DInst &d, std::vector<Val> &a) {
  Val v; HRes h = loadPtr(st, a[0], 1, 8, v); if (h != H_OK) return h;
  setRet(st, d, conc(v.c == 0));
  return H_OK;
}
static HRes hGuardRelease(State &st, DInst &, std::vector<Val> &a) { return storePtr(st, a[0], 1, conc(1), 8); }
template <double (*FN)(double)> static HRes hMath1(State &st, DInst &d, std::vector<Val> &a) {
  if (!a[0].e) { setRet(st, d, conc(ExprPool::fromD(FN(ExprPool::asD(a[0].c))))); return H_OK; }
  if (a[0].e->dist) { setRet(st, d, fromE(P.mapTree(a[0].e, [&](E x) { return P.konst(ExprPool::fromD(FN(ExprPool::asD((u64)x->c))), 64); }))); return H_OK; }
  setRet(st, d, conc(ExprPool::fromD(FN(ExprPool::asD(concV(st, a[0]))))));
  return H_OK;
}
template <float (*FN)(float)> static HRes hMath1f(State &st, DInst &d, std::vector<Val> &a) {
  setRet(st, d, conc(ExprPool::fromF(FN(ExprPool::asF(concV(st, a[0]))))));
  return H_OK;
}
template <double (*FN)(double, double)> static HRes hMath2(State &st, DInst &d, std::vector<Val> &a) {
  E x = toE(a[0], 64), y = toE(a[1], 64);
  if (x->dist && y->dist) { setRet(st, d, fromE(P.mapTree2(x, y, [&](E p, E q) { return P.konst(ExprPool::fromD(FN(ExprPool::asD((u64)p->c), ExprPool::asD((u64)q->c))), 64); }))); return H_OK; }
  setRet(st, d, conc(ExprPool::fromD(FN(ExprPool::asD(concV(st, a[0])), ExprPool::asD(concV(st, a[1]))))));
  return H_OK;
}
template <long (*FN)(double)> static HRes hMathI(State &st, DInst &d, std::vector<Val> &a) {
  E x = toE(a[0], 64);
  if (x->dist) { setRet(st, d, fromE(P.mapTree(x, [&](E p) { return P.konst((u64)FN(ExprPool::asD((u64)p->c)), 64); }))); return H_OK; }
  setRet(st, d, conc((u64)FN(ExprPool::asD(concV(st, a[0])))));
  return H_OK;
}
static HRes hMathUn(State &st, DInst &d, std::vector<Val> &a, u32 f, u32 w) { setRet(st, d, fromE(P.fun(f, toE(a[0], w)))); return H_OK; }

// -------- harness API
static E newInput(State &st, std::string const &nm, u32 bits, u64 span) {
  const char *in = intern(nm);
  u32 occ = 0;
  for (auto &i : st.inputs) if (i.name == in) ++occ;
  E v = P.var(nm, bits, span, occ);
  // the model of this path may hold a value left by another path
  if (v->aux < st.model->v.size() && st.model->v[v->aux] > span) {
    auto m = std::make_shared<Model>(*st.model);
    m->v[v->aux] = 0; m->id = ++g_modelid; st.model = m;
  }
  return v;
}
static HRes hSymBits(State &st, DInst &d, std::vector<Val> &a) {
  std::string nm = readStr(st, a[0].c); u32 bits = concV(st, a[1]);
  E v = newInput(st, nm, bits, mask64(bits));
  Val r = fromE(P.zext(v, 64));
  st.inputs.push_back({intern(nm), r, 0});
  setRet(st, d, r);
  return H_OK;
}
static HRes hSymRange(State &st, DInst &d, std::vector<Val> &a) {
  std::string nm = readStr(st, a[0].c); u64 lo = concV(st, a[1]), hi = concV(st, a[2]);
  if (hi < lo) return unsupported(st, "empty sym_range");
  u64 span = hi - lo;
  if (span == 0) { st.inputs.push_back({intern(nm), conc(0), lo}); setRet(st, d, conc(lo)); return H_OK; }
  u32 bits = 64 - std::countl_zero(span);
  E v = newInput(st, nm, bits, span);
  if (span != mask64(bits)) { // the declared range must also be known to the solver
    E c = P.mk(OUle, 1, 0, 0, v, P.konst(span, bits), nullptr);
    st.pc.push_back(c);
  }
  E z = P.zext(v, 64);
  st.inputs.push_back({intern(nm), fromE(z), lo});
  setRet(st, d, fromE(P.add(z, P.konst(lo, 64))));
  return H_OK;
}
static HRes hSymAssume(State &st, DInst &, std::vector<Val> &a) {
  if (!a[0].e) { if (!a[0].c) { ++ST.infeasible; return H_END; } return H_OK; }
  E c = a[0].e;
  if (c->width != 1) c = P.bnot(P.eq(c, P.konst(0, c->width)));
  int k = knownVal(st, c);
  if (k == 1) return H_OK;
  if (k == 0) { ++ST.infeasible; return H_END; }
  useModel(st);
  if (!P.eval(c)) {
    std::shared_ptr<Model> m;
    int r = query(st, c, &m);
    if (r != 1) { ++ST.infeasible; return H_END; }
    st.model = m;
  }
  addPC(st, c);
  return H_OK;
}
static HRes hSymCheck(State &st, DInst &, std::vector<Val> &a) {
  std::string label = readStr(st, a[1].c);
  ++ST.checks; checkLabels[label]++;
  if (!a[0].e) {
    ++ST.checks_trivial;
    if (!a[0].c) { violation(st, "check", label, &st.model->v); return H_END; }
    return H_OK;
  }
  E c = a[0].e;
  if (c->width != 1) c = P.bnot(P.eq(c, P.konst(0, c->width)));
  if (knownVal(st, c) == 1) { ++ST.checks_trivial; return H_OK; }
  ++ST.checks_solver;
  std::shared_ptr<Model> m;
  int r = query(st, P.bnot(c), &m);
  if (r == 0) { st.known.ins(c->id); return H_OK; }
  if (r == 1) {
    violation(st, "check", label, &m->v);
    useModel(st);
    if (!P.eval(c)) { if (query(st, c, &m) != 1) return H_END; st.model = m; }
    addPC(st, c);
  }
  return H_OK;
}
static HRes hSymCover(State &st, DInst &, std::vector<Val> &a) {
  std::string label = readStr(st, a[0].c);
  if (coverLabels[label]++ == 0) coverWit[label] = witness(st, &st.model->v);
  return H_OK;
}
static HRes hSymPick(State &st, DInst &d, std::vector<Val> &a) { setRet(st, d, conc(concV(st, a[0]))); return H_OK; }
static HRes hSymBranch(State &st, DInst &d, std::vector<Val> &a) {
  if (!a[0].e) { setRet(st, d, conc(a[0].c != 0)); return H_OK; }
  E c = a[0].e; if (c->width != 1) c = P.bnot(P.eq(c, P.konst(0, c->width)));
  setRet(st, d, conc(decide(st, c)));
  return H_OK;
}
static HRes hSymSummary(State &st, DInst &d, std::vector<Val> &a) {
  if (!a[0].e) { setRet(st, d, a[0]); return H_OK; }
  E s = summarise(st, a[0].e, 4096);
  setRet(st, d, s ? fromE(s) : a[0]);
  return H_OK;
}
static HRes hSymParam(State &st, DInst &d, std::vector<Val> &a) {
  u64 i = concV(st, a[0]);
  setRet(st, d, conc(i < g_params.size() ? (u64)g_params[i] & mask64(d.call->retw) : 0));
  return H_OK;
}
static HRes hSymObserve(State &st, DInst &, std::vector<Val> &a) { st.observed.push_back(a[0]); return H_OK; }
static HRes hSymIsSym(State &st, DInst &d, std::vector<Val> &) { setRet(st, d, conc(1)); return H_OK; }
static HRes hSymDump(State &st, DInst &, std::vector<Val> &a) {
  fprintf(stderr, "dump %s = %s%llx\n", readStr(st, a[0].c).c_str(), a[1].e ? "sym " : "", (unsigned long long)(a[1].e ? 0 : a[1].c));
  return H_OK;
}
static HRes hExit(State &st, DInst &, std::vector<Val> &) { return fail(st, "abort", "exit called"); }
static HRes hFailAssertGlibcxx(State &st, DInst &, std::vector<Val> &a) { return fail(st, "assert", "libstdc++ assertion failed: " + (a.size() > 3 ? readStr(st, a[3].c) : std::string())); }
static HRes hSnprintfDouble(State &st, DInst &, std::vector<Val> &) { return unsupported(st, "printf-family call"); }
// u64 sym_fmt_double(double v, char *buf): concrete formatting with %g (operator<< default)
static HRes hFmtDouble(State &st, DInst &d, std::vector<Val> &a) {
  u64 v = concV(st, a[0]); u64 buf = concV(st, a[1]);
  char tmp[64]; int n = snprintf(tmp, sizeof tmp, "%g", ExprPool::asD(v));
  for (int i = 0; i <= n; ++i) { HRes h = storePtr(st, conc(buf + i), 1, conc((u8)tmp[i]), 8); if (h != H_OK) return h; }
  setRet(st, d, conc(n));
  return H_OK;
}

static HRes hFmtDoubleF(State &st, DInst &d, std::vector<Val> &a) {
  u64 v = concV(st, a[0]); u64 buf = concV(st, a[1]);
  char tmp[400]; int n = snprintf(tmp, sizeof tmp, "%f", ExprPool::asD(v));
  for (int i = 0; i <= n; ++i) { HRes h = storePtr(st, conc(buf + i), 1, conc((u8)tmp[i]), 8); if (h != H_OK) return h; }
  setRet(st, d, conc(n));
  return H_OK;
}

// -------- intrinsics
static E popcountE(E x) {
  u32 w = x->width;
  // sum of bits, built as a tree of small adders
  std::vector<E> v;
  for (u32 i = 0; i < w; ++i) { E b = P.extract(x, i, 1); if (b == P.F) continue; v.push_back(b); }
  if (v.empty()) return P.konst(0, w);
  u32 bw = 1;
  std::function<E(size_t, size_t, u32 &)> sum = [&](size_t lo, size_t hi, u32 &ow) -> E {
    if (hi - lo == 1) { ow = 1; return v[lo]; }
    size_t m = (lo + hi) / 2; u32 wa, wb;
    E a = sum(lo, m, wa), b = sum(m, hi, wb);
    ow = std::max(wa, wb) + 1;
    E za = P.zext(a, ow), zb = P.zext(b, ow);
    if (za->op == OConst || zb->op == OConst) return P.add(za, zb);
    return P.mk(OAdd, ow, 0, 0, za, zb, nullptr);
  };
  E s = sum(0, v.size(), bw);
  return bw > w ? P.extract(s, 0, w) : P.zext(s, w);
}
static HRes intrinsic(State &st, DInst &d, std::vector<Val> &a) {
  CallInfo &ci = *d.call;
  u32 w = ci.argw.empty() ? 0 : ci.argw[0];
  auto &R = st.frames.back().regs;
  auto ret = [&](Val v) { R[d.dst] = v; return H_OK; };
  switch (ci.iid) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_end: case Intrinsic::sideeffect: return H_OK;
  case Intrinsic::invariant_start: return ret(conc(0));
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return hMemcpy(st, d, a);
  case Intrinsic::memset: case Intrinsic::memset_inline: return hMemset(st, d, a);
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
  case Intrinsic::threadlocal_address: case Intrinsic::ssa_copy: return ret(a[0]);
  case Intrinsic::is_constant: return ret(conc(0));
  case Intrinsic::objectsize: return ret(conc(a[1].c ? 0 : ~0ULL & mask64(ci.retw)));
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return fail(st, "abort", "trap");
  case Intrinsic::stacksave: return ret(conc(0));
  case Intrinsic::stackrestore: return H_OK;
  case Intrinsic::ptrmask: { bool bad = false; return ret(binop(st, DAnd, a[0], a[1], 64, bad)); }
  case Intrinsic::eh_typeid_for: return ret(conc(a[0].c ? (a[0].c >> 32) : 0x7fffffff));
  default: break;
  }
  // elementwise operations
  u32 n = d.n;
  std::vector<Val> out(n);
  auto arg = [&](u32 k, u32 i) -> Val {
    auto &ar = ci.args[k]; u32 idx = ar.second == 1 ? 0 : i;
    Frame &f = st.frames.back();
    int r = ar.first; return r >= 0 ? f.regs[r + idx] : f.f->consts[~r + idx];
  };
  switch (ci.iid) {
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
  case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
    if (w > 63) {
      E x = toE(a[0], w), y = toE(a[1], w);
      if (w > 64) return unsupported(st, "overflow intrinsic on wide integer");
      E o, r;
      switch (ci.iid) {
      case Intrinsic::uadd_with_overflow: r = P.add(x, y); o = P.ult(r, x); break;
      case Intrinsic::usub_with_overflow: r = P.sub(x, y); o = P.ult(x, y); break;
      case Intrinsic::sadd_with_overflow: r = P.add(x, y); o = P.bnot(P.eq(P.add(P.sext(x, 128), P.sext(y, 128)), P.sext(r, 128))); break;
      case Intrinsic::ssub_with_overflow: r = P.sub(x, y); o = P.bnot(P.eq(P.sub(P.sext(x, 128), P.sext(y, 128)), P.sext(r, 128))); break;
      case Intrinsic::umul_with_overflow: r = P.mul(x, y);
        if ((u128)x->umax * y->umax <= mask64(w)) o = P.F;
        else if (x->op == OConst && x->c) o = P.ult(P.konst(mask64(w) / (u64)x->c, w), y);
        else if (y->op == OConst && y->c) o = P.ult(P.konst(mask64(w) / (u64)y->c, w), x);
        else o = P.bnot(P.eq(P.mul(P.zext(x, 128), P.zext(y, 128)), P.zext(r, 128)));
        break;
      default: r = P.mul(x, y); o = P.bnot(P.eq(P.mul(P.sext(x, 128), P.sext(y, 128)), P.sext(r, 128))); break;
      }
      R[d.dst] = fromE(r); R[d.dst + 1] = fromE(o);
      return H_OK;
    }
    E x = toE(a[0], w), y = toE(a[1], w);
    u32 W = 2 * w + 1 > 128 ? 128 : 2 * w + 1;
    bool sg = ci.iid == Intrinsic::sadd_with_overflow || ci.iid == Intrinsic::ssub_with_overflow || ci.iid == Intrinsic::smul_with_overflow;
    E xx = sg ? P.sext(x, W) : P.zext(x, W), yy = sg ? P.sext(y, W) : P.zext(y, W), rr;
    E r;
    if (ci.iid == Intrinsic::uadd_with_overflow || ci.iid == Intrinsic::sadd_with_overflow) { rr = P.add(xx, yy); r = P.add(x, y); }
    else if (ci.iid == Intrinsic::usub_with_overflow || ci.iid == Intrinsic::ssub_with_overflow) { rr = P.sub(xx, yy); r = P.sub(x, y); }
    else { rr = P.mul(xx, yy); r = P.mul(x, y); }
    E o = P.bnot(P.eq(rr, sg ? P.sext(r, W) : P.zext(r, W)));
    R[d.dst] = fromE(r); R[d.dst + 1] = fromE(o);
    return H_OK; }
  default: break;
  }
  for (u32 i = 0; i < n; ++i) {
    auto A = [&](u32 k) { return arg(k, i); };
    switch (ci.iid) {
    case Intrinsic::ctpop: { Val x = A(0); if (!x.e) { out[i] = conc(std::popcount(x.c)); break; } E pe = popcountE(x.e); if (pe->op != OConst) { P.popSrc[pe->id] = x.e; if (pe->op == OZExt) P.popSrc[pe->k[0]->id] = x.e; } out[i] = fromE(pe); break; }
    case Intrinsic::cttz: { Val x = A(0);
      if (!x.e) { out[i] = conc(x.c ? std::countr_zero(x.c) : w); break; }
      E r = P.konst(w, w); for (u32 k = w; k-- > 0;) r = P.ite(P.extract(x.e, k, 1), P.konst(k, w), r);
      out[i] = fromE(r); break; }
    case Intrinsic::ctlz: { Val x = A(0);
      if (!x.e) { out[i] = conc(x.c ? std::countl_zero(x.c) - (64 - w) : w); break; }
      E r = P.konst(w, w); for (u32 k = 0; k < w; ++k) r = P.ite(P.extract(x.e, k, 1), P.konst(w - 1 - k, w), r);
      out[i] = fromE(r); break; }
    case Intrinsic::bswap: { E x = toE(A(0), w); E r = nullptr; for (u32 k = 0; k < w; k += 8) { E b = P.extract(x, k, 8); r = r ? P.concat(r, b) : b; } out[i] = fromE(r); break; }
    case Intrinsic::bitreverse: { E x = toE(A(0), w); E r = nullptr; for (u32 k = 0; k < w; ++k) { E b = P.extract(x, k, 1); r = r ? P.concat(r, b) : b; } out[i] = fromE(r); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E x = toE(A(0), w), y = toE(A(1), w), s = P.div(OURem, toE(A(2), w), P.konst(w, w));
      E inv = P.sub(P.konst(w, w), s); E z = P.eq(s, P.konst(0, w));
      if (ci.iid == Intrinsic::fshl) out[i] = fromE(P.ite(z, x, P.bor(P.shl(x, s), P.lshr(y, inv))));
      else out[i] = fromE(P.ite(z, y, P.bor(P.shl(x, inv), P.lshr(y, s))));
      break; }
    case Intrinsic::umax: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.ite(P.ult(x, y), y, x)); break; }
    case Intrinsic::umin: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.ite(P.ult(x, y), x, y)); break; }
    case Intrinsic::smax: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.ite(P.slt(x, y), y, x)); break; }
    case Intrinsic::smin: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.ite(P.slt(x, y), x, y)); break; }
    case Intrinsic::abs: { E x = toE(A(0), w); out[i] = fromE(P.ite(P.slt(x, P.konst(0, w)), P.neg(x), x)); break; }
    case Intrinsic::uadd_sat: { E x = toE(A(0), w), y = toE(A(1), w), r = P.add(x, y); out[i] = fromE(P.ite(P.ult(r, x), P.konst(mask64(w), w), r)); break; }
    case Intrinsic::usub_sat: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.ite(P.ult(x, y), P.konst(0, w), P.sub(x, y))); break; }
    case Intrinsic::fabs: { E x = toE(A(0), w); out[i] = fromE(P.band(x, P.konst(mask64(w) >> 1, w))); break; }
    case Intrinsic::copysign: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.bor(P.band(x, P.konst(mask64(w) >> 1, w)), P.band(y, P.konst(1ULL << (w - 1), w)))); break; }
    case Intrinsic::sqrt: out[i] = fromE(P.fun(ExprPool::FUSqrt, toE(A(0), w))); break;
    case Intrinsic::floor: out[i] = fromE(P.fun(ExprPool::FUFloor, toE(A(0), w))); break;
    case Intrinsic::ceil: out[i] = fromE(P.fun(ExprPool::FUCeil, toE(A(0), w))); break;
    case Intrinsic::trunc: out[i] = fromE(P.fun(ExprPool::FUTrunc, toE(A(0), w))); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: out[i] = fromE(P.fun(ExprPool::FURint, toE(A(0), w))); break;
    case Intrinsic::round: out[i] = fromE(P.fun(ExprPool::FURound, toE(A(0), w))); break;
    case Intrinsic::fmuladd: { E x = toE(A(0), w), y = toE(A(1), w), z = toE(A(2), w); out[i] = fromE(P.fbin(OFAdd, P.fbin(OFMul, x, y), z)); break; }
    case Intrinsic::maxnum: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.ite(P.fcmp(4 | 8, x, y), y, x)); break; }
    case Intrinsic::minnum: { E x = toE(A(0), w), y = toE(A(1), w); out[i] = fromE(P.ite(P.fcmp(2 | 8, x, y), y, x)); break; }
    case Intrinsic::pow: return hMath2<pow>(st, d, a);
    case Intrinsic::log2: return hMath1<log2>(st, d, a);
    case Intrinsic::log: return hMath1<log>(st, d, a);
    case Intrinsic::exp: return hMath1<exp>(st, d, a);
    case Intrinsic::exp2: return hMath1<exp2>(st, d, a);
    case Intrinsic::log10: return hMath1<log10>(st, d, a);
    case Intrinsic::sin: return hMath1<sin>(st, d, a);
    case Intrinsic::cos: return hMath1<cos>(st, d, a);
    case Intrinsic::powi: { out[i] = conc(ExprPool::fromD(pow(ExprPool::asD(concV(st, A(0))), (int)concV(st, A(1))))); break; }
    case Intrinsic::is_fpclass: {
      Val x = A(0); u64 mask = a[1].c;
      if (x.e) { x = conc(concV(st, x)); }
      double v = w == 64 ? ExprPool::asD(x.c) : ExprPool::asF(x.c);
      int cl = std::fpclassify(v); bool s = std::signbit(v); u64 bit = 0;
      if (cl == FP_NAN) bit = 3; else if (cl == FP_INFINITE) bit = s ? 4 : 512; else if (cl == FP_NORMAL) bit = s ? 8 : 256; else if (cl == FP_SUBNORMAL) bit = s ? 16 : 128; else bit = s ? 32 : 64;
      out[i] = conc((mask & bit) != 0); break; }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
      u32 cnt = ci.args[0].second; u32 ew = ci.argw[0]; E acc = nullptr;
      for (u32 k = 0; k < cnt; ++k) { E x = toE(arg(0, k), ew); acc = !acc ? x : ci.iid == Intrinsic::vector_reduce_add ? P.add(acc, x) : ci.iid == Intrinsic::vector_reduce_or ? P.bor(acc, x) : ci.iid == Intrinsic::vector_reduce_and ? P.band(acc, x) : P.bxor(acc, x); }
      out[i] = fromE(acc); break; }
    default: return unsupported(st, "intrinsic " + ci.name);
    }
  }
  for (u32 i = 0; i < n; ++i) R[d.dst + i] = w > 64 && !out[i].e ? Val{0, P.konst(out[i].c, w)} : out[i];
  return H_OK;
}

static double nearbyint_(double x) { return std::nearbyint(x); }
static long lround_(double x) { return lround(x); }
static long ilogb_(double x) { return ilogb(x); }
static long lrint_(double x) { return lrint(x); }
static void initHandlers() {
  auto &h = handlers;
  h["malloc"] = hMalloc; h["calloc"] = hCalloc; h["realloc"] = hRealloc; h["free"] = hFree;
  h["_Znwm"] = h["_Znam"] = hNew;
  h["_ZnwmSt11align_val_t"] = h["_ZnamSt11align_val_t"] = h["_ZnwmRKSt9nothrow_t"] = h["_ZnamRKSt9nothrow_t"] = hNew;
  h["aligned_alloc"] = h["posix_memalign"] = [](State &st, DInst &d, std::vector<Val> &a) -> HRes {
    if (d.call->name == "aligned_alloc") { u64 n = concV(st, a[1]); setRet(st, d, conc((u64)st.mem.alloc(n, KHeap) << 32)); return H_OK; }
    u64 n = concV(st, a[2]); u64 p = (u64)st.mem.alloc(n, KHeap) << 32; HRes r = storePtr(st, a[0], 8, conc(p), 64); setRet(st, d, conc(0)); return r; };
  for (auto s : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) h[s] = hFree;
  h["memcpy"] = h["memmove"] = hMemcpy; h["memset"] = hMemset; h["memcmp"] = h["bcmp"] = hMemcmp;
  h["strlen"] = hStrlen; h["memchr"] = hMemchr; h["strcmp"] = hStrcmp;
  for (auto s : {"abort", "_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__cxa_deleted_virtual", "__cxa_throw_bad_array_new_length", "__cxa_call_unexpected", "__stack_chk_fail"}) h[s] = hAbort;
  h["__assert_fail"] = hAssertFail; h["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = hFailAssertGlibcxx;
  h["__cxa_allocate_exception"] = hThrowAlloc; h["__cxa_free_exception"] = hFreeExc; h["__cxa_throw"] = hThrow; h["__cxa_begin_catch"] = hBeginCatch;
  h["__cxa_end_catch"] = hEndCatch; h["__cxa_rethrow"] = hRethrow; h["__dynamic_cast"] = hDynCast;
  h["__cxa_get_exception_ptr"] = [](State &st, DInst &d, std::vector<Val> &a) -> HRes { setRet(st, d, a[0]); return H_OK; };
  h["__cxa_atexit"] = h["atexit"] = h["__cxa_thread_atexit"] = hNop;
  h["__cxa_guard_acquire"] = hGuardAcquire; h["__cxa_guard_release"] = hGuardRelease; h["__cxa_guard_abort"] = hNop;
  h["pthread_mutex_lock"] = h["pthread_mutex_unlock"] = h["__pthread_key_create"] = hNop;
  h["exit"] = h["_exit"] = hExit;
  h["log2"] = hMath1<log2>; h["log"] = hMath1<log>; h["exp"] = hMath1<exp>; h["log10"] = hMath1<log10>; h["sin"] = hMath1<sin>; h["cos"] = hMath1<cos>;
  h["cbrt"] = hMath1<cbrt>; h["exp2"] = hMath1<exp2>; h["tgamma"] = hMath1<tgamma>; h["lgamma"] = hMath1<lgamma>;
  h["nearbyint"] = h["rint"] = hMath1<nearbyint_>; h["pow"] = hMath2<pow>; h["fmod"] = hMath2<fmod>; h["hypot"] = hMath2<hypot>; h["remainder"] = hMath2<remainder>; h["atan2"] = hMath2<atan2>;
  h["sqrtf"] = hMath1f<sqrtf>; h["log2f"] = hMath1f<log2f>;
  h["ilogb"] = hMathI<ilogb_>;
  h["ldexp"] = h["scalbn"] = h["scalbln"] = [](State &st, DInst &d, std::vector<Val> &a) -> HRes {
    setRet(st, d, conc(ExprPool::fromD(std::ldexp(ExprPool::asD(concV(st, a[0])), (int)concV(st, a[1])))));
    return H_OK;
  }; h["lround"] = h["llround"] = hMathI<lround_>; h["lrint"] = h["llrint"] = hMathI<lrint_>;
  h["sqrt"] = [](State &st, DInst &d, std::vector<Val> &a) { return hMathUn(st, d, a, ExprPool::FUSqrt, 64); };
  h["floor"] = [](State &st, DInst &d, std::vector<Val> &a) { return hMathUn(st, d, a, ExprPool::FUFloor, 64); };
  h["ceil"] = [](State &st, DInst &d, std::vector<Val> &a) { return hMathUn(st, d, a, ExprPool::FUCeil, 64); };
  h["trunc"] = [](State &st, DInst &d, std::vector<Val> &a) { return hMathUn(st, d, a, ExprPool::FUTrunc, 64); };
  h["round"] = [](State &st, DInst &d, std::vector<Val> &a) { return hMathUn(st, d, a, ExprPool::FURound, 64); };
  h["snprintf"] = h["vsnprintf"] = h["printf"] = h["sprintf"] = hSnprintfDouble;
  h["sym_bits"] = hSymBits; h["sym_range"] = hSymRange; h["sym_assume"] = hSymAssume; h["sym_check"] = hSymCheck; h["sym_cover"] = hSymCover;
  h["sym_pick"] = hSymPick; h["sym_branch"] = hSymBranch; h["sym_param"] = hSymParam; h["sym_observe"] = hSymObserve; h["sym_is_symbolic"] = hSymIsSym;
  h["sym_dump"] = hSymDump; h["sym_fmt_double"] = hFmtDouble; h["sym_fmt_double_f"] = hFmtDoubleF; h["sym_summary"] = hSymSummary;
}
static void lookupHandler(CallInfo *ci, Function *f) {
  if (f->isIntrinsic()) { ci->h = intrinsic; return; }
  std::string n = f->getName().str();
  auto it = handlers.find(n);
  if (it != handlers.end() && (f->isDeclaration() || n == "__clang_call_terminate")) { ci->h = it->second; return; }
  if (f->isDeclaration()) { ci->h = nullptr; ci->df = nullptr; return; }
}

// ------------------------------------------------------------------ the interpreter loop
static inline Val get(Frame &f, int r, u32 i = 0) { return r >= 0 ? f.regs[r + i] : f.f->consts[~r + i]; }

static void pushFrame(State &st, DFunc *df) {
  st.frames.emplace_back();
  Frame &f = st.frames.back();
  f.f = df; f.pc = 0; f.regs.assign(df->nslots, Val{0, nullptr});
}
static void finishPath(State &st) {
  ++ST.paths;
  // reservoir sampling of completed paths for native validation
  u64 idx = ST.paths - 1;
  size_t slot;
  if (samples.size() < (size_t)g_samples) { samples.emplace_back(); slot = samples.size() - 1; }
  else { u64 k = rnd() % (idx + 1); if (k >= (u64)g_samples) return; slot = k; }
  samples[slot].inputs = witness(st, &st.model->v);
  samples[slot].observed.clear();
  for (auto &o : st.observed) samples[slot].observed.push_back(o.e ? (u64)P.eval(o.e) : o.c);
}
static bool nextStage(State &st) {
  ++st.stage;
  if (st.stage >= stages.size()) return false;
  pushFrame(st, decode(stages[st.stage]));
  return true;
}
// runs the state until its path ends
static void run(State *sp) {
  State &st = *sp;
  CUR = sp;
  u64 cnt = 0;
  std::vector<Val> av;
  while (true) {
    Frame &f = st.frames.back();
    DInst &d = f.f->code[f.pc];
    d.hit = true;
    ++ST.insts; ++st.steps;
    if ((++cnt & 0xfff) == 0) {
      if (elapsed() > g_time) { inconclusive["time limit reached"]++; return; }
      if (st.steps > g_maxsteps) { violation(st, "hang", "path exceeds the instruction limit (non-termination?)", &st.model->v); return; }
    }
    switch (d.op) {
    case DAdd: case DSub: case DMul: case DUDiv: case DSDiv: case DURem: case DSRem: case DShl: case DLShr: case DAShr: case DAnd: case DOr: case DXor:
    case DFAdd: case DFSub: case DFMul: case DFDiv: case DFRem: {
      bool bad = false;
      for (u32 i = 0; i < d.n; ++i) {
        Val r = binop(st, d.op, get(f, d.a, i), get(f, d.b, i), d.w, bad);
        if (bad) {
          if (d.op == DFRem) { unsupported(st, "symbolic frem"); return; }
          fail(st, "arith", "division by zero"); return;
        }
        if (d.w > 64 && !r.e) r.e = P.konst(r.c, d.w);
        f.regs[d.dst + i] = r;
      }
      ++f.pc; break; }
    case DFNeg:
      for (u32 i = 0; i < d.n; ++i) { Val x = get(f, d.a, i); u64 sb = 1ULL << (d.w - 1); f.regs[d.dst + i] = x.e ? fromE(P.bxor(x.e, P.konst(sb, d.w))) : conc(x.c ^ sb); }
      ++f.pc; break;
    case DICmp: for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = icmp(d.sub, get(f, d.a, i), get(f, d.b, i), d.w); ++f.pc; break;
    case DFCmp: for (u32 i = 0; i < d.n; ++i) {
        Val x = get(f, d.a, i), y = get(f, d.b, i);
        f.regs[d.dst + i] = (!x.e && !y.e) ? conc(ExprPool::fcmpfold(d.sub, x.c, y.c, d.w)) : fromE(P.fcmp(d.sub, toE(x, d.w), toE(y, d.w)));
      } ++f.pc; break;
    case DTrunc: case DZExt: case DSExt: case DFPToUI: case DFPToSI: case DUIToFP: case DSIToFP: case DFPTrunc: case DFPExt:
      for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = castop(st, d.op, get(f, d.a, i), d.w, d.w2);
      ++f.pc; break;
    case DMove: for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = get(f, d.a, i); ++f.pc; break;
    case DBitcast: {
      E acc = nullptr;
      if (d.imm * d.w > 128) { unsupported(st, "wide vector bitcast"); return; }
      for (u32 i = 0; i < (u32)d.imm; ++i) { E x = toE(get(f, d.a, i), d.w); acc = acc ? P.concat(x, acc) : x; }
      for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = d.w2 > 64 ? Val{0, acc} : fromE(P.extract(acc, i * d.w2, d.w2));
      ++f.pc; break; }
    case DAlloca: {
      u64 n = d.imm * concV(st, get(f, d.a));
      if (n > (64u << 20)) { unsupported(st, "large alloca"); return; }
      u32 id = st.mem.alloc(n, KStack);
      f.allocas.push_back(id);
      f.regs[d.dst] = conc((u64)id << 32);
      ++f.pc; break; }
    case DLoad: {
      Val p = get(f, d.a);
      bool stop = false;
      if (d.elems->size() == 1) {
        Elem &e = (*d.elems)[0]; Val v;
        HRes h = loadPtr(st, p, e.size, e.w, v);
        if (h != H_OK) stop = true; else f.regs[d.dst] = v;
      } else {
        if (p.e) p = conc(concV(st, p));
        for (u32 i = 0; i < d.elems->size() && !stop; ++i) {
          Elem &e = (*d.elems)[i]; Val v;
          HRes h = loadPtr(st, conc(p.c + e.off), e.size, e.w, v);
          if (h != H_OK) stop = true; else f.regs[d.dst + i] = v;
        }
      }
      if (stop) return;
      ++f.pc; break; }
    case DStore: {
      Val p = get(f, d.a);
      if (d.elems->size() > 1 && p.e) p = conc(concV(st, p));
      bool stop = false;
      for (u32 i = 0; i < d.elems->size() && !stop; ++i) {
        Elem &e = (*d.elems)[i];
        Val q = p.e ? fromE(P.add(p.e, P.konst(e.off, 64))) : conc(p.c + e.off);
        if (storePtr(st, q, e.size, get(f, d.b, i), e.w) != H_OK) stop = true;
      }
      if (stop) return;
      ++f.pc; break; }
    case DGep: {
      Val p = get(f, d.a);
      u64 c = p.c + d.imm; E s = p.e;
      if (s) s = P.add(s, P.konst((u64)d.imm, 64));
      for (auto &g : *d.gep) {
        Val x = get(f, g.ref);
        if (!x.e) { u64 k = (u64)sx(x.c, g.w) * (u64)g.scale; if (s) s = P.add(s, P.konst(k, 64)); else c += k; }
        else {
          E t = P.mul(P.sext(x.e, 64), P.konst((u64)g.scale, 64));
          s = P.add(s ? s : P.konst(c, 64), t);
        }
      }
      f.regs[d.dst] = s ? fromE(s) : conc(c);
      ++f.pc; break; }
    case DBr: takeEdge(f, (*d.edges)[0]); break;
    case DCondBr: {
      Val c = get(f, d.a);
      bool b = c.e ? decide(st, c.e) : (c.c & 1);
      takeEdge(f, (*d.edges)[b ? 0 : 1]);
      break; }
    case DSwitch: {
      Val v = get(f, d.a);
      u32 k = 0;
      if (!v.e) { for (u32 i = 0; i < d.cases->size(); ++i) if ((*d.cases)[i] == v.c) { k = i + 1; break; } }
      else {
        // decide on target, grouping cases with the same destination is not needed
        useModel(st);
        u64 mv = (u64)P.eval(v.e);
        for (u32 i = 0; i < d.cases->size(); ++i) if ((*d.cases)[i] == mv) { k = i + 1; break; }
        E c;
        if (k) c = P.eq(v.e, P.konst(mv, d.w));
        else { c = P.T; for (u64 x : *d.cases) c = P.band(c, P.bnot(P.eq(v.e, P.konst(x, d.w)))); }
        if (!decide(st, c)) abort();
      }
      takeEdge(f, (*d.edges)[k]);
      break; }
    case DRet: {
      Val tmp[8]; std::vector<Val> big; Val *t = tmp;
      if (d.n > 8) { big.resize(d.n); t = big.data(); }
      for (u32 i = 0; i < d.n; ++i) t[i] = get(f, d.a, i);
      u32 n = d.n;
      popFrame(st);
      if (st.frames.empty()) { if (nextStage(st)) break; finishPath(st); return; }
      Frame &g = st.frames.back();
      DInst &c = g.f->code[g.pc];
      for (u32 i = 0; i < n && i < c.n; ++i) g.regs[c.dst + i] = t[i];
      if (c.call->invoke) takeEdge(g, c.call->normal); else ++g.pc;
      break; }
    case DCall: {
      CallInfo &ci = *d.call;
      Function *callee = ci.callee;
      Handler h = ci.h;
      DFunc *df = ci.df;
      if (!callee) {
        u64 p = concV(st, get(f, ci.fnref));
        auto it = funcById.find(p >> 32);
        if (it == funcById.end() || (u32)p) { fail(st, "memory", "call through invalid function pointer"); return; }
        callee = it->second;
        CallInfo tmp; lookupHandler(&tmp, callee); h = tmp.h; df = nullptr;
        if (!h && !callee->isDeclaration()) df = decode(callee);
      } else if (!h && !df && !callee->isDeclaration()) df = ci.df = decode(callee);
      if (h) {
        av.clear();
        for (auto &x : ci.args) av.push_back(get(f, x.first));
        HRes r = h(st, d, av);
        if (r == H_END) return;
        if (r == H_JUMP) break;
        Frame &g = st.frames.back();
        if (ci.invoke) takeEdge(g, ci.normal); else ++g.pc;
        break;
      }
      if (!df) { unsupported(st, "external function " + demangle(callee->getName().str())); return; }
      if (st.frames.size() > 4000) { fail(st, "hang", "call stack overflow"); return; }
      std::vector<Val> regs(df->nslots, Val{0, nullptr});
      std::vector<u32> extra;
      bool stop = false;
      for (u32 i = 0; i < df->params.size() && i < ci.args.size(); ++i) {
        if (ci.byval[i]) {
          u32 id = st.mem.alloc(ci.byval[i], KStack);
          extra.push_back(id);
          if (copyBytes(st, (u64)id << 32, concV(st, get(f, ci.args[i].first)), ci.byval[i]) != H_OK) { stop = true; break; }
          regs[df->params[i].first] = conc((u64)id << 32);
          continue;
        }
        for (u32 k = 0; k < df->params[i].second; ++k) regs[df->params[i].first + k] = get(f, ci.args[i].first, k);
      }
      if (stop) return;
      if (df->F->isVarArg()) { unsupported(st, "variadic function"); return; }
      st.frames.emplace_back();
      Frame &g = st.frames.back();
      g.f = df; g.pc = 0; g.regs.swap(regs); g.allocas.swap(extra);
      break; }
    case DLandingPad: f.regs[d.dst] = conc(st.curExc); f.regs[d.dst + 1] = conc(st.curSel); ++f.pc; break;
    case DResume: {
      u64 p = get(f, d.a).c;
      HRes r = unwindExc(st, p);
      if (r == H_END) return;
      break; }
    case DUnreachable: fail(st, "abort", "unreachable code reached"); return;
    case DSelect: {
      for (u32 i = 0; i < d.n; ++i) {
        Val c = get(f, d.a, d.imm > 1 ? i : 0);
        if (!c.e) f.regs[d.dst + i] = (c.c & 1) ? get(f, d.b, i) : get(f, d.c, i);
        else {
          int k = knownVal(st, c.e);
          if (k >= 0) f.regs[d.dst + i] = k ? get(f, d.b, i) : get(f, d.c, i);
          else { u32 w = (*d.elems)[i].w; E r = P.ite(c.e, toE(get(f, d.b, i), w), toE(get(f, d.c, i), w)); f.regs[d.dst + i] = w > 64 ? Val{0, r} : fromE(r); }
        }
      }
      ++f.pc; break; }
    case DExtractValue: for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = get(f, d.a, d.imm + i); ++f.pc; break;
    case DInsertValue:
      for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = get(f, d.a, i);
      for (u32 i = 0; i < d.w; ++i) f.regs[d.dst + d.imm + i] = get(f, d.b, i);
      ++f.pc; break;
    case DExtractElem: { u64 k = concV(st, get(f, d.b)); f.regs[d.dst] = get(f, d.a, k); ++f.pc; break; }
    case DInsertElem: { u64 k = concV(st, get(f, d.c)); for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = i == k ? get(f, d.b) : get(f, d.a, i); ++f.pc; break; }
    case DShuffle:
      { std::vector<Val> t(d.n);
        for (u32 i = 0; i < d.n; ++i) { int m = (*d.mask)[i]; t[i] = m < 0 ? conc(0) : m < d.imm ? get(f, d.a, m) : get(f, d.b, m - d.imm); }
        for (u32 i = 0; i < d.n; ++i) f.regs[d.dst + i] = t[i]; }
      ++f.pc; break;
    case DCmpXchg: {
      u32 sz = (d.w + 7) / 8; Val old;
      Val p = get(f, d.a);
      if (loadPtr(st, p, sz, d.w, old) != H_OK) return;
      E c = P.eq(toE(old, d.w), toE(get(f, d.b), d.w));
      bool b = decide(st, c);
      if (b && storePtr(st, p, sz, get(f, d.c), d.w) != H_OK) return;
      f.regs[d.dst] = old; f.regs[d.dst + 1] = conc(b);
      ++f.pc; break; }
    case DAtomicRMW: {
      u32 sz = (d.w + 7) / 8; Val old; Val p = get(f, d.a);
      if (loadPtr(st, p, sz, d.w, old) != H_OK) return;
      bool bad = false; Val nv = get(f, d.b);
      switch (d.sub) {
      case AtomicRMWInst::Add: nv = binop(st, DAdd, old, nv, d.w, bad); break;
      case AtomicRMWInst::Sub: nv = binop(st, DSub, old, nv, d.w, bad); break;
      case AtomicRMWInst::Xchg: break;
      case AtomicRMWInst::Or: nv = binop(st, DOr, old, nv, d.w, bad); break;
      case AtomicRMWInst::And: nv = binop(st, DAnd, old, nv, d.w, bad); break;
      default: unsupported(st, "atomicrmw"); return;
      }
      if (storePtr(st, p, sz, nv, d.w) != H_OK) return;
      f.regs[d.dst] = old; ++f.pc; break; }
    case DNop: ++f.pc; break;
    default: {
      std::string s; raw_string_ostream os(s); d.I->print(os);
      unsupported(st, "instruction " + s); return; }
    }
  }
}

// ------------------------------------------------------------------ set-up and report
static void writeInit(State &st, u64 addr, const Constant *c) {
  u32 id = addr >> 32, off = (u32)addr;
  Obj *o = st.mem.getw(id);
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o->data[off], r.data(), r.size()); return; }
  if (auto *ca = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *L = DL->getStructLayout(ca->getType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeInit(st, addr + L->getElementOffset(i), ca->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    u64 sz = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeInit(st, addr + i * sz, ca->getOperand(i));
    return;
  }
  std::vector<Elem> e; flatten(c->getType(), 0, e);
  std::vector<Val> v; evalConst(c, v);
  for (size_t i = 0; i < e.size(); ++i) storeAt(o, off + e[i].off, e[i].size, v[i], e[i].w);
}
static std::string jstr(std::string const &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string jinputs(std::vector<std::pair<std::string, u64>> const &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + ("[" + jstr(v[i].first)) + ",\"" + std::to_string(v[i].second) + "\"]";
  return r + "]";
}
static void report() {
  FILE *f = g_out.empty() ? stdout : fopen(g_out.c_str(), "w");
  if (!f) { perror("report"); _exit(3); }
  fprintf(f, "{\"entry\":%s,\"params\":[", jstr(g_entry).c_str());
  for (size_t i = 0; i < g_params.size(); ++i) fprintf(f, "%s%lld", i ? "," : "", (long long)g_params[i]);
  fprintf(f, "],\"paths\":%llu,\"infeasible\":%llu,\"forks\":%llu,\"instructions\":%llu,\"checks\":%llu,\"checks_constant\":%llu,\"checks_solver\":%llu,\"sym_branches\":%llu,",
    (unsigned long long)ST.paths, (unsigned long long)ST.infeasible, (unsigned long long)ST.forks, (unsigned long long)ST.insts, (unsigned long long)ST.checks,
    (unsigned long long)ST.checks_trivial, (unsigned long long)ST.checks_solver, (unsigned long long)ST.symbranch);
  fprintf(f, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"fallbacks\":%llu,\"solver_s\":%.3f,\"longest_query_s\":%.3f,\"wall_s\":%.3f,\"variables\":%zu,",
    (unsigned long long)SS->queries, (unsigned long long)SS->sat, (unsigned long long)SS->unsat, (unsigned long long)SS->unknown, (unsigned long long)SS->fallbacks, SS->seconds, SS->longest, elapsed(), P.vars.size());
  fprintf(f, "\"inconclusive\":{");
  { bool first = true; for (auto &x : inconclusive) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second); first = false; } }
  fprintf(f, "},\"violations\":[");
  { bool first = true; for (auto &v : viols) { fprintf(f, "%s{\"kind\":%s,\"label\":%s,\"where\":%s,\"inputs\":%s}", first ? "" : ",", jstr(v.kind).c_str(), jstr(v.label).c_str(), jstr(v.where).c_str(), jinputs(v.inputs).c_str()); first = false; } }
  fprintf(f, "],\"labels\":{");
  { bool first = true; for (auto &x : checkLabels) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second); first = false; } }
  fprintf(f, "},\"covers\":{");
  { bool first = true; for (auto &x : coverLabels) { fprintf(f, "%s%s:{\"count\":%llu,\"inputs\":%s}", first ? "" : ",", jstr(x.first).c_str(), (unsigned long long)x.second, jinputs(coverWit[x.first]).c_str()); first = false; } }
  fprintf(f, "},\"samples\":[");
  { bool first = true; for (auto &s : samples) { fprintf(f, "%s{\"inputs\":%s,\"observed\":[", first ? "" : ",", jinputs(s.inputs).c_str()); for (size_t i = 0; i < s.observed.size(); ++i) fprintf(f, "%s\"%llu\"", i ? "," : "", (unsigned long long)s.observed[i]); fprintf(f, "]}"); first = false; } }
  fprintf(f, "],\"lines\":{");
  std::map<std::string, std::set<unsigned>> lines; std::map<std::string, std::set<std::string>> fns;
  for (auto &df : dfuncs) for (auto &d : df.second->code) if (d.hit && d.I)
    for (const DILocation *L = d.I->getDebugLoc().get(); L; L = L->getInlinedAt()) {
      std::string fn = L->getFilename().str();
      size_t p = fn.find("libcommute/");
      if (p == std::string::npos || fn.find("/harness/") != std::string::npos) continue;
      fn = fn.substr(fn.rfind("libcommute/include/") != std::string::npos ? p : p);
      if (L->getLine()) lines[fn].insert(L->getLine());
      if (auto *sp = L->getScope()->getSubprogram()) fns[fn].insert(sp->getName().str());
    }
  { bool first = true; for (auto &x : lines) { fprintf(f, "%s%s:[", first ? "" : ",", jstr(x.first).c_str()); bool g = true; for (unsigned l : x.second) { fprintf(f, "%s%u", g ? "" : ",", l); g = false; } fprintf(f, "]"); first = false; } }
  fprintf(f, "},\"functions\":{");
  { bool first = true; for (auto &x : fns) { fprintf(f, "%s%s:[", first ? "" : ",", jstr(x.first).c_str()); bool g = true; for (auto &l : x.second) { fprintf(f, "%s%s", g ? "" : ",", jstr(l).c_str()); g = false; } fprintf(f, "]"); first = false; } }
  fprintf(f, "}}\n");
  if (f != stdout) fclose(f);
}

static std::string g_bc;
static void *mainThread(void *) {
  T0 = std::chrono::steady_clock::now();
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> mod = parseIRFile(g_bc, err, ctx);
  if (!mod) { err.print("symir", errs()); _exit(3); }
  M = mod.get(); DL = &M->getDataLayout();
  if (Function *R = M->getFunction("sym_to_xstring")) // variadic std::to_string(double) helper of libstdc++
    for (auto &F : *M)
      if (F.isVarArg() && F.getName().contains("__to_xstring")) {
        for (User *U : make_early_inc_range(F.users()))
          if (auto *CB = dyn_cast<CallBase>(U)) if (CB->getCalledFunction() == &F && CB->arg_size() == 5 && CB->getArgOperand(4)->getType()->isDoubleTy()) CB->setCalledFunction(R);
      }
  PP = new ExprPool(); SS = new Solver(*PP);
  initHandlers();
  g_rng = g_seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL;
  State *st = new State();
  st->model = std::make_shared<Model>(); st->model->id = ++g_modelid;
  for (auto &F : *M) { u32 id = st->mem.alloc(16, KFunc, 0); gaddr[&F] = (u64)id << 32; funcById[id] = &F; }
  for (auto &G : M->globals()) {
    u64 sz = G.isDeclaration() ? std::max<u64>(256, DL->getTypeAllocSize(G.getValueType())) : DL->getTypeAllocSize(G.getValueType());
    u32 id = st->mem.alloc(sz, KGlobal, 0);
    gaddr[&G] = (u64)id << 32;
    std::string n = G.getName().str();
    if (n.rfind("_ZTVN10__cxxabiv1", 0) == 0) specialGlobals[(u64)id << 32] = n;
    if (n == "__libc_single_threaded") st->mem.getw(id)->data[0] = 1;
  }
  for (auto &A : M->aliases()) if (auto *go = dyn_cast_or_null<GlobalValue>(A.getAliaseeObject())) gaddr[&A] = gaddr[go];
  for (auto &G : M->globals()) if (G.hasInitializer()) writeInit(*st, gaddr[&G], G.getInitializer());
  for (auto &G : M->globals()) if (G.isConstant() && !G.isDeclaration()) st->mem.getw(gaddr[&G] >> 32)->kind = KConst;
  // global constructors
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<u64, Function *>> cs;
    for (auto &op : ca->operands()) { auto *s = cast<ConstantStruct>(op); cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), cast<Function>(s->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) stages.push_back(c.second);
  }
  Function *entry = M->getFunction(g_entry);
  if (!entry || entry->isDeclaration()) { fprintf(stderr, "symir: no entry %s\n", g_entry.c_str()); _exit(3); }
  stages.push_back(entry);
  pushFrame(*st, decode(stages[0]));
  work.push_back(st);
  while (!work.empty()) {
    State *s = work.back();
    work.pop_back();
    run(s);
    delete s;
    if ((int)viols.size() >= g_maxviol) break;
    if (elapsed() > g_time) { if (!work.empty()) inconclusive["time limit reached"]++; break; }
    if (!inconclusive.empty() && inconclusive.begin()->second > 2000) break;
  }
  report();
  fflush(nullptr);
  _exit(viols.empty() ? (inconclusive.empty() ? 0 : 2) : 1);
}

int main(int argc, char **argv) {
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") g_entry = nx();
    else if (a == "--param") g_params.push_back(atoll(argv[++i]));
    else if (a == "--time") g_time = atof(argv[++i]);
    else if (a == "--seed") g_seed = atoll(argv[++i]);
    else if (a == "--out") g_out = nx();
    else if (a == "--max-violations") g_maxviol = atoi(argv[++i]);
    else if (a == "--max-steps") g_maxsteps = atoll(argv[++i]);
    else if (a == "--samples") g_samples = atoi(argv[++i]);
    else if (a == "-v") g_verbose = true;
    else g_bc = a;
  }
  pthread_t t; pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 2ULL << 30);
  pthread_create(&t, &at, mainThread, nullptr);
  pthread_join(t, nullptr);
  return 3;
}
