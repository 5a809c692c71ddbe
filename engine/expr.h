// Hash-consed bit-vector expression DAG with simplification.
#pragma once
#include <algorithm>
#include <bit>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t s64;
typedef unsigned __int128 u128;
typedef __int128 s128;

enum Op : u8 {
  OConst, OVar,
  OAdd, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle,
  OIte, OConcat, OExtract, OZExt, OSExt,
  OPar, // parity of k[0] & c (width 1)
  // floating point (operands are bit patterns); aux holds predicate / rounding op
  OFAdd, OFSub, OFMul, OFDiv, OFCmp, OFConvS, OFConvU, OFToS, OFToU, OFExt, OFTrunc, OFUn
};

struct Expr {
  Op op;
  u8 dist;        // 1: ITE tree whose leaves are all constants
  u8 hasfp;       // contains FP operation nodes
  u32 width;
  u32 id;
  u32 aux;        // Extract: low bit; Var: index; FCmp: predicate; FUn: function
  u32 leaves;     // number of leaves of ITE tree
  u128 c;         // constant
  const Expr *k[3];
  u64 umin, umax; // valid for width <= 64
  u64 kz;         // known-zero bits (within width; bits above width are set)
};
typedef const Expr *E;

static inline u128 mask128(u32 w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(u32 w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline s64 sx(u64 v, u32 w) { return w >= 64 ? (s64)v : ((s64)(v << (64 - w)) >> (64 - w)); }
static inline s128 sx128(u128 v, u32 w) { return w >= 128 ? (s128)v : ((s128)(v << (128 - w)) >> (128 - w)); }

struct Key {
  Op op; u32 width, aux; u128 c; E a, b, d;
  bool operator==(Key const &o) const {
    return op == o.op && width == o.width && aux == o.aux && c == o.c && a == o.a && b == o.b && d == o.d;
  }
};
struct KeyHash {
  size_t operator()(Key const &k) const {
    u64 h = k.op * 0x9E3779B97F4A7C15ULL + k.width * 0x517CC1B727220A95ULL + k.aux;
    auto mix = [&](u64 v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
    mix((u64)k.c); mix((u64)(k.c >> 64));
    mix((u64)k.a); mix((u64)k.b); mix((u64)k.d);
    return h;
  }
};

struct VarInfo { std::string name; u32 width; u64 umax; };

// polynomial normal form: sum of coef * prod(atoms); atoms sorted by id
struct PolyTerm { std::vector<E> atoms; u64 coef; };
typedef std::vector<PolyTerm> Poly;

struct ExprPool {
  std::unordered_map<Key, Expr *, KeyHash> tab;
  std::vector<E> all;
  std::vector<VarInfo> vars;
  std::vector<E> varExpr;
  std::unordered_map<u32, std::shared_ptr<Poly>> polys;
  E T, F;

  ExprPool() { tab.reserve(1 << 16); T = konst(1, 1); F = konst(0, 1); }

  E mk(Op op, u32 w, u32 aux, u128 c, E a, E b, E d) {
    Key k{op, w, aux, c, a, b, d};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Expr *e = new Expr();
    e->op = op; e->width = w; e->aux = aux; e->c = c; e->k[0] = a; e->k[1] = b; e->k[2] = d;
    e->id = all.size();
    e->dist = 0; e->leaves = 1; e->hasfp = op >= OFAdd;
    for (E x : {a, b, d}) if (x && x->hasfp) e->hasfp = 1;
    if (op == OConst) { e->dist = 1; }
    if (op == OIte && b->dist && d->dist) { e->dist = 1; u64 l = (u64)b->leaves + d->leaves; e->leaves = l > 1000000 ? 1000000 : l; }
    ranges(e);
    all.push_back(e);
    tab.emplace(k, e);
    return e;
  }
  void ranges(Expr *e) {
    u32 w = e->width;
    if (w > 64) { e->umin = 0; e->umax = ~0ULL; e->kz = 0; return; }
    u64 m = mask64(w);
    e->umin = 0; e->umax = m; e->kz = ~m;
    E a = e->k[0], b = e->k[1], d = e->k[2];
    switch (e->op) {
    case OConst: e->umin = e->umax = (u64)e->c; e->kz = ~(u64)e->c; break;
    case OVar: e->umax = vars[e->aux].umax; break;
    case OAdd: {
      u128 hi = (u128)a->umax + b->umax;
      if (hi <= m) { e->umax = (u64)hi; e->umin = a->umin + b->umin; }
      // common trailing zeros
      u64 tz = std::min(std::countr_one(a->kz), std::countr_one(b->kz));
      if (tz < 64) e->kz |= (1ULL << tz) - 1; else e->kz = ~0ULL;
      break; }
    case OMul: {
      u128 hi = (u128)a->umax * b->umax;
      if (hi <= m) { e->umax = (u64)hi; e->umin = a->umin * b->umin; }
      u64 tz = std::countr_one(a->kz) + std::countr_one(b->kz);
      if (tz >= w) e->kz = ~0ULL; else e->kz |= (1ULL << tz) - 1;
      break; }
    case OUDiv: if (b->umin > 0) { e->umax = a->umax / b->umin; e->umin = b->umax ? a->umin / b->umax : 0; } break;
    case OURem: if (b->umin > 0) e->umax = std::min(a->umax, b->umax - 1); break;
    case OAnd: e->umax = std::min(a->umax, b->umax); e->kz |= a->kz | b->kz; break;
    case OOr: e->kz = a->kz & b->kz; e->umin = std::max(a->umin, b->umin); break;
    case OXor: e->kz = a->kz & b->kz; break;
    case OShl: if (b->op == OConst && (u64)b->c < w) {
        u64 s = (u64)b->c;
        e->kz |= ((a->kz << s) | ((1ULL << s) - 1)) & m;
        if (a->umax <= (m >> s)) { e->umax = a->umax << s; e->umin = a->umin << s; }
      } break;
    case OLShr: if (b->op == OConst && (u64)b->c < w) {
        u64 s = (u64)b->c;
        e->umax = a->umax >> s; e->umin = a->umin >> s; e->kz |= ~((~a->kz & m) >> s);
      } else e->umax = a->umax;
      break;
    case OIte: e->umin = std::min(b->umin, d->umin); e->umax = std::max(b->umax, d->umax); e->kz |= b->kz & d->kz; break;
    case OConcat: {
      if (b->width < 64) {
        e->kz = (a->kz << b->width) | (b->kz & mask64(b->width)); e->kz |= ~m;
        e->umax = (a->umax << b->width) | b->umax; e->umin = (a->umin << b->width) | b->umin;
      } break; }
    case OExtract: if (a->width <= 64) {
        e->kz |= ~((~a->kz >> e->aux) & m);
        if (a->umax >> e->aux <= m) { e->umax = a->umax >> e->aux; if (e->aux == 0) e->umin = a->umin; }
      } break;
    case OZExt: e->umin = a->umin; e->umax = a->umax; e->kz = a->kz | ~mask64(a->width); break;
    case OSExt: if (a->umax <= mask64(a->width) >> 1) { e->umin = a->umin; e->umax = a->umax; e->kz = a->kz | ~mask64(a->width); } break;
    default: break;
    }
    // combine
    u64 bykz = ~e->kz & m;
    if (bykz < e->umax) e->umax = bykz;
    if (e->umin > e->umax) e->umin = 0;
    u32 hb = 64 - std::countl_zero(e->umax); // bits above hb are zero
    if (hb < 64) e->kz |= ~((1ULL << hb) - 1);
  }

  E konst(u128 v, u32 w) { return mk(OConst, w, 0, v & mask128(w), nullptr, nullptr, nullptr); }
  std::map<std::string, E> varByKey;
  // occ: how many inputs of that name the path has already read (paths share variables)
  E var(std::string const &name, u32 w, u64 umax, u32 occ) {
    std::string key = name + "|" + std::to_string(w) + "|" + std::to_string(umax) + "|" + std::to_string(occ);
    auto it = varByKey.find(key);
    if (it != varByKey.end()) return it->second;
    u32 idx = vars.size();
    vars.push_back({name, w, umax});
    E e = mk(OVar, w, idx, 0, nullptr, nullptr, nullptr);
    varExpr.push_back(e);
    return varByKey[key] = e;
  }
  static bool isC(E e) { return e->op == OConst; }

  // ---------------------------------------------------------------- boolean
  E bnot(E a) {
    if (isC(a)) return a == T ? F : T;
    if (a->op == OXor && a->k[1] == T) return a->k[0];
    if (a->op == OUlt) return ule(a->k[1], a->k[0]);
    if (a->op == OUle) return ult(a->k[1], a->k[0]);
    if (a->op == OSlt) return sle(a->k[1], a->k[0]);
    if (a->op == OSle) return slt(a->k[1], a->k[0]);
    if (a->op == OIte && a->dist) return ite(a->k[0], bnot(a->k[1]), bnot(a->k[2]));
    return mk(OXor, 1, 0, 0, a, T, nullptr);
  }
  static bool isNotOf(E a, E b) {
    return (a->op == OXor && a->width == 1 && a->k[1]->op == OConst && a->k[0] == b) ||
           (b->op == OXor && b->width == 1 && b->k[1]->op == OConst && b->k[0] == a) ||
           (a->op == OUlt && b->op == OUle && a->k[0] == b->k[1] && a->k[1] == b->k[0]) ||
           (a->op == OUle && b->op == OUlt && a->k[0] == b->k[1] && a->k[1] == b->k[0]) ||
           (a->op == OSlt && b->op == OSle && a->k[0] == b->k[1] && a->k[1] == b->k[0]) ||
           (a->op == OSle && b->op == OSlt && a->k[0] == b->k[1] && a->k[1] == b->k[0]);
  }

  // ---------------------------------------------------------------- trees
  static constexpr u32 INT_LEAVES = 64, FP_LEAVES = 4096;
  std::unordered_map<u64, E> dummy;
  typedef std::function<E(E)> F1;
  typedef std::function<E(E, E)> F2;
  E mapTree(E t, F1 const &f) {
    std::unordered_map<E, E> memo;
    std::function<E(E)> rec = [&](E x) -> E {
      auto it = memo.find(x);
      if (it != memo.end()) return it->second;
      E r = (x->op == OIte) ? ite(x->k[0], rec(x->k[1]), rec(x->k[2])) : f(x);
      memo[x] = r;
      return r;
    };
    return rec(t);
  }
  struct PairHash { size_t operator()(std::pair<E, E> const &p) const { return ((size_t)p.first->id << 32) ^ p.second->id; } };
  E mapTree2(E a, E b, F2 const &f) {
    std::unordered_map<std::pair<E, E>, E, PairHash> memo;
    std::function<E(E, E)> rec = [&](E x, E y) -> E {
      if (x->op != OIte && y->op != OIte) return f(x, y);
      auto key = std::make_pair(x, y);
      auto it = memo.find(key);
      if (it != memo.end()) return it->second;
      E c;
      if (x->op == OIte && y->op == OIte) c = x->k[0]->id <= y->k[0]->id ? x->k[0] : y->k[0];
      else c = x->op == OIte ? x->k[0] : y->k[0];
      E x1 = x, x0 = x, y1 = y, y0 = y;
      if (x->op == OIte && x->k[0] == c) { x1 = x->k[1]; x0 = x->k[2]; }
      if (y->op == OIte && y->k[0] == c) { y1 = y->k[1]; y0 = y->k[2]; }
      E r = ite(c, rec(x1, y1), rec(x0, y0));
      memo[key] = r;
      return r;
    };
    return rec(a, b);
  }
  // should an int op distribute over trees?
  static bool distOK(E a, E b) {
    if (!(a->dist && b->dist)) return false;
    if (a->op != OIte && b->op != OIte) return false;
    return (u64)a->leaves * b->leaves <= INT_LEAVES || (a->leaves + b->leaves <= INT_LEAVES && a->op == OIte && b->op == OIte && a->k[0] == b->k[0]);
  }

  // ---------------------------------------------------------------- ite
  E ite(E c, E t, E f) {
    if (c == T) return t;
    if (c == F) return f;
    if (t == f) return t;
    if (c->op == OXor && c->k[1] == T) return ite(c->k[0], f, t);
    if (c->op == OUle) return ite(mkUlt(c->k[1], c->k[0]), f, t);
    if (c->op == OSle) return ite(mkSlt(c->k[1], c->k[0]), f, t);
    if (t->width == 1) {
      if (t == T && f == F) return c;
      if (t == F && f == T) return bnot(c);
      if (t == T) return bor(c, f);
      if (f == F) return band(c, t);
      if (t == F) return band(bnot(c), f);
      if (f == T) return bor(bnot(c), t);
    }
    if (t->op == OIte && t->k[0] == c) t = t->k[1];
    if (f->op == OIte && f->k[0] == c) f = f->k[2];
    if (t == f) return t;
    // ite(c, ite(d,x,y), y) -> ite(c&d, x, y) keeps leaf sharing
    return mk(OIte, t->width, 0, 0, c, t, f);
  }

  // ---------------------------------------------------------------- polynomial form
  static constexpr size_t MAXTERMS = 48, MAXDEG = 8;
  Poly getPoly(E e) {
    if (isC(e)) { Poly p; if ((u64)e->c) p.push_back({{}, (u64)e->c}); return p; }
    if (e->op == OAdd || e->op == OMul) {
      auto it = polys.find(e->id);
      if (it != polys.end()) return *it->second;
    }
    return Poly{{{e}, 1}};
  }
  static bool atomsLess(std::vector<E> const &a, std::vector<E> const &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return a[i]->id < b[i]->id;
    return false;
  }
  Poly polyNorm(Poly p, u64 m) {
    std::sort(p.begin(), p.end(), [](PolyTerm const &x, PolyTerm const &y) { return atomsLess(x.atoms, y.atoms); });
    Poly r;
    for (auto &t : p) {
      if (!r.empty() && r.back().atoms == t.atoms) r.back().coef += t.coef; else { if (!r.empty() && !(r.back().coef & m)) r.pop_back(); r.push_back(t); }
    }
    if (!r.empty() && !(r.back().coef & m)) r.pop_back();
    for (auto &t : r) t.coef &= m;
    return r;
  }
  E fromPoly(Poly const &p, u32 w) {
    if (p.empty()) return konst(0, w);
    E sum = nullptr;
    Poly acc;
    // constant term last so that "x + c" shapes appear as Add(x, c)
    auto mkterm = [&](PolyTerm const &t) -> E {
      E r = nullptr; Poly pp{{{}, 1}};
      for (E a : t.atoms) {
        if (!r) { r = a; pp[0].atoms.push_back(a); continue; }
        r = mk(OMul, w, 0, 0, r, a, nullptr);
        pp[0].atoms.push_back(a);
        polys.emplace(r->id, std::make_shared<Poly>(pp));
      }
      if (!r) return konst(t.coef, w);
      if (t.coef != 1) {
        r = mk(OMul, w, 0, 0, r, konst(t.coef, w), nullptr);
        pp[0].coef = t.coef;
        polys.emplace(r->id, std::make_shared<Poly>(pp));
      }
      return r;
    };
    for (auto const &t : p) {
      if (t.atoms.empty()) continue;
      E e = mkterm(t);
      acc.push_back(t);
      if (!sum) sum = e;
      else { sum = mk(OAdd, w, 0, 0, sum, e, nullptr); polys.emplace(sum->id, std::make_shared<Poly>(acc)); }
    }
    if (p[0].atoms.empty()) {
      E e = konst(p[0].coef, w);
      if (!sum) return e;
      Poly full = p;
      sum = mk(OAdd, w, 0, 0, sum, e, nullptr);
      polys.emplace(sum->id, std::make_shared<Poly>(full));
    }
    return sum;
  }
  E add(E a, E b) {
    u32 w = a->width;
    if (isC(a) && isC(b)) return konst(a->c + b->c, w);
    if (isC(a) && a->c == 0) return b;
    if (isC(b) && b->c == 0) return a;
    if (w == 1) return bxor(a, b);
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return add(x, y); });
    if (w > 64) { if (a->id > b->id) std::swap(a, b); return mk(OAdd, w, 0, 0, a, b, nullptr); }
    // disjoint bits: keep as add (poly)
    Poly p = getPoly(a), q = getPoly(b);
    if (p.size() + q.size() > MAXTERMS) { if (a->id > b->id) std::swap(a, b); return mk(OAdd, w, 0, 0, a, b, nullptr); }
    p.insert(p.end(), q.begin(), q.end());
    return fromPoly(polyNorm(p, mask64(w)), w);
  }
  E neg(E a) { return mul(a, konst(~(u128)0, a->width)); }
  E sub(E a, E b) {
    if (a == b) return konst(0, a->width);
    if (isC(b)) return add(a, konst(-b->c, a->width));
    return add(a, neg(b));
  }
  E mul(E a, E b) {
    u32 w = a->width;
    if (isC(a) && isC(b)) return konst(a->c * b->c, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; }
    if (w == 1) return band(a, b);
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return mul(x, y); });
    if (w > 64) { return mk(OMul, w, 0, 0, a, b, nullptr); }
    Poly p = getPoly(a), q = getPoly(b);
    size_t da = 0, db = 0;
    for (auto &t : p) da = std::max(da, t.atoms.size());
    for (auto &t : q) db = std::max(db, t.atoms.size());
    if (p.size() * q.size() > MAXTERMS || da + db > MAXDEG) { if (a->id > b->id) std::swap(a, b); return mk(OMul, w, 0, 0, a, b, nullptr); }
    Poly r;
    for (auto &t : p) for (auto &s : q) {
      PolyTerm x; x.coef = t.coef * s.coef; x.atoms = t.atoms; x.atoms.insert(x.atoms.end(), s.atoms.begin(), s.atoms.end());
      std::sort(x.atoms.begin(), x.atoms.end(), [](E u, E v) { return u->id < v->id; });
      r.push_back(x);
    }
    return fromPoly(polyNorm(r, mask64(w)), w);
  }
  // ---------------------------------------------------------------- division etc.
  static u128 foldDiv(Op op, u128 a, u128 b, u32 w) {
    u128 m = mask128(w);
    switch (op) {
    case OUDiv: return b ? a / b : m;
    case OURem: return b ? a % b : a;
    case OSDiv: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u128)(-(u128)x) & m; return (u128)(x / y) & m; }
    case OSRem: { s128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    default: abort();
    }
  }
  E div(Op op, E a, E b) {
    u32 w = a->width;
    if (isC(a) && isC(b)) return konst(foldDiv(op, a->c, b->c, w), w);
    if (isC(b)) {
      if (b->c == 1) return (op == OUDiv || op == OSDiv) ? a : konst(0, w);
      if (w <= 64 && b->c && !((u64)b->c & ((u64)b->c - 1))) {
        u32 s = std::countr_zero((u64)b->c);
        if (op == OUDiv) return lshr(a, konst(s, w));
        if (op == OURem) return band(a, konst(b->c - 1, w));
      }
      if (w <= 64 && (op == OURem) && a->umax < (u64)b->c) return a;
      if (w <= 64 && (op == OUDiv) && a->umax < (u64)b->c) return konst(0, w);
    }
    if (w <= 64 && (op == OSDiv || op == OSRem) && a->umax <= (mask64(w) >> 1) && b->umax <= (mask64(w) >> 1))
      return div(op == OSDiv ? OUDiv : OURem, a, b);
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return div(op, x, y); });
    return mk(op, w, 0, 0, a, b, nullptr);
  }
  // ---------------------------------------------------------------- bitwise
  E band(E a, E b) {
    u32 w = a->width;
    if (isC(a) && isC(b)) return konst(a->c & b->c, w);
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == mask128(w)) return a;
      if (w <= 64) {
        u64 m = (u64)b->c;
        if ((~a->kz & ~m & mask64(w)) == 0) return a; // mask clears nothing that can be set
        if ((~a->kz & m) == 0) return konst(0, w);
        if (a->op == OAnd && isC(a->k[1])) return band(a->k[0], konst(a->k[1]->c & b->c, w));
        // low mask -> zext(extract)
        if ((m & (m + 1)) == 0) { u32 n = std::countr_one(m); return zext(extract(a, 0, n), w); }
      }
    }
    if (w <= 64 && (a->kz | b->kz) == ~0ULL) return konst(0, w);
    if (w == 1) {
      if (isNotOf(a, b)) return F;
      if (a->op == OAnd && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == OAnd && (b->k[0] == a || b->k[1] == a)) return b;
      if (a->op == OAnd && (isNotOf(a->k[0], b) || isNotOf(a->k[1], b))) return F;
      if (b->op == OAnd && (isNotOf(b->k[0], a) || isNotOf(b->k[1], a))) return F;
      if (a->op == OOr && (a->k[0] == b || a->k[1] == b)) return b;
      if (b->op == OOr && (b->k[0] == a || b->k[1] == a)) return a;
      if (a->op == OEq && b->op == OEq) { // x==c1 & x==c2
        if (a->k[0] == b->k[0] && isC(a->k[1]) && isC(b->k[1]) && a->k[1] != b->k[1]) return F;
      }
    }
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return band(x, y); });
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(OAnd, w, 0, 0, a, b, nullptr);
  }
  E bor(E a, E b) {
    u32 w = a->width;
    if (isC(a) && isC(b)) return konst(a->c | b->c, w);
    if (a == b) return a;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) { if (b->c == 0) return a; if (b->c == mask128(w)) return b; }
    if (w == 1) {
      if (isNotOf(a, b)) return T;
      if (a->op == OOr && (a->k[0] == b || a->k[1] == b)) return a;
      if (b->op == OOr && (b->k[0] == a || b->k[1] == a)) return b;
      if (a->op == OAnd && (a->k[0] == b || a->k[1] == b)) return b;
      if (b->op == OAnd && (b->k[0] == a || b->k[1] == a)) return a;
      if (a->op == OOr && (isNotOf(a->k[0], b) || isNotOf(a->k[1], b))) return T;
      if (b->op == OOr && (isNotOf(b->k[0], a) || isNotOf(b->k[1], a))) return T;
    }
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return bor(x, y); });
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(OOr, w, 0, 0, a, b, nullptr);
  }
  E bxor(E a, E b) {
    u32 w = a->width;
    if (isC(a) && isC(b)) return konst(a->c ^ b->c, w);
    if (a == b) return konst(0, w);
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
      if (b->c == 0) return a;
      if (w == 1) return bnot(a);
      if (a->op == OXor && isC(a->k[1])) return bxor(a->k[0], konst(a->k[1]->c ^ b->c, w));
    } else {
      if (a->op == OXor && a->k[0] == b) return a->k[1];
      if (a->op == OXor && a->k[1] == b) return a->k[0];
      if (b->op == OXor && b->k[0] == a) return b->k[1];
      if (b->op == OXor && b->k[1] == a) return b->k[0];
      if (w == 1) {
        if (isNotOf(a, b)) return T;
        if (hasPar(a) || hasPar(b)) { Lin l; parInto(a, 1, l); parInto(b, 1, l); return fromLin(l); }
        // pull nots out
        if (a->op == OXor && a->k[1] == T) return bnot(bxor(a->k[0], b));
        if (b->op == OXor && b->k[1] == T) return bnot(bxor(a, b->k[0]));
      }
    }
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return bxor(x, y); });
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(OXor, w, 0, 0, a, b, nullptr);
  }
  E shl(E a, E b) {
    u32 w = a->width;
    if (isC(b)) {
      if (b->c >= w) return konst(0, w);
      if (isC(a)) return konst(a->c << (u32)b->c, w);
      if (b->c == 0) return a;
      if (w <= 64) return mul(a, konst((u128)1 << (u32)b->c, w));
    }
    if (isC(a) && a->c == 0) return a;
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return shl(x, y); });
    return mk(OShl, w, 0, 0, a, b, nullptr);
  }
  E lshr(E a, E b) {
    u32 w = a->width;
    if (isC(b)) {
      if (b->c >= w) return konst(0, w);
      if (isC(a)) return konst(a->c >> (u32)b->c, w);
      if (b->c == 0) return a;
      u32 s = (u32)b->c;
      return zext(extract(a, s, w - s), w);
    }
    if (isC(a) && a->c == 0) return a;
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return lshr(x, y); });
    return mk(OLShr, w, 0, 0, a, b, nullptr);
  }
  E ashr(E a, E b) {
    u32 w = a->width;
    if (isC(b)) {
      u32 s = b->c >= w ? w - 1 : (u32)b->c;
      if (isC(a)) return konst((u128)(sx128(a->c, w) >> s), w);
      if (s == 0) return a;
      return sext(extract(a, s, w - s), w);
    }
    if (w <= 64 && a->umax <= mask64(w) >> 1) return lshr(a, b);
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return ashr(x, y); });
    return mk(OAShr, w, 0, 0, a, b, nullptr);
  }
  // ---------------------------------------------------------------- linear forms over GF(2)
  struct Lin { std::map<u32, std::pair<E, u64>> t; bool c = false; bool par = false; };
  std::unordered_map<u32, E> popSrc; // popcount expression -> its argument
  void parInto(E e, u64 m, Lin &r, int depth = 0) { // r ^= parity(e & m)
    u32 w = e->width;
    m &= mask64(w);
    if (w <= 64) m &= ~e->kz;
    if (!m) return;
    if (depth < 200) switch (e->op) {
    case OConst: r.c ^= std::popcount((u64)e->c & m) & 1; return;
    case OPar: r.par = true; parInto(e->k[0], (u64)e->c, r, depth + 1); return;
    case OAnd: if (isC(e->k[1])) { parInto(e->k[0], m & (u64)e->k[1]->c, r, depth + 1); return; } break;
    case OXor: parInto(e->k[0], m, r, depth + 1); parInto(e->k[1], m, r, depth + 1); return;
    case OOr:
      if (isC(e->k[1])) { u64 K = (u64)e->k[1]->c; r.c ^= std::popcount(K & m) & 1; parInto(e->k[0], m & ~K, r, depth + 1); return; }
      if (w <= 64 && (~e->k[0]->kz & ~e->k[1]->kz & m) == 0) { parInto(e->k[0], m, r, depth + 1); parInto(e->k[1], m, r, depth + 1); return; }
      break;
    case OAdd: if (w <= 64 && (~e->k[0]->kz & ~e->k[1]->kz & mask64(w)) == 0) { parInto(e->k[0], m, r, depth + 1); parInto(e->k[1], m, r, depth + 1); return; } break;
    case OMul: if (w <= 64 && isC(e->k[1]) && std::has_single_bit((u64)e->k[1]->c)) { parInto(e->k[0], m >> std::countr_zero((u64)e->k[1]->c), r, depth + 1); return; } break;
    case OShl: if (w <= 64 && isC(e->k[1]) && e->k[1]->c < w) { parInto(e->k[0], m >> (u32)e->k[1]->c, r, depth + 1); return; } break;
    case OLShr: if (w <= 64 && isC(e->k[1]) && e->k[1]->c < w) { parInto(e->k[0], m << (u32)e->k[1]->c, r, depth + 1); return; } break;
    case OZExt: parInto(e->k[0], m, r, depth + 1); return;
    case OExtract: if (e->k[0]->width <= 64) { parInto(e->k[0], m << e->aux, r, depth + 1); return; } break;
    case OConcat: if (w <= 64) { u32 bw = e->k[1]->width; parInto(e->k[1], m & mask64(bw), r, depth + 1); parInto(e->k[0], m >> bw, r, depth + 1); return; } break;
    default: break;
    }
    if (w > 64) { // atoms have at most 64 bits
      while (m) { u32 b = std::countr_zero(m); m &= m - 1; E x = mk(OExtract, 1, b, 0, e, nullptr, nullptr); auto &q = r.t[x->id]; q.first = x; q.second ^= 1; if (!q.second) r.t.erase(x->id); }
      return;
    }
    auto &q = r.t[e->id];
    q.first = e; q.second ^= m;
    if (!q.second) r.t.erase(e->id);
  }
  E fromLin(Lin const &l) {
    E r = nullptr;
    for (auto &x : l.t) {
      E a = x.second.first; u64 m = x.second.second;
      E p;
      if (a->width == 1) p = a;
      else if (std::has_single_bit(m)) p = mk(OExtract, 1, std::countr_zero(m), 0, a, nullptr, nullptr);
      else p = mk(OPar, 1, 0, m, a, nullptr, nullptr);
      r = r ? mk(OXor, 1, 0, 0, r, p, nullptr) : p;
    }
    if (!r) return l.c ? T : F;
    return l.c ? bnot(r) : r;
  }
  static bool hasPar(E e, int depth = 0) {
    if (e->width != 1 || depth > 100) return false;
    if (e->op == OPar) return true;
    return e->op == OXor && (hasPar(e->k[0], depth + 1) || hasPar(e->k[1], depth + 1));
  }
  E parity(E x) { Lin l; parInto(x, ~0ULL, l); return fromLin(l); }
  // ---------------------------------------------------------------- width changes
  E extract(E a, u32 lo, u32 w) {
    if (lo == 0 && w == a->width) return a;
    if (isC(a)) return konst(a->c >> lo, w);
    if (lo == 0 && w == 1) { auto it = popSrc.find(a->id); if (it != popSrc.end()) return parity(it->second); }
    switch (a->op) {
    case OExtract: return extract(a->k[0], a->aux + lo, w);
    case OConcat: {
      u32 bw = a->k[1]->width;
      if (lo + w <= bw) return extract(a->k[1], lo, w);
      if (lo >= bw) return extract(a->k[0], lo - bw, w);
      return concat(extract(a->k[0], 0, lo + w - bw), extract(a->k[1], lo, bw - lo));
    }
    case OZExt: {
      u32 iw = a->k[0]->width;
      if (lo + w <= iw) return extract(a->k[0], lo, w);
      if (lo >= iw) return konst(0, w);
      return zext(extract(a->k[0], lo, iw - lo), w);
    }
    case OSExt: {
      u32 iw = a->k[0]->width;
      if (lo + w <= iw) return extract(a->k[0], lo, w);
      if (lo < iw) return sext(extract(a->k[0], lo, iw - lo), w);
      return sext(extract(a->k[0], iw - 1, 1), w);
    }
    case OAnd: if (w <= 64 && isC(a->k[1])) return band(extract(a->k[0], lo, w), extract(a->k[1], lo, w)); break;
    case OOr: if (isC(a->k[1])) return bor(extract(a->k[0], lo, w), extract(a->k[1], lo, w)); break;
    case OXor: if (isC(a->k[1])) return bxor(extract(a->k[0], lo, w), extract(a->k[1], lo, w)); break;
    case OAdd: case OMul:
      if (a->op == OAdd && a->width <= 64 && ((~a->k[0]->kz & ~a->k[1]->kz) & mask64(a->width)) == 0) return bor(extract(a->k[0], lo, w), extract(a->k[1], lo, w));
      if (a->op == OMul && a->width <= 64) {
        int ci = isC(a->k[1]) ? 1 : isC(a->k[0]) ? 0 : -1;
        u64 cv = ci < 0 ? 0 : (u64)a->k[ci]->c;
        if (cv && (cv & (cv - 1)) == 0) {
          u32 sft = std::countr_zero(cv);
          if (lo + w <= sft) return konst(0, w);
          if (lo >= sft) return extract(a->k[1 - ci], lo - sft, w);
          return concat(extract(a->k[1 - ci], 0, lo + w - sft), konst(0, sft - lo));
        }
      }
      if (lo == 0 && w > 1 && a->width <= 64) {
        auto it = polys.find(a->id);
        if (it != polys.end() && it->second->size() <= 6) {
          E x = extract(a->k[0], 0, w), y = extract(a->k[1], 0, w);
          return a->op == OAdd ? add(x, y) : mul(x, y);
        }
      }
      break;
    case OIte:
      if (a->dist && a->leaves <= FP_LEAVES) return mapTree(a, [&](E x) { return extract(x, lo, w); });
      break;
    default: break;
    }
    if (a->width <= 64 && (a->umax >> lo) == 0) return konst(0, w);
    if (a->width <= 64 && a->op != OVar) {
      // bits known zero
      if (((~a->kz) >> lo & mask64(w)) == 0) return konst(0, w);
    }
    return mk(OExtract, w, lo, 0, a, nullptr, nullptr);
  }
  E zext(E a, u32 w) {
    if (w == a->width) return a;
    if (isC(a)) return konst(a->c, w);
    if (a->op == OZExt) return zext(a->k[0], w);
    if (a->op == OIte && a->dist && a->leaves <= FP_LEAVES) return mapTree(a, [&](E x) { return zext(x, w); });
    // zext(extract(x,0,n)) where x has zero bits above n and same width
    if (a->op == OExtract && a->aux == 0 && a->k[0]->width <= 64) {
      E x = a->k[0];
      if (x->umax <= mask64(a->width)) { if (x->width == w) return x; if (x->width < w) return zext(x, w); }
    }
    return mk(OZExt, w, 0, 0, a, nullptr, nullptr);
  }
  E sext(E a, u32 w) {
    if (w == a->width) return a;
    if (isC(a)) return konst((u128)sx128(a->c, a->width), w);
    if (a->op == OSExt) return sext(a->k[0], w);
    if (a->op == OZExt) return zext(a->k[0], w);
    if (a->width <= 64 && a->umax <= mask64(a->width) >> 1) return zext(a, w);
    if (a->op == OIte && a->dist && a->leaves <= FP_LEAVES) return mapTree(a, [&](E x) { return sext(x, w); });
    return mk(OSExt, w, 0, 0, a, nullptr, nullptr);
  }
  E concat(E a, E b) { // a high
    u32 w = a->width + b->width;
    if (isC(a) && isC(b)) return konst((a->c << b->width) | b->c, w);
    if (isC(a) && a->c == 0) return zext(b, w);
    if (a->op == OExtract && b->op == OExtract && a->k[0] == b->k[0] && a->aux == b->aux + b->width)
      return extract(a->k[0], b->aux, w);
    if (a->op == OZExt && a->k[0]->op == OExtract && b->op == OExtract && a->k[0]->k[0] == b->k[0] && a->k[0]->aux == b->aux + b->width)
      return zext(extract(b->k[0], b->aux, b->width + a->k[0]->width), w);
    if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return concat(x, y); });
    if (a->op == OConcat && a->k[1]->op == OExtract && b->op == OExtract && a->k[1]->k[0] == b->k[0] && a->k[1]->aux == b->aux + b->width)
      return concat(a->k[0], extract(b->k[0], b->aux, a->k[1]->width + b->width));
    return mk(OConcat, w, 0, 0, a, b, nullptr);
  }
  // ---------------------------------------------------------------- comparisons
  E eq(E a, E b) {
    if (a == b) return T;
    u32 w = a->width;
    if (isC(a) && isC(b)) return F; // hash-consed and different
    if (isC(a)) std::swap(a, b);
    if (w == 1) {
      if (isC(b)) return b == T ? a : bnot(a);
      if (isNotOf(a, b)) return F;
      return bnot(bxor(a, b));
    }
    if (w <= 64) {
      if (a->umax < b->umin || b->umax < a->umin) return F;
      if (isC(b)) {
        u64 v = (u64)b->c;
        if (v & a->kz) return F;
        switch (a->op) {
        case OZExt: return eq(a->k[0], konst(v, a->k[0]->width));
        case OSExt: {
          u32 iw = a->k[0]->width;
          if ((u64)sx(v & mask64(iw), iw) != (u64)sx(v, w)) return F;
          return eq(a->k[0], konst(v, iw));
        }
        case OXor: if (isC(a->k[1])) return eq(a->k[0], konst(v ^ (u64)a->k[1]->c, w)); if (v == 0) return eq(a->k[0], a->k[1]); break;
        case OConcat: return band(eq(a->k[0], konst(v >> a->k[1]->width, a->k[0]->width)), eq(a->k[1], konst(v, a->k[1]->width)));
        case OIte: {
          E t = a->k[1], f = a->k[2];
          if (isC(t) || isC(f) || (a->dist && a->leaves <= FP_LEAVES)) return ite(a->k[0], eq(t, b), eq(f, b));
          break;
        }
        case OAdd: case OMul: {
          auto p = getPoly(a);
          // x*odd + c == v
          u64 c0 = 0; size_t i = 0;
          if (!p.empty() && p[0].atoms.empty()) { c0 = p[0].coef; i = 1; }
          if (p.size() == i + 1 && (p[i].coef & 1)) {
            u64 inv = 1, c = p[i].coef; for (int r = 0; r < 6; ++r) inv *= 2 - c * inv;
            E at = fromPoly(Poly{{p[i].atoms, 1}}, w);
            if (!(c == 1 && c0 == 0)) return eq(at, konst((v - c0) * inv, w));
          } else if (c0) {
            Poly q(p.begin() + i, p.end());
            return eq(fromPoly(q, w), konst(v - c0, w));
          } else if (p.size() == 1 && p[0].atoms.size() >= 1) {
            // x * 2^k*odd == v with x small: exact division when no overflow
            u64 c = p[0].coef;
            E at = fromPoly(Poly{{p[0].atoms, 1}}, w);
            if (c > 1 && at->umax <= mask64(w) / c) { if (v % c) return F; return eq(at, konst(v / c, w)); }
          }
          break;
        }
        default: break;
        }
      } else {
        if (a->op == OZExt && b->op == OZExt) {
          E x = a->k[0], y = b->k[0];
          u32 mw = std::max(x->width, y->width);
          return eq(zext(x, mw), zext(y, mw));
        }
        if (a->op == OSExt && b->op == OSExt && a->k[0]->width == b->k[0]->width) return eq(a->k[0], b->k[0]);
        if (a->op == OXor && (a->k[0] == b)) return eq(a->k[1], konst(0, w));
        if (a->op == OXor && (a->k[1] == b)) return eq(a->k[0], konst(0, w));
        if (b->op == OXor && (b->k[0] == a)) return eq(b->k[1], konst(0, w));
        if (b->op == OXor && (b->k[1] == a)) return eq(b->k[0], konst(0, w));
        if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return eq(x, y); });
        if (a->op == OAdd || a->op == OMul || b->op == OAdd || b->op == OMul) {
          E d = sub(a, b);
          if (isC(d)) return d->c == 0 ? T : F;
          auto p = getPoly(d);
          size_t i = (!p.empty() && p[0].atoms.empty()) ? 1 : 0;
          if (p.size() == i + 1 && p[i].atoms.size() >= 1 && (p[i].coef & 1)) return eq(d, konst(0, w));
        }
      }
    } else if (isC(b)) {
      if (a->op == OZExt) { u32 iw = a->k[0]->width; if (b->c >> iw) return F; return eq(a->k[0], konst(b->c, iw)); }
      if (a->op == OConcat) return band(eq(a->k[0], konst(b->c >> a->k[1]->width, a->k[0]->width)), eq(a->k[1], konst(b->c, a->k[1]->width)));
    }
    if (!isC(b) && a->id > b->id) std::swap(a, b);
    return mk(OEq, 1, 0, 0, a, b, nullptr);
  }
  E mkUlt(E a, E b) { return mk(OUlt, 1, 0, 0, a, b, nullptr); }
  E mkSlt(E a, E b) { return mk(OSlt, 1, 0, 0, a, b, nullptr); }
  E ult(E a, E b) {
    if (a == b) return F;
    u32 w = a->width;
    if (isC(a) && isC(b)) return a->c < b->c ? T : F;
    if (w <= 64) {
      if (a->umax < b->umin) return T;
      if (a->umin >= b->umax) return F;
      if (a->op == OZExt && b->op == OZExt && a->k[0]->width == b->k[0]->width) return ult(a->k[0], b->k[0]);
      if (a->op == OZExt && isC(b)) return ult(a->k[0], konst(b->c, a->k[0]->width)); // b<=umax else decided
      if (b->op == OZExt && isC(a)) return ult(konst(a->c, b->k[0]->width), b->k[0]);
      if (isC(b) && b->c == 1) return eq(a, konst(0, w));
      if (isC(a) && a->c == 0) return bnot(eq(b, a));
      if (isC(a) && (u64)a->c == mask64(w) - 1) return eq(b, konst(mask64(w), w));
      if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return ult(x, y); });
    }
    return mkUlt(a, b);
  }
  E ule(E a, E b) {
    if (a == b) return T;
    u32 w = a->width;
    if (isC(a) && isC(b)) return a->c <= b->c ? T : F;
    if (w <= 64) {
      if (a->umax <= b->umin) return T;
      if (a->umin > b->umax) return F;
      if (isC(b)) return ult(a, konst(b->c + 1, w)); // b < umax so no overflow
      if (isC(a)) { return ult(konst(a->c - 1, w), b); } // a > umin(b) >= 0
      if (a->op == OZExt && b->op == OZExt && a->k[0]->width == b->k[0]->width) return ule(a->k[0], b->k[0]);
      if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return ule(x, y); });
    }
    return mk(OUle, 1, 0, 0, a, b, nullptr);
  }
  E slt(E a, E b) {
    if (a == b) return F;
    u32 w = a->width;
    if (isC(a) && isC(b)) return sx128(a->c, w) < sx128(b->c, w) ? T : F;
    if (w <= 64) {
      u64 h = mask64(w) >> 1;
      if (a->umax <= h && b->umax <= h) return ult(a, b);
      if (a->umin > h && b->umin > h) return ult(a, b);
      if (a->umin > h && b->umax <= h) return T;
      if (a->umax <= h && b->umin > h) return F;
      if (a->op == OSExt && b->op == OSExt && a->k[0]->width == b->k[0]->width) return slt(a->k[0], b->k[0]);
      if (a->op == OSExt && isC(b)) {
        u32 iw = a->k[0]->width; s64 v = sx((u64)b->c, w), lo = -(s64)(1LL << (iw - 1)), hi = (1LL << (iw - 1)) - 1;
        if (iw < 64) { if (v > hi) return T; if (v <= lo) return F; return slt(a->k[0], konst((u64)v, iw)); }
      }
      if (b->op == OSExt && isC(a)) {
        u32 iw = b->k[0]->width; s64 v = sx((u64)a->c, w), lo = -(s64)(1LL << (iw - 1)), hi = (1LL << (iw - 1)) - 1;
        if (iw < 64) { if (v >= hi) return F; if (v < lo) return T; return slt(konst((u64)v, iw), b->k[0]); }
      }
      if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return slt(x, y); });
    }
    return mkSlt(a, b);
  }
  E sle(E a, E b) {
    if (a == b) return T;
    u32 w = a->width;
    if (isC(a) && isC(b)) return sx128(a->c, w) <= sx128(b->c, w) ? T : F;
    if (w <= 64) {
      u64 h = mask64(w) >> 1;
      if (a->umax <= h && b->umax <= h) return ule(a, b);
      if (a->umin > h && b->umin > h) return ule(a, b);
      if (a->umin > h && b->umax <= h) return T;
      if (a->umax <= h && b->umin > h) return F;
      if (isC(b) && (u64)b->c != h) return slt(a, konst(b->c + 1, w));
      if (isC(a) && (u64)a->c != h + 1) return slt(konst(a->c - 1, w), b);
      if (distOK(a, b)) return mapTree2(a, b, [&](E x, E y) { return sle(x, y); });
    }
    return mk(OSle, 1, 0, 0, a, b, nullptr);
  }
  // ---------------------------------------------------------------- floating point
  static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
  static float asF(u32 v) { float d; memcpy(&d, &v, 4); return d; }
  static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
  static u64 fromF(float d) { u32 v; memcpy(&v, &d, 4); return v; }
  static u64 ffold(Op op, u64 a, u64 b, u32 w) {
    if (w == 64) {
      double x = asD(a), y = asD(b);
      switch (op) { case OFAdd: return fromD(x + y); case OFSub: return fromD(x - y); case OFMul: return fromD(x * y); case OFDiv: return fromD(x / y); default: abort(); }
    } else {
      float x = asF(a), y = asF(b);
      switch (op) { case OFAdd: return fromF(x + y); case OFSub: return fromF(x - y); case OFMul: return fromF(x * y); case OFDiv: return fromF(x / y); default: abort(); }
    }
  }
  E fbin(Op op, E a, E b) {
    u32 w = a->width;
    if (isC(a) && isC(b)) return konst(ffold(op, (u64)a->c, (u64)b->c, w), w);
    // exact identities valid for all non-NaN-payload purposes
    if (op == OFMul && isC(b) && asD((u64)b->c) == 1.0 && w == 64) return a;
    if (op == OFMul && isC(a) && asD((u64)a->c) == 1.0 && w == 64) return b;
    if (op == OFDiv && isC(b) && asD((u64)b->c) == 1.0 && w == 64) return a;
    if (a->dist && b->dist && (u64)a->leaves * b->leaves <= 65536 * 4)
      return mapTree2(a, b, [&](E x, E y) { return fbin(op, x, y); });
    return mk(op, w, 0, 0, a, b, nullptr);
  }
  // LLVM predicate numbering: bit0 = EQ, bit1 = GT, bit2 = LT, bit3 = UNO
  static bool fcmpfold(u32 pred, u64 a, u64 b, u32 w) {
    double x = w == 64 ? asD(a) : asF(a), y = w == 64 ? asD(b) : asF(b);
    if (std::isnan(x) || std::isnan(y)) return pred & 8;
    if (x == y) return pred & 1;
    if (x > y) return pred & 2;
    return pred & 4;
  }
  E fcmp(u32 pred, E a, E b) {
    if (pred == 0) return F;
    if (pred == 15) return T;
    if (isC(a) && isC(b)) return fcmpfold(pred, (u64)a->c, (u64)b->c, a->width) ? T : F;
    if (a->dist && b->dist && (u64)a->leaves * b->leaves <= 65536 * 4)
      return mapTree2(a, b, [&](E x, E y) { return fcmp(pred, x, y); });
    return mk(OFCmp, 1, pred, 0, a, b, nullptr);
  }
  enum FUn { FUSqrt, FUFloor, FUCeil, FUTrunc, FURint, FURound };
  static u64 funfold(u32 f, u64 a, u32 w) {
    if (w == 64) {
      double x = asD(a);
      switch (f) { case FUSqrt: return fromD(std::sqrt(x)); case FUFloor: return fromD(std::floor(x)); case FUCeil: return fromD(std::ceil(x)); case FUTrunc: return fromD(std::trunc(x)); case FURint: return fromD(std::nearbyint(x)); case FURound: return fromD(std::round(x)); }
    } else {
      float x = asF(a);
      switch (f) { case FUSqrt: return fromF(std::sqrt(x)); case FUFloor: return fromF(std::floor(x)); case FUCeil: return fromF(std::ceil(x)); case FUTrunc: return fromF(std::trunc(x)); case FURint: return fromF(std::nearbyint(x)); case FURound: return fromF(std::round(x)); }
    }
    abort();
  }
  E fun(u32 f, E a) {
    if (isC(a)) return konst(funfold(f, (u64)a->c, a->width), a->width);
    if (a->dist) return mapTree(a, [&](E x) { return fun(f, x); });
    return mk(OFUn, a->width, f, 0, a, nullptr, nullptr);
  }
  static u64 toIntFold(Op op, u64 a, u32 fw, u32 w) {
    double x = fw == 64 ? asD(a) : asF(a);
    if (op == OFToS) {
      if (!(x > -9.3e18 && x < 9.3e18)) return (1ULL << 63) & mask64(w) ? 1ULL << 63 : 0;
      return (u64)(s64)x & mask64(w);
    }
    if (!(x > -1 && x < 1.85e19)) return ~0ULL & mask64(w);
    return (u64)x & mask64(w);
  }
  E fconv(Op op, E a, u32 w) {
    u32 aw = a->width;
    if (isC(a)) {
      u64 v = (u64)a->c;
      switch (op) {
      case OFConvS: return konst(w == 64 ? fromD((double)sx(v, aw)) : fromF((float)sx(v, aw)), w);
      case OFConvU: return konst(w == 64 ? fromD((double)v) : fromF((float)v), w);
      case OFToS: case OFToU: return konst(toIntFold(op, v, aw, w), w);
      case OFExt: return konst(fromD((double)asF(v)), w);
      case OFTrunc: return konst(fromF((float)asD(v)), w);
      default: abort();
      }
    }
    if (a->dist) return mapTree(a, [&](E x) { return fconv(op, x, w); });
    return mk(op, w, 0, 0, a, nullptr, nullptr);
  }

  // ---------------------------------------------------------------- evaluation under a model
  std::vector<u128> evalCache;
  std::vector<u32> evalStamp;
  u32 stamp = 0;
  const std::vector<u64> *model = nullptr;
  void setModel(const std::vector<u64> *m) { model = m; ++stamp; }
  u128 eval(E e) {
    if (e->op == OConst) return e->c;
    if (e->op == OVar) return e->aux < model->size() ? (*model)[e->aux] : 0;
    if (evalStamp.size() <= e->id) { evalStamp.resize(all.size() + 1024, 0); evalCache.resize(all.size() + 1024); }
    if (evalStamp[e->id] == stamp) return evalCache[e->id];
    u128 r = 0;
    u32 w = e->width; u128 m = mask128(w);
    E ka = e->k[0], kb = e->k[1], kc = e->k[2];
    switch (e->op) {
    case OAdd: r = (eval(ka) + eval(kb)) & m; break;
    case OMul: r = (eval(ka) * eval(kb)) & m; break;
    case OUDiv: case OSDiv: case OURem: case OSRem: r = foldDiv(e->op, eval(ka), eval(kb), w); break;
    case OAnd: r = eval(ka); if (r) r &= eval(kb); break;
    case OPar: r = std::popcount((u64)(eval(ka) & e->c)) & 1; break;
    case OOr: r = eval(ka); if (r != m) r |= eval(kb); break;
    case OXor: r = eval(ka) ^ eval(kb); break;
    case OShl: { u128 s = eval(kb); r = s >= w ? 0 : (eval(ka) << (u32)s) & m; break; }
    case OLShr: { u128 s = eval(kb); r = s >= w ? 0 : eval(ka) >> (u32)s; break; }
    case OAShr: { u128 s = eval(kb); if (s >= w) s = w - 1; r = (u128)(sx128(eval(ka), w) >> (u32)s) & m; break; }
    case OEq: r = eval(ka) == eval(kb); break;
    case OUlt: r = eval(ka) < eval(kb); break;
    case OUle: r = eval(ka) <= eval(kb); break;
    case OSlt: r = sx128(eval(ka), ka->width) < sx128(eval(kb), ka->width); break;
    case OSle: r = sx128(eval(ka), ka->width) <= sx128(eval(kb), ka->width); break;
    case OIte: r = eval(ka) ? eval(kb) : eval(kc); break;
    case OConcat: r = (eval(ka) << kb->width) | eval(kb); break;
    case OExtract: r = (eval(ka) >> e->aux) & m; break;
    case OZExt: r = eval(ka); break;
    case OSExt: r = (u128)sx128(eval(ka), ka->width) & m; break;
    case OFAdd: case OFSub: case OFMul: case OFDiv: r = ffold(e->op, (u64)eval(ka), (u64)eval(kb), w); break;
    case OFCmp: r = fcmpfold(e->aux, (u64)eval(ka), (u64)eval(kb), ka->width); break;
    case OFUn: r = funfold(e->aux, (u64)eval(ka), w); break;
    case OFConvS: case OFConvU: case OFToS: case OFToU: case OFExt: case OFTrunc: {
      u64 v = (u64)eval(ka);
      switch (e->op) {
      case OFConvS: r = w == 64 ? fromD((double)sx(v, ka->width)) : fromF((float)sx(v, ka->width)); break;
      case OFConvU: r = w == 64 ? fromD((double)v) : fromF((float)v); break;
      case OFExt: r = fromD((double)asF(v)); break;
      case OFTrunc: r = fromF((float)asD(v)); break;
      default: r = toIntFold(e->op, v, ka->width, w); break;
      }
      break; }
    default: abort();
    }
    if (evalStamp.size() <= e->id) { evalStamp.resize(all.size() + 1024, 0); evalCache.resize(all.size() + 1024); }
    evalStamp[e->id] = stamp; evalCache[e->id] = r;
    return r;
  }
};
