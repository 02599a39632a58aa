// Hash-consed bit-vector expressions, builder with local simplification,
// concrete evaluation under a model, and structural upper bounds.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <memory>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/Hashing.h"
#include "llvm/ADT/SmallString.h"

using llvm::APInt;

enum Op : uint8_t { CONST, SYM, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, SHL, LSHR, ASHR,
  AND, OR, XOR, NOT, CONCAT, EXTRACT, ZEXT, SEXT, ITE, EQ, ULT, ULE, SLT, SLE };
static const char *opName[] = {"const","sym","add","sub","mul","udiv","urem","sdiv","srem","shl","lshr","ashr",
  "and","or","xor","not","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle"};

struct E {
  Op op; uint32_t w; uint32_t id; uint32_t lo; // lo: extract low bit, or symbol index
  E *k[3];
  APInt c;          // constant value, or (for SYM) the declared upper bound
  APInt ub;         // structural unsigned upper bound
  APInt lb;         // structural unsigned lower bound
  uint32_t h = 0;    // nesting depth of divisions
  bool hard = false; // contains non-linear arithmetic
  uint32_t egen = 0; APInt ev;   // evaluation cache
  const std::vector<int> *syms = nullptr; // sorted symbol indices
};

struct Sym { std::string name; uint32_t w; E *e; };
static std::vector<Sym> g_syms;
static std::unordered_map<std::string, E*> g_symByName;

static uint32_t g_nextId = 1;
struct KeyHash { size_t operator()(const E *e) const {
  size_t h = e->op * 1000003u + e->w * 7919u + e->lo * 31u;
  for (int i = 0; i < 3; i++) h = h * 1000003u + (e->k[i] ? e->k[i]->id : 0);
  if (e->op == CONST) h ^= (size_t)llvm::hash_value(e->c);
  return h; } };
struct KeyEq { bool operator()(const E *a, const E *b) const {
  if (a->op != b->op || a->w != b->w || a->lo != b->lo) return false;
  for (int i = 0; i < 3; i++) if (a->k[i] != b->k[i]) return false;
  if (a->op == CONST) return a->c == b->c;
  return true; } };
static std::unordered_set<E*, KeyHash, KeyEq> g_cons;

static const std::vector<int> g_emptySyms;
static std::set<std::vector<int>> g_symsets;
static const std::vector<int> *internSet(std::vector<int> v) { return &*g_symsets.insert(std::move(v)).first; }

static APInt maxv(uint32_t w) { return APInt::getAllOnes(w); }

// structural proof of x <= y (as unsigned numbers, whatever their widths)
static const E *strip(const E *e) {
  for (;;) {
    if (e->op == ZEXT) e = e->k[0];
    else if (e->op == EXTRACT && e->lo == 0 && e->k[0]->ub.getActiveBits() <= e->w) e = e->k[0];
    else return e;
  }
}
static bool leqS(const E *x, const E *y, int depth = 8);
static bool apLe(const APInt &a, const APInt &b) { uint32_t w = std::max(a.getBitWidth(), b.getBitWidth()); return a.zext(w).ule(b.zext(w)); }
static bool noOvMul(const E *e) { bool ov; (void)e->k[0]->ub.umul_ov(e->k[1]->ub, ov); return !ov; }
static bool noOvAdd(const E *e) { bool ov; (void)e->k[0]->ub.uadd_ov(e->k[1]->ub, ov); return !ov; }
// factors of a product which does not overflow
static void factors(const E *e, std::vector<const E *> &f) {
  e = strip(e);
  if (e->op == MUL && noOvMul(e)) { factors(e->k[0], f); factors(e->k[1], f); }
  else f.push_back(e);
}
// product x <= y * c
static bool prodLe(const E *x, const E *y, const E *c, int depth) {
  x = strip(x); y = strip(y);
  if (depth == 0) return false;
  if (x->op == ITE) return prodLe(x->k[1], y, c, depth - 1) && prodLe(x->k[2], y, c, depth - 1);
  std::vector<const E *> f; factors(x, f);
  for (size_t i = 0; i < f.size(); i++) if (f[i] == y || (f.size() == 2 && leqS(f[i], y, depth - 1))) {
    if (f.size() == 2 && leqS(f[1 - i], c, depth - 1)) return true;
    APInt u(1024, 1); bool big = false;
    for (size_t j = 0; j < f.size(); j++) if (j != i) { bool ov; u = u.umul_ov(f[j]->ub.zextOrTrunc(1024), ov); big |= ov; }
    if (!big && f[i] == y && apLe(u, c->lb)) return true;
  }
  return false;
}
static bool leqS(const E *x, const E *y, int depth) {
  x = strip(x); y = strip(y);
  if (x == y || apLe(x->ub, y->lb)) return true;
  if (depth == 0) return false;
  if (x->op == ITE) {
    if (leqS(x->k[1], y, depth - 1) && leqS(x->k[2], y, depth - 1)) return true;
    // a minimum is at most either operand
    if (x->k[0]->op == ULT || x->k[0]->op == ULE) {
      const E *p = strip(x->k[0]->k[0]), *q = strip(x->k[0]->k[1]), *a = strip(x->k[1]), *b = strip(x->k[2]);
      if (p == a && q == b) return leqS(a, y, depth - 1) || leqS(b, y, depth - 1);
    }
    return false;
  }
  if (y->op == ADD && noOvAdd(y) && (leqS(x, y->k[0], depth - 1) || leqS(x, y->k[1], depth - 1))) return true;
  if (x->op == SUB && leqS(x->k[1], x->k[0], depth - 1) && leqS(x->k[0], y, depth - 1)) return true;
  if (x->op == UDIV && !x->k[1]->lb.isZero()) {
    const E *n = strip(x->k[0]), *d = strip(x->k[1]);
    if (n->op == ADD && noOvAdd(n) && n->k[1]->op == CONST && n->k[1]->c.zext(1024).ult(d->lb.zext(1024))) n = n->k[0];
    if (n->op == ADD && noOvAdd(n)) for (int i = 0; i < 2; i++) { // n + (d - 1)
      const E *r = strip(n->k[i]);
      if (r->op == ADD && r->k[1]->op == CONST && r->k[1]->c.isAllOnes() && strip(r->k[0]) == d) { n = n->k[1 - i]; break; }
    }
    if (leqS(n, y, depth - 1)) return true;
    return prodLe(n, y, d, depth - 1);
  }
  return false;
}

// saturating upper bound helpers (result has width w)
static APInt ubAdd(const APInt &a, const APInt &b, uint32_t w) {
  APInt s = a.zext(w + 1) + b.zext(w + 1);
  return s.ugt(maxv(w).zext(w + 1)) ? maxv(w) : s.trunc(w);
}
static APInt ubMul(const APInt &a, const APInt &b, uint32_t w) {
  APInt s = a.zext(2 * w) * b.zext(2 * w);
  return s.ugt(maxv(w).zext(2 * w)) ? maxv(w) : s.trunc(w);
}

static E *mkConst(const APInt &v);
static E *mkRaw(Op op, uint32_t w, E *a = nullptr, E *b = nullptr, E *c = nullptr, uint32_t lo = 0) {
  E t; t.op = op; t.w = w; t.lo = lo; t.k[0] = a; t.k[1] = b; t.k[2] = c;
  auto it = g_cons.find(&t);
  if (it != g_cons.end()) return *it;
  E *e = new E(t); e->id = g_nextId++;
  // symbol set
  const std::vector<int> *s = &g_emptySyms;
  for (int i = 0; i < 3; i++) if (e->k[i]) {
    const auto *ks = e->k[i]->syms;
    if (ks == s || ks->empty()) continue;
    if (s->empty()) { s = ks; continue; }
    std::vector<int> m; std::set_union(s->begin(), s->end(), ks->begin(), ks->end(), std::back_inserter(m));
    if (m.size() == s->size()) continue;
    if (m.size() == ks->size()) { s = ks; continue; }
    s = internSet(std::move(m));
  }
  e->syms = s;
  for (int i = 0; i < 3; i++) if (e->k[i]) { if (e->k[i]->hard) e->hard = true; e->h = std::max(e->h, e->k[i]->h); }
  if (op == UDIV || op == UREM) e->h++;
  if ((op == MUL && a->op != CONST && b->op != CONST) || ((op == UDIV || op == UREM || op == SDIV || op == SREM))) e->hard = true;
  if (op == MUL && w > 64) e->hard = true;
  APInt M = maxv(w);
  switch (op) {
    case ADD: e->ub = ubAdd(a->ub, b->ub, w); break;
    case MUL: e->ub = ubMul(a->ub, b->ub, w); break;
    case UDIV: e->ub = b->op == CONST && !b->c.isZero() ? a->ub.udiv(b->c) : M; break;
    case UREM: e->ub = b->op == CONST && !b->c.isZero() ? llvm::APIntOps::umin(a->ub, b->c - 1) : (a->ub); break;
    case LSHR: e->ub = b->op == CONST ? a->ub.lshr(b->c.getLimitedValue(w)) : a->ub; break;
    case SHL: if (b->op == CONST) { uint64_t s = b->c.getLimitedValue(w); e->ub = (a->ub.countl_zero() >= s) ? a->ub.shl(s) : M; } else e->ub = M; break;
    case AND: e->ub = llvm::APIntOps::umin(a->ub, b->ub); break;
    case OR: case XOR: { unsigned n = std::max(a->ub.getActiveBits(), b->ub.getActiveBits()); e->ub = APInt::getLowBitsSet(w, n); break; }
    case CONCAT: e->ub = a->ub.zext(w).shl(b->w) | (a->ub.isZero() ? b->ub.zext(w) : maxv(b->w).zext(w)); break;
    case EXTRACT: { APInt t = a->ub.lshr(lo); e->ub = t.getActiveBits() <= w ? t.trunc(w) : M; break; }
    case ZEXT: e->ub = a->ub.zext(w); break;
    case ITE: e->ub = llvm::APIntOps::umax(b->ub, c->ub); break;
    default: e->ub = M;
  }
  // lower bounds, and upper bounds which depend on them
  e->lb = APInt(w, 0);
  switch (op) {
    case ADD: { bool ov; (void)a->ub.uadd_ov(b->ub, ov); if (!ov) e->lb = a->lb + b->lb; else { (void)a->lb.uadd_ov(b->lb, ov); if (ov) { e->lb = a->lb + b->lb; e->ub = a->ub + b->ub; } } break; }
    case SUB: if (a->lb.uge(b->ub)) { e->lb = a->lb - b->ub; e->ub = a->ub - b->lb; }
      else if (leqS(b, a)) e->ub = a->ub - b->lb;
      break;
    case MUL: { bool ov; (void)a->ub.umul_ov(b->ub, ov); if (!ov) e->lb = a->lb * b->lb; break; }
    case UDIV: if (!b->lb.isZero()) { APInt u = a->ub.udiv(b->lb); if (u.ult(e->ub)) e->ub = u; e->lb = a->lb.udiv(b->ub); } break;
    case ZEXT: e->lb = a->lb.zext(w); break;
    case EXTRACT: if (a->ub.getActiveBits() <= lo + w) { APInt t = a->lb.lshr(lo); e->lb = t.trunc(w); } break;
    case CONCAT: e->lb = a->lb.zext(w).shl(b->w) | b->lb.zext(w); break;
    case LSHR: if (b->op == CONST) e->lb = a->lb.lshr(b->c.getLimitedValue(w)); break;
    case OR: e->lb = llvm::APIntOps::umax(a->lb, b->lb); break;
    case ITE: { e->lb = llvm::APIntOps::umin(b->lb, c->lb);
      if (a->op == ULT || a->op == ULE) { // minimum, maximum
        auto st = [](E *x) { while (x->op == ZEXT) x = x->k[0]; return x; };
        E *p = st(a->k[0]), *q = st(a->k[1]), *x = st(b), *y = st(c);
        if (p == x && q == y) e->ub = llvm::APIntOps::umin(b->ub, c->ub);
        else if (p == y && q == x) e->lb = llvm::APIntOps::umax(b->lb, c->lb); }
      break; }
    default: break;
  }
  if (op == UDIV && e->lb == e->ub) { APInt v = e->lb; delete e; return mkConst(v); } // one value only
  g_cons.insert(e);
  return e;
}
static E *mkConst(const APInt &v) {
  E t; t.op = CONST; t.w = v.getBitWidth(); t.lo = 0; t.k[0] = t.k[1] = t.k[2] = nullptr; t.c = v;
  auto it = g_cons.find(&t);
  if (it != g_cons.end()) return *it;
  E *e = new E(t); e->id = g_nextId++; e->syms = &g_emptySyms; e->ub = v; e->lb = v;
  g_cons.insert(e); return e;
}
static E *mkC(uint32_t w, uint64_t v) { return mkConst(APInt(w, v)); }
static E *mkSym(const std::string &name, uint32_t w, const APInt *ub = nullptr, uint64_t lb = 0) {
  // the same name may stand for different ranges on different paths
  llvm::SmallString<80> us; if (ub) ub->toString(us, 16, false);
  std::string key = name + "/" + std::to_string(w) + "/" + std::string(us.str()) + "/" + std::to_string(lb);
  auto it = g_symByName.find(key);
  if (it != g_symByName.end()) return it->second;
  E *e = new E(); e->op = SYM; e->w = w; e->id = g_nextId++; e->lo = g_syms.size(); e->k[0] = e->k[1] = e->k[2] = nullptr;
  e->c = ub ? *ub : maxv(w); e->ub = e->c; e->lb = APInt(w, lb); e->syms = internSet({(int)e->lo});
  g_syms.push_back({name, w, e}); g_symByName[key] = e; return e;
}

static inline bool isC(const E *e) { return e->op == CONST; }
static inline bool isZero(const E *e) { return e->op == CONST && e->c.isZero(); }
static inline bool isOnes(const E *e) { return e->op == CONST && e->c.isAllOnes(); }

static E *foldBin(Op op, const APInt &a, const APInt &b) {
  uint32_t w = a.getBitWidth();
  switch (op) {
    case ADD: return mkConst(a + b); case SUB: return mkConst(a - b); case MUL: return mkConst(a * b);
    case UDIV: return mkConst(b.isZero() ? maxv(w) : a.udiv(b));
    case UREM: return mkConst(b.isZero() ? a : a.urem(b));
    case SDIV: return b.isZero() ? mkConst(a.isNegative() ? APInt(w, 1) : maxv(w)) : mkConst(a.sdiv(b));
    case SREM: return mkConst(b.isZero() ? a : a.srem(b));
    case SHL: return mkConst(b.uge(w) ? APInt(w, 0) : a.shl(b.getZExtValue()));
    case LSHR: return mkConst(b.uge(w) ? APInt(w, 0) : a.lshr(b.getZExtValue()));
    case ASHR: return mkConst(b.uge(w) ? a.ashr(w - 1) : a.ashr(b.getZExtValue()));
    case AND: return mkConst(a & b); case OR: return mkConst(a | b); case XOR: return mkConst(a ^ b);
    case EQ: return mkC(1, a == b); case ULT: return mkC(1, a.ult(b)); case ULE: return mkC(1, a.ule(b));
    case SLT: return mkC(1, a.slt(b)); case SLE: return mkC(1, a.sle(b));
    default: abort();
  }
}

static E *mkBin(Op op, E *a, E *b);
static E *mkNot(E *a);
static E *mkIte(E *c, E *a, E *b);
static E *mkExtract(E *a, uint32_t lo, uint32_t w);
static E *mkConcat(E *hi, E *lo);
static E *mkZext(E *a, uint32_t w);
static E *mkSext(E *a, uint32_t w);

static E *mkNot(E *a) {
  if (isC(a)) return mkConst(~a->c);
  if (a->op == NOT) return a->k[0];
  if (a->w == 1) {
    if (a->op == ULT) return mkBin(ULE, a->k[1], a->k[0]);
    if (a->op == ULE) return mkBin(ULT, a->k[1], a->k[0]);
    if (a->op == SLT) return mkBin(SLE, a->k[1], a->k[0]);
    if (a->op == SLE) return mkBin(SLT, a->k[1], a->k[0]);
  }
  return mkRaw(NOT, a->w, a);
}

// a comparison as a set of outcomes (1 less, 2 equal, 4 greater) for a pair;
// sg: 1 unsigned, 2 signed, 0 either
static bool relOf(E *e, E *&x, E *&y, int &m, int &sg) {
  if (e->w != 1) return false;
  switch (e->op) {
    case EQ: x = e->k[0]; y = e->k[1]; m = 2; sg = 0; break;
    case NOT: if (e->k[0]->op != EQ) return false; x = e->k[0]->k[0]; y = e->k[0]->k[1]; m = 5; sg = 0; break;
    case ULT: case SLT: x = e->k[0]; y = e->k[1]; m = 1; sg = e->op == ULT ? 1 : 2; break;
    case ULE: case SLE: x = e->k[0]; y = e->k[1]; m = 3; sg = e->op == ULE ? 1 : 2; break;
    default: return false; }
  if (x->id > y->id) { std::swap(x, y); m = (m & 2) | (m >> 2) | ((m & 1) << 2); }
  return true; }
static E *relMake(E *x, E *y, int m, int sg) {
  Op lt = sg == 2 ? SLT : ULT, le = sg == 2 ? SLE : ULE;
  switch (m) { case 0: return mkC(1, 0); case 1: return mkBin(lt, x, y); case 2: return mkBin(EQ, x, y); case 3: return mkBin(le, x, y);
    case 4: return mkBin(lt, y, x); case 5: return mkNot(mkBin(EQ, x, y)); case 6: return mkBin(le, y, x); default: return mkC(1, 1); } }
static E *relJoin(bool conj, E *a, E *b) {
  E *x, *y, *u, *v; int m, n, s, t;
  if (!relOf(a, x, y, m, s) || !relOf(b, u, v, n, t) || x != u || y != v || (s && t && s != t)) return nullptr;
  return relMake(x, y, conj ? m & n : m | n, s | t); }

static unsigned trailingZeros(E *e) {
  switch (e->op) {
    case CONST: return e->c.isZero() ? e->w : e->c.countr_zero();
    case SHL: return isC(e->k[1]) ? (unsigned)std::min<uint64_t>(e->w, e->k[1]->c.getLimitedValue(e->w) + trailingZeros(e->k[0])) : trailingZeros(e->k[0]);
    case CONCAT: { unsigned t = trailingZeros(e->k[1]); return t < e->k[1]->w ? t : t + trailingZeros(e->k[0]); }
    case ZEXT: return trailingZeros(e->k[0]) == e->k[0]->w ? e->w : trailingZeros(e->k[0]);
    case MUL: return std::min(e->w, trailingZeros(e->k[0]) + trailingZeros(e->k[1]));
    case ADD: case OR: case XOR: return std::min(trailingZeros(e->k[0]), trailingZeros(e->k[1]));
    default: return 0;
  }
}
static bool isMask(const APInt &c) { return !c.isZero() && (c & (c + 1)).isZero(); }

static bool iteConstLeaves(E *e, int depth = 4) {
  if (isC(e)) return true;
  if (e->op != ITE || depth == 0) return false;
  return iteConstLeaves(e->k[1], depth - 1) && iteConstLeaves(e->k[2], depth - 1);
}
static E *pushIte(Op op, E *a, E *b) { // one of a, b is an ITE tree with constant leaves, the other constant
  if (a->op == ITE) return mkIte(a->k[0], pushIte(op, a->k[1], b), pushIte(op, a->k[2], b));
  if (b->op == ITE) return mkIte(b->k[0], pushIte(op, a, b->k[1]), pushIte(op, a, b->k[2]));
  return foldBin(op, a->c, b->c);
}

// e / c when e is a multiple of c by construction (and computed without overflow), else null
static E *divExact(E *e, const APInt &c, int depth = 12) {
  uint32_t w = e->w;
  if (depth == 0) return nullptr;
  switch (e->op) {
    case CONST: return e->c.urem(c).isZero() ? mkConst(e->c.udiv(c)) : nullptr;
    case ZEXT: { if (c.getActiveBits() > e->k[0]->w) return nullptr; E *r = divExact(e->k[0], c.trunc(e->k[0]->w), depth - 1); return r ? mkZext(r, w) : nullptr; }
    case MUL: { if (!isC(e->k[1])) return nullptr; bool ov; (void)e->k[0]->ub.umul_ov(e->k[1]->c, ov); if (ov) return nullptr;
      const APInt &k = e->k[1]->c;
      if (k.urem(c).isZero()) return mkBin(MUL, e->k[0], mkConst(k.udiv(c)));
      if (c.urem(k).isZero()) return divExact(e->k[0], c.udiv(k), depth - 1);
      E *r = divExact(e->k[0], c, depth - 1); return r ? mkBin(MUL, r, e->k[1]) : nullptr; }
    case ADD: { bool ov; (void)e->k[0]->ub.uadd_ov(e->k[1]->ub, ov); if (ov) return nullptr;
      E *x = divExact(e->k[0], c, depth - 1); if (!x) return nullptr; E *y = divExact(e->k[1], c, depth - 1); return y ? mkBin(ADD, x, y) : nullptr; }
    case ITE: { E *x = divExact(e->k[1], c, depth - 1); if (!x) return nullptr; E *y = divExact(e->k[2], c, depth - 1); return y ? mkIte(e->k[0], x, y) : nullptr; }
    default: return nullptr;
  }
}
// e = c * r, where the product does not overflow
static APInt constFactor(E *e, E *&r) {
  uint32_t w = e->w; r = e;
  if (e->op == CONST && !e->c.isZero()) { r = mkC(w, 1); return e->c; }
  if (e->op == ZEXT) { E *s; APInt c = constFactor(e->k[0], s); if (!c.isOne()) r = mkZext(s, w); return c.zext(w); }
  if (e->op == MUL && isC(e->k[1])) { bool ov; (void)e->k[0]->ub.umul_ov(e->k[1]->c, ov);
    if (!ov) { E *s; APInt c = constFactor(e->k[0], s); r = s; return c * e->k[1]->c; } }
  if (e->op == EXTRACT && e->lo == 0 && e->k[0]->ub.getActiveBits() <= w && (e->k[0]->op == MUL || e->k[0]->op == ZEXT)) {
    E *s; APInt c = constFactor(e->k[0], s); if (c.getActiveBits() <= w && !c.isOne()) { r = mkExtract(s, 0, w); return c.trunc(w); } r = e; }
  if ((e->op == ADD && noOvAdd(e)) || (e->op == SUB && leqS(e->k[1], e->k[0]))) {
    E *x, *y; APInt cx = constFactor(e->k[0], x); if (cx.isOne()) return cx;
    APInt cy = constFactor(e->k[1], y), g = llvm::APIntOps::GreatestCommonDivisor(cx, cy);
    if (!g.isOne()) { r = mkBin(e->op, mkBin(MUL, x, mkConst(cx.udiv(g))), mkBin(MUL, y, mkConst(cy.udiv(g)))); return g; } }
  return APInt(w, 1);
}
static E *mulIte(E *a, E *b) { // b: ITE tree with constant leaves
  if (b->op == ITE) return mkIte(b->k[0], mulIte(a, b->k[1]), mulIte(a, b->k[2]));
  return mkBin(MUL, a, b); }

static E *mkBin(Op op, E *a, E *b) {
  if (isC(a) && isC(b)) return foldBin(op, a->c, b->c);
  uint32_t w = a->w;
  bool cmp = op >= EQ;
  if (op == ULT) { if (a->ub.ult(b->lb)) return mkC(1, 1); if (a->lb.uge(b->ub)) return mkC(1, 0); }
  if (op == ULE) { if (a->ub.ule(b->lb)) return mkC(1, 1); if (a->lb.ugt(b->ub)) return mkC(1, 0); }
  if (op == EQ) { if (a->ub.ult(b->lb) || b->ub.ult(a->lb)) return mkC(1, 0); }
  if (isC(b) && a->op == ITE && iteConstLeaves(a)) return pushIte(op, a, b);
  if (isC(a) && b->op == ITE && iteConstLeaves(b)) return pushIte(op, a, b);
  // canonical order for commutative ops: constant second, else by id
  if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR || op == EQ))
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  switch (op) {
    case ADD:
      if (isZero(b)) return a;
      if (isC(b) && a->op == ADD && isC(a->k[1])) return mkBin(ADD, a->k[0], mkConst(a->k[1]->c + b->c));
      if (isC(b) && a->op == SUB && isC(a->k[0])) return mkBin(SUB, mkConst(a->k[0]->c + b->c), a->k[1]);
      if (a->op == SUB && a->k[1] == b) return a->k[0];
      if (b->op == SUB && b->k[1] == a) return b->k[0];
      break;
    case SUB:
      if (isZero(b)) return a;
      if (a == b) return mkC(w, 0);
      if (isC(b)) return mkBin(ADD, a, mkConst(-b->c));
      if (a->op == ADD && a->k[0] == b) return a->k[1];
      if (a->op == ADD && a->k[1] == b) return a->k[0];
      if (b->op == SUB && b->k[0] == a) return b->k[1];
      if (a->op == ITE && a->k[1] == b) return mkIte(a->k[0], mkC(w, 0), mkBin(SUB, a->k[2], b));
      if (a->op == ITE && a->k[2] == b) return mkIte(a->k[0], mkBin(SUB, a->k[1], b), mkC(w, 0));
      if (b->op == ITE && b->k[1] == a) return mkIte(b->k[0], mkC(w, 0), mkBin(SUB, a, b->k[2]));
      if (b->op == ITE && b->k[2] == a) return mkIte(b->k[0], mkBin(SUB, a, b->k[1]), mkC(w, 0));
      break;
    case MUL:
      if (isC(b)) {
        if (b->c.isZero()) return b;
        if (b->c.isOne()) return a;
        if (a->op == MUL && isC(a->k[1])) return mkBin(MUL, a->k[0], mkConst(a->k[1]->c * b->c));
      } else if (b->op == ITE && iteConstLeaves(b, 3)) return mulIte(a, b);
      else if (a->op == ITE && iteConstLeaves(a, 3)) return mulIte(b, a);
      else if (b->op == ZEXT && b->k[0]->op == ITE && iteConstLeaves(b->k[0], 3)) return mulIte(a, mkZext(b->k[0], w));
      else { // constant factors outwards
        bool ov; (void)a->ub.umul_ov(b->ub, ov);
        if (!ov) { E *ra, *rb; APInt ca = constFactor(a, ra), cb = constFactor(b, rb);
          if (!ca.isOne() || !cb.isOne()) return mkBin(MUL, mkBin(MUL, ra, rb), mkConst(ca * cb)); } }
      break;
    case UDIV: if (isC(b) && b->c.isOne()) return a;
      if (!b->lb.isZero()) { // as narrow as the operands
        uint32_t n = std::max(a->ub.getActiveBits(), b->ub.getActiveBits());
        if (n > 0 && n < w) return mkZext(mkBin(UDIV, mkExtract(a, 0, n), mkExtract(b, 0, n)), w); }
      if (isC(b) && a->ub.ult(b->c)) return mkC(w, 0);
      if (isC(b) && b->c.isPowerOf2()) return mkBin(LSHR, a, mkC(w, b->c.logBase2()));
      // (x * c) / c without overflow
      if (isC(b) && a->op == MUL && isC(a->k[1]) && a->k[1]->c == b->c) {
        bool ov; (void)a->k[0]->ub.umul_ov(b->c, ov); if (!ov) return a->k[0]; }
      if (isC(b) && !isZero(b)) if (E *r = divExact(a, b->c)) return r;
      // (x * (m * c) + d) / c = x * m + d / c
      if (isC(b) && a->op == ADD && isC(a->k[1])) { bool ov; (void)a->k[0]->ub.uadd_ov(a->k[1]->c, ov);
        if (!ov) if (E *r = divExact(a->k[0], b->c)) return mkBin(ADD, r, mkConst(a->k[1]->c.udiv(b->c))); }
      if (isC(b) && a->op == MUL && isC(a->k[1])) { bool ov; (void)a->k[0]->ub.umul_ov(a->k[1]->c, ov);
        APInt g = llvm::APIntOps::GreatestCommonDivisor(a->k[1]->c, b->c);
        if (!ov && !g.isOne()) return mkBin(UDIV, mkBin(MUL, a->k[0], mkConst(a->k[1]->c.udiv(g))), mkConst(b->c.udiv(g))); }
      // (x / y) / c = x / (y * c)
      if (isC(b) && a->op == UDIV && !a->k[1]->lb.isZero()) {
        bool ov; (void)a->k[1]->ub.umul_ov(b->c, ov); if (!ov) return mkBin(UDIV, a->k[0], mkBin(MUL, a->k[1], b)); }
      if (isC(b) && (a->op == ZEXT || a->op == EXTRACT)) { E *q = const_cast<E*>(strip(a)); // the same, where the quotient was narrowed
        if (q != a && q->op == UDIV && !q->k[1]->lb.isZero() && b->c.getActiveBits() <= q->w) {
          uint32_t v = std::max(w, q->w + b->c.getActiveBits()); E *d = mkBin(MUL, mkZext(q->k[1], v), mkConst(b->c.zextOrTrunc(v)));
          E *r = mkBin(UDIV, mkZext(q->k[0], v), d); return v == w ? r : mkExtract(r, 0, w); } }
      // (x * k + d) / c: common factor of k and c
      if (isC(b) && a->op == ADD && isC(a->k[1])) { bool ov; (void)a->k[0]->ub.uadd_ov(a->k[1]->c, ov);
        if (!ov) { E *x; APInt k = constFactor(a->k[0], x), g = llvm::APIntOps::GreatestCommonDivisor(k, b->c);
          if (!g.isOne()) return mkBin(UDIV, mkBin(ADD, mkBin(MUL, x, mkConst(k.udiv(g))), mkConst(a->k[1]->c.udiv(g))), mkConst(b->c.udiv(g))); } }
      // (y * c - z) / c = y - ceil(z / c)
      if (isC(b) && a->op == SUB && leqS(a->k[1], a->k[0])) if (E *r = divExact(a->k[0], b->c)) { bool ov; (void)a->k[1]->ub.uadd_ov(b->c, ov);
        if (!ov) return mkBin(SUB, r, mkBin(UDIV, mkBin(ADD, a->k[1], mkConst(b->c - 1)), b)); }
      // ceil(floor(n * c / d) / c) = ceil(n / d) for d <= c
      if (isC(b) && a->op == ADD && isC(a->k[1]) && a->k[1]->c == b->c - 1) {
        E *q = a->k[0], *d; uint32_t z = 0;
        while (q->op == ZEXT || (q->op == EXTRACT && q->lo == 0 && q->k[0]->ub.getActiveBits() <= q->w)) { q = q->k[0]; z = std::max(z, q->w); }
        if (q->op == UDIV && !isC(d = q->k[1]) && !d->lb.isZero() && apLe(d->ub, b->c)) {
          uint32_t v = std::max(q->w, w); bool ov = b->c.getActiveBits() > q->w; E *n = ov ? nullptr : divExact(q->k[0], b->c.zextOrTrunc(q->w));
          if (n) { (void)n->ub.uadd_ov(d->ub, ov);
            if (!ov) { E *r = mkZext(mkBin(UDIV, mkBin(ADD, n, mkBin(SUB, d, mkC(d->w, 1))), d), v); return v == w ? r : mkExtract(r, 0, w); } } }
      }
      // (x * c) / (y * d): common constant factors
      if (!isC(b) && !b->lb.isZero()) { E *ra, *rb; APInt ca = constFactor(a, ra), cb = constFactor(b, rb);
        if (!ca.isOne() && !cb.isOne()) { APInt g = llvm::APIntOps::GreatestCommonDivisor(ca, cb);
          if (!g.isOne()) return mkBin(UDIV, mkBin(MUL, ra, mkConst(ca.udiv(g))), mkBin(MUL, rb, mkConst(cb.udiv(g)))); } }
      break;
    case UREM: if (isC(b) && b->c.isOne()) return mkC(w, 0);
      if (isC(b) && b->c.isPowerOf2()) { unsigned k = b->c.logBase2(); return mkZext(mkExtract(a, 0, k), w); }
      if (isC(b) && a->ub.ult(b->c)) return a;
      break;
    case SHL: case LSHR: case ASHR:
      if (isZero(b)) return a;
      if (isC(b)) {
        if (b->c.uge(w)) { if (op == ASHR) return mkSext(mkExtract(a, w - 1, 1), w); return mkC(w, 0); }
        unsigned s = b->c.getZExtValue();
        if (op == SHL) return mkConcat(mkExtract(a, 0, w - s), mkC(s, 0));
        if (op == LSHR) return mkZext(mkExtract(a, s, w - s), w);
        return mkSext(mkExtract(a, s, w - s), w);
      }
      break;
    case AND:
      if (isZero(b)) return b; if (isOnes(b)) return a; if (a == b) return a;
      if (a->op == NOT && a->k[0] == b) return mkC(w, 0);
      if (b->op == NOT && b->k[0] == a) return mkC(w, 0);
      if (w == 1) if (E *r = relJoin(true, a, b)) return r;
      if (isC(b) && isMask(b->c)) { unsigned n = b->c.countr_one(); return mkZext(mkExtract(a, 0, n), w); }
      if (isC(b) && isMask(~b->c)) { unsigned n = (~b->c).countr_one(); return mkConcat(mkExtract(a, n, w - n), mkC(n, 0)); }
      if (isC(b) && b->c.isShiftedMask()) { // middle mask
        unsigned l = b->c.countr_zero(); unsigned n = b->c.popcount();
        return mkZext(mkConcat(mkExtract(a, l, n), mkC(l, 0)), w); }
      break;
    case OR:
      if (isZero(b)) return a; if (isOnes(b)) return b; if (a == b) return a;
      if (w == 1 && ((a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a))) return mkC(1, 1);
      if (w == 1) if (E *r = relJoin(false, a, b)) return r;
      { // disjoint bits: a | b -> concat
        for (int s = 0; s < 2; s++) {
          E *x = s ? b : a, *y = s ? a : b;
          unsigned tz = trailingZeros(x);
          if (tz > 0 && tz < w && y->ub.getActiveBits() <= tz)
            return mkConcat(mkExtract(x, tz, w - tz), mkExtract(y, 0, tz));
        }
      }
      break;
    case XOR:
      if (isZero(b)) return a; if (isOnes(b)) return mkNot(a); if (a == b) return mkC(w, 0);
      break;
    case EQ:
      if (a == b) return mkC(1, 1);
      if (w == 1) { if (isC(b)) return b->c.isZero() ? mkNot(a) : a; }
      if (isC(b)) {
        if (b->c.ugt(a->ub)) return mkC(1, 0);
        if (a->op == ZEXT) { uint32_t kw = a->k[0]->w; if (b->c.getActiveBits() > kw) return mkC(1, 0); return mkBin(EQ, a->k[0], mkConst(b->c.trunc(kw))); }
        if (a->op == SEXT) { uint32_t kw = a->k[0]->w; APInt t = b->c.trunc(kw); if (t.sext(w) != b->c) return mkC(1, 0); return mkBin(EQ, a->k[0], mkConst(t)); }
        if (a->op == CONCAT) return mkBin(AND, mkBin(EQ, a->k[0], mkConst(b->c.lshr(a->k[1]->w).trunc(a->k[0]->w))), mkBin(EQ, a->k[1], mkConst(b->c.trunc(a->k[1]->w))));
        if (a->op == NOT) return mkBin(EQ, a->k[0], mkConst(~b->c));
        if (a->op == ADD && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(b->c - a->k[1]->c));
        if (a->op == XOR && isC(a->k[1])) return mkBin(EQ, a->k[0], mkConst(b->c ^ a->k[1]->c));
        // high part of a product/sum is zero <=> no overflow
        if (b->c.isZero() && a->op == EXTRACT && a->lo + a->w >= a->k[0]->ub.getActiveBits() && a->lo > 0)
          return mkBin(ULE, a->k[0], mkConst(APInt::getLowBitsSet(a->k[0]->w, a->lo)));
        if (b->c.isZero() && a->op == UREM) {} // keep
        if (b->c.isZero() && a->op == OR) return mkBin(AND, mkBin(EQ, a->k[0], mkC(w, 0)), mkBin(EQ, a->k[1], mkC(w, 0)));
        if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkBin(EQ, a->k[1], b), mkBin(EQ, a->k[2], b));
      }
      if (a->op == ZEXT && b->op == ZEXT) { uint32_t n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(EQ, mkZext(a->k[0], n), mkZext(b->k[0], n)); }
      if (a->op == CONCAT && b->op == CONCAT && a->k[1]->w == b->k[1]->w) return mkBin(AND, mkBin(EQ, a->k[0], b->k[0]), mkBin(EQ, a->k[1], b->k[1]));
      break;
    case ULT:
      if (a == b) return mkC(1, 0);
      if (isZero(b)) return mkC(1, 0);
      if (isC(b) && b->c.isOne()) return mkBin(EQ, a, mkC(w, 0));
      if (isZero(a)) return mkNot(mkBin(EQ, b, mkC(w, 0)));
      if (isOnes(a)) return mkC(1, 0);
      if (isC(b) && a->ub.ult(b->c)) return mkC(1, 1);
      if (isC(a) && b->ub.ule(a->c)) return mkC(1, 0);
      if (a->op == ADD && (a->k[0] == b || a->k[1] == b)) { // (b + y) < b  <=> overflow
        E *y = a->k[0] == b ? a->k[1] : a->k[0];
        return mkBin(ULT, mkZext(mkConst(maxv(w)), w + 1), mkBin(ADD, mkZext(b, w + 1), mkZext(y, w + 1))); }
      if (b->op == NOT) // a < ~y  <=> a + y < max
        return mkBin(ULT, mkBin(ADD, mkZext(a, w + 1), mkZext(b->k[0], w + 1)), mkZext(mkConst(maxv(w)), w + 1));
      if (a->op == NOT && b->op != NOT) // ~y < b <=> max < b + y
        return mkBin(ULT, mkZext(mkConst(maxv(w)), w + 1), mkBin(ADD, mkZext(b, w + 1), mkZext(a->k[0], w + 1)));
      break;
    case ULE:
      if (a == b) return mkC(1, 1);
      if (isZero(a)) return mkC(1, 1);
      if (isOnes(b)) return mkC(1, 1);
      if (isZero(b)) return mkBin(EQ, a, b);
      if (isC(a) && a->c.isOne()) return mkNot(mkBin(EQ, b, mkC(w, 0)));
      if (isC(b) && a->ub.ule(b->c)) return mkC(1, 1);
      if (isC(a) && b->ub.ult(a->c)) return mkC(1, 0);
      if (b->op == ADD && (b->k[0] == a || b->k[1] == a)) { // a <= a + y <=> no overflow
        E *y = b->k[0] == a ? b->k[1] : b->k[0];
        return mkBin(ULE, mkBin(ADD, mkZext(a, w + 1), mkZext(y, w + 1)), mkZext(mkConst(maxv(w)), w + 1)); }
      if (b->op == NOT)
        return mkBin(ULE, mkBin(ADD, mkZext(a, w + 1), mkZext(b->k[0], w + 1)), mkZext(mkConst(maxv(w)), w + 1));
      if (a->op == NOT && b->op != NOT)
        return mkBin(ULE, mkZext(mkConst(maxv(w)), w + 1), mkBin(ADD, mkZext(b, w + 1), mkZext(a->k[0], w + 1)));
      break;
    case SLT: if (a == b) return mkC(1, 0);
      // both known non-negative
      if (!a->ub.isNegative() && !b->ub.isNegative()) return mkBin(ULT, a, b);
      break;
    case SLE: if (a == b) return mkC(1, 1);
      if (!a->ub.isNegative() && !b->ub.isNegative()) return mkBin(ULE, a, b);
      break;
    default: break;
  }
  // comparisons of high parts, constant multiples and constant quotients with constants
  if ((op == ULT || op == ULE) && (isC(a) || isC(b))) {
    E *x = isC(b) ? a : b; // x < t, or its negation
    APInt c = (isC(b) ? b->c : a->c).zext(2 * w), t = (isC(b) == (op == ULE)) ? c + 1 : c; E *y = nullptr;
    if (x->op == EXTRACT && x->k[0]->ub.getActiveBits() <= x->lo + w) { y = x->k[0]; t = t.zext(2 * w + y->w).shl(x->lo); }
    else if (x->op == MUL && isC(x->k[1])) { bool ov; (void)x->k[0]->ub.umul_ov(x->k[1]->c, ov);
      if (!ov) { y = x->k[0]; APInt m = x->k[1]->c.zext(2 * w); t = (t + (m - 1)).udiv(m); } }
    else if (x->op == UDIV && isC(x->k[1])) { y = x->k[0]; t = t * x->k[1]->c.zext(2 * w); }
    if (y) {
      bool pos = isC(b);
      if (t.getActiveBits() > y->w) return mkC(1, pos);
      E *tc = mkConst(t.zextOrTrunc(y->w)); return pos ? mkBin(ULT, y, tc) : mkBin(ULE, tc, y); }
  }
  // narrow comparisons of zero-extended values
  if (cmp && (op == ULT || op == ULE)) {
    if (a->op == ZEXT && b->op == ZEXT) { uint32_t n = std::max(a->k[0]->w, b->k[0]->w); return mkBin(op, mkZext(a->k[0], n), mkZext(b->k[0], n)); }
    if (a->op == ZEXT && isC(b) && b->c.getActiveBits() <= a->k[0]->w) return mkBin(op, a->k[0], mkConst(b->c.trunc(a->k[0]->w)));
    if (b->op == ZEXT && isC(a) && a->c.getActiveBits() <= b->k[0]->w) return mkBin(op, mkConst(a->c.trunc(b->k[0]->w)), b->k[0]);
  }
  return mkRaw(op, cmp ? 1 : w, a, b);
}
static E *mkIte(E *c, E *a, E *b) {
  if (isC(c)) return c->c.isZero() ? b : a;
  if (a == b) return a;
  if (c->op == NOT) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c.isZero() ? mkNot(c) : c;
    if (isC(a)) return a->c.isZero() ? mkBin(AND, mkNot(c), b) : mkBin(OR, c, b);
    if (isC(b)) return b->c.isZero() ? mkBin(AND, c, a) : mkBin(OR, mkNot(c), a);
  }
  if (a->op == ITE && a->k[0] == c) a = a->k[1];
  if (b->op == ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return mkRaw(ITE, a->w, c, a, b);
}
static E *mkExtract(E *a, uint32_t lo, uint32_t w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c.extractBits(w, lo));
  switch (a->op) {
    case EXTRACT: return mkExtract(a->k[0], a->lo + lo, w);
    case CONCAT: { uint32_t lw = a->k[1]->w;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo)); }
    case ZEXT: { uint32_t kw = a->k[0]->w;
      if (lo >= kw) return mkC(w, 0);
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      return mkZext(mkExtract(a->k[0], lo, kw - lo), w); }
    case SEXT: if (lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w); break;
    case ITE: if (iteConstLeaves(a) || w == 1) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w)); break;
    case AND: case OR: case XOR: return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case NOT: return mkNot(mkExtract(a->k[0], lo, w));
    // truncation is a ring homomorphism; applied where the value fits
    case ADD: case MUL: if (lo == 0 && (a->ub.getActiveBits() <= w || (a->op == ADD && a->w == w + 1))) return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case SUB: if (lo == 0 && a->k[0]->ub.getActiveBits() <= w && a->k[1]->ub.getActiveBits() <= w) return mkBin(SUB, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    case UDIV: if (lo == 0 && a->k[0]->ub.getActiveBits() <= w && a->k[1]->ub.getActiveBits() <= w && !isZero(a->k[1])) return mkBin(UDIV, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w)); break;
    default: break;
  }
  if (a->op == ITE && lo == 0 && a->ub.getActiveBits() <= w) return mkIte(a->k[0], mkExtract(a->k[1], 0, w), mkExtract(a->k[2], 0, w));
  if (lo > 0 && a->ub.getActiveBits() <= lo) return mkC(w, 0);
  return mkRaw(EXTRACT, w, a, nullptr, nullptr, lo);
}
static E *mkConcat(E *hi, E *lo) {
  if (hi->w == 0) return lo; if (lo->w == 0) return hi;
  uint32_t w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst(hi->c.zext(w).shl(lo->w) | lo->c.zext(w));
  if (isZero(hi)) return mkZext(lo, w);
  if (hi->op == EXTRACT && lo->op == EXTRACT && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->w)
    return mkExtract(hi->k[0], lo->lo, w);
  if (hi->op == EXTRACT && hi->k[0] == lo && hi->lo == lo->w) {} // not possible
  if (hi->op == ZEXT) return mkZext(mkConcat(hi->k[0], lo), w);
  // merge constants / adjacent extracts across nested concat
  if (lo->op == CONCAT) {
    E *m = lo->k[0];
    if ((isC(hi) && isC(m)) || (hi->op == EXTRACT && m->op == EXTRACT && hi->k[0] == m->k[0] && hi->lo == m->lo + m->w))
      return mkConcat(mkConcat(hi, m), lo->k[1]);
  }
  return mkRaw(CONCAT, w, hi, lo);
}
static E *mkZext(E *a, uint32_t w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c.zext(w));
  if (a->op == ZEXT) return mkZext(a->k[0], w);
  if (a->op == ITE && iteConstLeaves(a)) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
  return mkRaw(ZEXT, w, a);
}
static E *mkSext(E *a, uint32_t w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c.sext(w));
  if (!a->ub.isNegative()) return mkZext(a, w);
  if (a->op == ITE && iteConstLeaves(a)) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
  return mkRaw(SEXT, w, a);
}

// ---- evaluation ----
typedef std::unordered_map<int, APInt> Model; // symbol index -> value (default 0)
static uint32_t g_egen = 0;
static const Model *g_emodel = nullptr;
static const APInt &evalRec(E *e) {
  if (e->op == CONST) return e->c;
  if (e->egen == g_egen) return e->ev;
  APInt r;
  switch (e->op) {
    case SYM: { auto it = g_emodel->find((int)e->lo); r = it == g_emodel->end() ? APInt(e->w, 0) : it->second; break; }
    case NOT: r = ~evalRec(e->k[0]); break;
    case CONCAT: r = evalRec(e->k[0]).zext(e->w).shl(e->k[1]->w) | evalRec(e->k[1]).zext(e->w); break;
    case EXTRACT: r = evalRec(e->k[0]).extractBits(e->w, e->lo); break;
    case ZEXT: r = evalRec(e->k[0]).zext(e->w); break;
    case SEXT: r = evalRec(e->k[0]).sext(e->w); break;
    case ITE: r = evalRec(e->k[0]).isZero() ? evalRec(e->k[2]) : evalRec(e->k[1]); break;
    default: { APInt a = evalRec(e->k[0]); const APInt &b = evalRec(e->k[1]); uint32_t w = a.getBitWidth();
      switch (e->op) {
        case ADD: r = a + b; break; case SUB: r = a - b; break; case MUL: r = a * b; break;
        case UDIV: r = b.isZero() ? maxv(w) : a.udiv(b); break;
        case UREM: r = b.isZero() ? a : a.urem(b); break;
        case SDIV: r = b.isZero() ? (a.isNegative() ? APInt(w, 1) : maxv(w)) : a.sdiv(b); break;
        case SREM: r = b.isZero() ? a : a.srem(b); break;
        case SHL: r = b.uge(w) ? APInt(w, 0) : a.shl(b.getZExtValue()); break;
        case LSHR: r = b.uge(w) ? APInt(w, 0) : a.lshr(b.getZExtValue()); break;
        case ASHR: r = b.uge(w) ? a.ashr(w - 1) : a.ashr(b.getZExtValue()); break;
        case AND: r = a & b; break; case OR: r = a | b; break; case XOR: r = a ^ b; break;
        case EQ: r = APInt(1, a == b); break; case ULT: r = APInt(1, a.ult(b)); break; case ULE: r = APInt(1, a.ule(b)); break;
        case SLT: r = APInt(1, a.slt(b)); break; case SLE: r = APInt(1, a.sle(b)); break;
        default: abort();
      } }
  }
  e->ev = r; e->egen = g_egen; return e->ev;
}
static void evalBegin(const Model *m) { g_egen++; g_emodel = m; }
static APInt evalE(E *e, const Model *m) { evalBegin(m); return evalRec(e); }

static std::string apStr(const APInt &v) { llvm::SmallString<80> s; v.toString(s, 10, false); return std::string(s.str()); }
static std::string dump(E *e, int depth = 12) {
  if (e->op == CONST) return apStr(e->c) + ":" + std::to_string(e->w);
  if (e->op == SYM) return g_syms[e->lo].name;
  if (depth == 0) return "...";
  std::string s = "("; s += opName[e->op]; s += std::to_string(e->w);
  if (e->op == EXTRACT) s += "@" + std::to_string(e->lo);
  for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + dump(e->k[i], depth - 1);
  return s + ")";
}
