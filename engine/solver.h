// Query layer: slicing, model reuse, caching, z3 (bit-vector and integer encodings).
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>

static Z3_context Z;
static double nowS() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }

struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, bv = 0, in = 0; double time = 0, maxTime = 0; };
static SolverStats SS;
static unsigned T_BV = 20000, T_INT = 60000; // ms
static double g_deadline = 1e300;
static bool g_crosscheck = false;
static int g_effort = 1; // 0: a branch, which may stay undecided
static unsigned T_BR = 1500; static uint64_t g_br[3]; // ms, per attempt at a hard branch
static uint64_t g_crosschecked = 0;

// ---------- BV translation ----------
static std::unordered_map<E*, Z3_ast> bvCache;
static std::unordered_map<uint32_t, Z3_sort> bvSorts;
static Z3_sort bvSort(uint32_t w) { auto &s = bvSorts[w]; if (!s) { s = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, s)); } return s; }
static Z3_ast hold(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static Z3_ast toBV(E *e);
static std::unordered_map<E*, Z3_ast> boolCache;
static Z3_ast toBool(E *e) { // w == 1
  auto it = boolCache.find(e); if (it != boolCache.end()) return it->second;
  Z3_ast r;
  switch (e->op) {
    case CONST: r = e->c.isZero() ? Z3_mk_false(Z) : Z3_mk_true(Z); break;
    case NOT: r = Z3_mk_not(Z, toBool(e->k[0])); break;
    case AND: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_and(Z, 2, a); break; }
    case OR: { Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])}; r = Z3_mk_or(Z, 2, a); break; }
    case XOR: r = Z3_mk_xor(Z, toBool(e->k[0]), toBool(e->k[1])); break;
    case EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(Z, toBool(e->k[0]), toBool(e->k[1])); else r = Z3_mk_eq(Z, toBV(e->k[0]), toBV(e->k[1])); break;
    case ULT: r = Z3_mk_bvult(Z, toBV(e->k[0]), toBV(e->k[1])); break;
    case ULE: r = Z3_mk_bvule(Z, toBV(e->k[0]), toBV(e->k[1])); break;
    case SLT: r = Z3_mk_bvslt(Z, toBV(e->k[0]), toBV(e->k[1])); break;
    case SLE: r = Z3_mk_bvsle(Z, toBV(e->k[0]), toBV(e->k[1])); break;
    case ITE: r = Z3_mk_ite(Z, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
    default: r = Z3_mk_eq(Z, toBV(e), hold(Z3_mk_unsigned_int64(Z, 1, bvSort(1))));
  }
  hold(r); boolCache[e] = r; return r;
}
static Z3_ast toBV(E *e) {
  auto it = bvCache.find(e); if (it != bvCache.end()) return it->second;
  Z3_ast r = nullptr;
  switch (e->op) {
    case CONST: r = Z3_mk_numeral(Z, apStr(e->c).c_str(), bvSort(e->w)); break;
    case SYM: r = Z3_mk_const(Z, Z3_mk_int_symbol(Z, e->lo), bvSort(e->w)); break;
    case EQ: case ULT: case ULE: case SLT: case SLE:
      r = Z3_mk_ite(Z, toBool(e), hold(Z3_mk_unsigned_int64(Z, 1, bvSort(1))), hold(Z3_mk_unsigned_int64(Z, 0, bvSort(1)))); break;
    case NOT: r = Z3_mk_bvnot(Z, toBV(e->k[0])); break;
    case CONCAT: r = Z3_mk_concat(Z, toBV(e->k[0]), toBV(e->k[1])); break;
    case EXTRACT: r = Z3_mk_extract(Z, e->lo + e->w - 1, e->lo, toBV(e->k[0])); break;
    case ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, toBV(e->k[0])); break;
    case SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, toBV(e->k[0])); break;
    case ITE: r = Z3_mk_ite(Z, toBool(e->k[0]), toBV(e->k[1]), toBV(e->k[2])); break;
    default: { Z3_ast a = toBV(e->k[0]), b = toBV(e->k[1]);
      switch (e->op) {
        case ADD: r = Z3_mk_bvadd(Z, a, b); break; case SUB: r = Z3_mk_bvsub(Z, a, b); break; case MUL: r = Z3_mk_bvmul(Z, a, b); break;
        case UDIV: r = Z3_mk_bvudiv(Z, a, b); break; case UREM: r = Z3_mk_bvurem(Z, a, b); break;
        case SDIV: r = Z3_mk_bvsdiv(Z, a, b); break; case SREM: r = Z3_mk_bvsrem(Z, a, b); break;
        case SHL: r = Z3_mk_bvshl(Z, a, b); break; case LSHR: r = Z3_mk_bvlshr(Z, a, b); break; case ASHR: r = Z3_mk_bvashr(Z, a, b); break;
        case AND: r = Z3_mk_bvand(Z, a, b); break; case OR: r = Z3_mk_bvor(Z, a, b); break; case XOR: r = Z3_mk_bvxor(Z, a, b); break;
        default: abort();
      } }
  }
  hold(r); bvCache[e] = r; return r;
}

// ---------- Integer translation ----------
struct IntTr {
  std::unordered_map<E*, Z3_ast> ic, bc;
  std::vector<Z3_ast> side;            // side constraints
  std::unordered_map<E*, APInt> facts; // upper bounds known from the path condition
  std::unordered_set<E*> leFacts;      // ULE(b,a) / known-true comparisons
  std::unordered_map<E*, std::pair<Z3_ast,Z3_ast>> dv;
  std::vector<int> usedSyms;
  bool fail = false;
  int abs = -1; // divisions nested at most this deep (and, at 1000, products) are arbitrary values within their bounds
  int fresh = 0;
  Z3_sort I;
  std::unordered_map<E*, APInt> ubc;
  IntTr() { I = Z3_mk_int_sort(Z); }
  Z3_ast H(Z3_ast a) { return hold(a); }
  Z3_ast num(const APInt &v) { return H(Z3_mk_numeral(Z, apStr(v).c_str(), I)); }
  Z3_ast pow2(unsigned k) { return num(APInt(k + 1, 1).shl(k)); }
  Z3_ast freshInt() { return H(Z3_mk_fresh_const(Z, "q", I)); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return H(Z3_mk_add(Z, 2, x)); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return H(Z3_mk_sub(Z, 2, x)); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return H(Z3_mk_mul(Z, 2, x)); }
  Z3_ast lt(Z3_ast a, Z3_ast b) { return H(Z3_mk_lt(Z, a, b)); }
  Z3_ast le(Z3_ast a, Z3_ast b) { return H(Z3_mk_le(Z, a, b)); }

  void learn(E *c, bool pos) { // c (w==1) holds (pos) or not
    if (c->op == NOT) return learn(c->k[0], !pos);
    if (pos && c->op == AND) { learn(c->k[0], true); learn(c->k[1], true); return; }
    if (!pos && c->op == OR) { learn(c->k[0], false); learn(c->k[1], false); return; }
    E *a = c->k[0], *b = c->k[1];
    auto setub = [&](E *x, APInt v) { auto it = facts.find(x); if (it == facts.end() || it->second.ugt(v)) facts[x] = v; };
    if (c->op == ULE && pos) { if (isC(b)) setub(a, b->c); leFacts.insert(c); }
    if (c->op == ULT && pos) { if (isC(b) && !b->c.isZero()) setub(a, b->c - 1); leFacts.insert(mkBin(ULE, a, b)); }
    if (c->op == ULE && !pos) { /* b < a */ if (isC(a) && !a->c.isZero()) setub(b, a->c - 1); leFacts.insert(mkBin(ULE, b, a)); }
    if (c->op == ULT && !pos) { /* b <= a */ if (isC(a)) setub(b, a->c); leFacts.insert(mkBin(ULE, b, a)); }
    if (c->op == EQ && pos && isC(b)) setub(a, b->c);
  }
  // upper bound using facts
  APInt ub(E *e) {
    if (e->op == CONST) return e->c;
    auto it = ubc.find(e); if (it != ubc.end()) return it->second;
    APInt r = e->ub; uint32_t w = e->w;
    auto mn = [&](const APInt &x) { if (x.ult(r)) r = x; };
    auto f = facts.find(e); if (f != facts.end()) mn(f->second);
    switch (e->op) {
      case ADD: if (!isC(e->k[1]) || !e->k[1]->c.isNegative()) mn(ubAdd(ub(e->k[0]), ub(e->k[1]), w)); break;
      case SUB: if (subNoWrap(e)) mn(ub(e->k[0])); break;
      case MUL: mn(ubMul(ub(e->k[0]), ub(e->k[1]), w)); break;
      case UDIV: if (isC(e->k[1]) && !isZero(e->k[1])) mn(ub(e->k[0]).udiv(e->k[1]->c)); break;
      case UREM: if (!isC(e->k[1])) mn(ub(e->k[0])); break;
      case ZEXT: mn(ub(e->k[0]).zext(w)); break;
      case EXTRACT: { APInt t = ub(e->k[0]).lshr(e->lo); if (t.getActiveBits() <= w) mn(t.trunc(w)); break; }
      case CONCAT: mn(ub(e->k[0]).zext(w).shl(e->k[1]->w) | maxv(e->k[1]->w).zext(w)); break;
      case ITE: mn(llvm::APIntOps::umax(ub(e->k[1]), ub(e->k[2]))); break;
      default: break;
    }
    ubc[e] = r; return r;
  }
  bool subNoWrap(E *e) { return leFacts.count(mkBin(ULE, e->k[1], e->k[0])) || mkBin(ULE, e->k[1], e->k[0])->op == CONST && !isZero(mkBin(ULE, e->k[1], e->k[0])); }
  bool addNoWrap(E *e) {
    uint32_t w = e->w;
    APInt s = ub(e->k[0]).zext(w + 1) + ub(e->k[1]).zext(w + 1);
    if (s.getActiveBits() <= w) return true;
    E *wide = mkBin(ADD, mkZext(e->k[0], w + 1), mkZext(e->k[1], w + 1));
    auto f = facts.find(wide);
    if (f != facts.end() && f->second.getActiveBits() <= w) return true;
    // facts about sums are sometimes kept at other widths
    return false;
  }
  bool mulNoWrap(E *e) {
    uint32_t w = e->w; APInt p = ub(e->k[0]).zext(2 * w) * ub(e->k[1]).zext(2 * w);
    if (p.getActiveBits() <= w) return true;
    E *wide = mkBin(MUL, mkZext(e->k[0], 2 * w), mkZext(e->k[1], 2 * w));
    auto f = facts.find(wide);
    return f != facts.end() && f->second.getActiveBits() <= w;
  }
  Z3_ast wrapMod(Z3_ast x, uint32_t w) { // x >= 0
    Z3_ast q = freshInt(), r = freshInt();
    side.push_back(H(Z3_mk_eq(Z, x, add(mul(q, pow2(w)), r))));
    side.push_back(le(num(APInt(8, 0)), r)); side.push_back(lt(r, pow2(w))); side.push_back(le(num(APInt(8, 0)), q));
    return r;
  }
  std::pair<Z3_ast,Z3_ast> divmod(E *n, E *d) {
    E *key = mkRaw(UDIV, n->w, n, d);
    auto it = dv.find(key); if (it != dv.end()) return it->second;
    Z3_ast zn = i(n), zd = i(d), q = freshInt(), r = freshInt();
    Z3_ast zero = num(APInt(8, 0));
    side.push_back(H(Z3_mk_eq(Z, zn, add(mul(q, zd), r))));
    if (isC(d)) {
      side.push_back(le(zero, r)); side.push_back(lt(r, zd)); side.push_back(le(zero, q));
    } else {
      // d == 0: bit-vector semantics q = all ones, r = n
      Z3_ast dz = H(Z3_mk_eq(Z, zd, zero));
      // replace the defining equation by a conditional one
      Z3_ast def = side.back(); side.pop_back();
      Z3_ast a1[4] = {def, le(zero, r), lt(r, zd), le(zero, q)};
      Z3_ast a2[2] = {H(Z3_mk_eq(Z, q, num(maxv(n->w)))), H(Z3_mk_eq(Z, r, zn))};
      side.push_back(H(Z3_mk_ite(Z, dz, H(Z3_mk_and(Z, 2, a2)), H(Z3_mk_and(Z, 4, a1)))));
    }
    auto p = std::make_pair(q, r); dv[key] = p; return p;
  }
  Z3_ast sgn(E *e) { // signed value
    Z3_ast x = i(e); if (!ub(e).isNegative()) return x;
    return H(Z3_mk_ite(Z, lt(x, pow2(e->w - 1)), x, sub(x, pow2(e->w))));
  }
  Z3_ast i(E *e) {
    auto it = ic.find(e); if (it != ic.end()) return it->second;
    Z3_ast r = nullptr; uint32_t w = e->w;
    if (e->op == CONST) r = num(e->c);
    else if (abs >= 0 && (((e->op == UDIV || e->op == UREM) && (abs == 1000 ? !isC(e->k[1]) : (int)e->h <= abs)) || (abs == 1000 && e->op == MUL && !isC(e->k[0]) && !isC(e->k[1])))) {
      r = freshInt(); side.push_back(le(num(e->lb), r)); side.push_back(le(r, num(ub(e)))); }
    else if (e->w == 1 && e->op != SYM && e->op != EXTRACT) r = H(Z3_mk_ite(Z, b(e), num(APInt(8, 1)), num(APInt(8, 0))));
    else switch (e->op) {
      case SYM: r = H(Z3_mk_const(Z, Z3_mk_int_symbol(Z, e->lo), I)); usedSyms.push_back(e->lo);
        side.push_back(le(num(APInt(8, 0)), r)); side.push_back(le(r, num(e->c))); break;
      case ADD: {
        if (isC(e->k[1]) && e->k[1]->c.isNegative() && w > 1) { // a - c
          APInt c = -e->k[1]->c; Z3_ast a = i(e->k[0]);
          if (leFacts.count(mkBin(ULE, mkConst(c), e->k[0]))) { r = sub(a, num(c)); break; }
          r = H(Z3_mk_ite(Z, le(num(c), a), sub(a, num(c)), add(sub(a, num(c)), pow2(w)))); break; }
        Z3_ast s = add(i(e->k[0]), i(e->k[1]));
        r = addNoWrap(e) ? s : H(Z3_mk_ite(Z, lt(s, pow2(w)), s, sub(s, pow2(w)))); break; }
      case SUB: { Z3_ast a = i(e->k[0]), c = i(e->k[1]); Z3_ast s = sub(a, c);
        r = subNoWrap(e) ? s : H(Z3_mk_ite(Z, le(c, a), s, add(s, pow2(w)))); break; }
      case MUL: { Z3_ast p = mul(i(e->k[0]), i(e->k[1])); r = mulNoWrap(e) ? p : wrapMod(p, w); break; }
      case UDIV: r = divmod(e->k[0], e->k[1]).first; break;
      case UREM: r = divmod(e->k[0], e->k[1]).second; break;
      case NOT: r = sub(num(maxv(w)), i(e->k[0])); break;
      case CONCAT: r = add(mul(i(e->k[0]), pow2(e->k[1]->w)), i(e->k[1])); break;
      case ZEXT: r = i(e->k[0]); break;
      case SEXT: { Z3_ast x = i(e->k[0]); uint32_t kw = e->k[0]->w;
        APInt diff = maxv(w) - maxv(kw).zext(w);
        r = H(Z3_mk_ite(Z, lt(x, pow2(kw - 1)), x, add(x, num(diff)))); break; }
      case EXTRACT: { E *k = e->k[0]; APInt u = ub(k); Z3_ast x = i(k);
        bool needMod = u.getActiveBits() > e->lo + w;
        if (e->lo == 0) { r = needMod ? divmod(k, mkConst(APInt(k->w, 1).shl(w))).second : x; }
        else {
          Z3_ast q = divmod(k, mkConst(APInt(k->w, 1).shl(e->lo))).first;
          r = needMod ? wrapMod(q, w) : q; }
        break; }
      case ITE: r = H(Z3_mk_ite(Z, b(e->k[0]), i(e->k[1]), i(e->k[2]))); break;
      default: fail = true; r = num(APInt(8, 0));
    }
    ic[e] = r; return r;
  }
  Z3_ast b(E *e) { // w == 1
    auto it = bc.find(e); if (it != bc.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
      case CONST: r = e->c.isZero() ? Z3_mk_false(Z) : Z3_mk_true(Z); break;
      case NOT: r = Z3_mk_not(Z, b(e->k[0])); break;
      case AND: { Z3_ast a[2] = {b(e->k[0]), b(e->k[1])}; r = Z3_mk_and(Z, 2, a); break; }
      case OR: { Z3_ast a[2] = {b(e->k[0]), b(e->k[1])}; r = Z3_mk_or(Z, 2, a); break; }
      case XOR: r = Z3_mk_xor(Z, b(e->k[0]), b(e->k[1])); break;
      case EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(Z, b(e->k[0]), b(e->k[1])) : Z3_mk_eq(Z, i(e->k[0]), i(e->k[1])); break;
      case ULT: r = lt(i(e->k[0]), i(e->k[1])); break;
      case ULE: r = le(i(e->k[0]), i(e->k[1])); break;
      case SLT: r = lt(sgn(e->k[0]), sgn(e->k[1])); break;
      case SLE: r = le(sgn(e->k[0]), sgn(e->k[1])); break;
      case ITE: r = Z3_mk_ite(Z, b(e->k[0]), b(e->k[1]), b(e->k[2])); break;
      default: r = Z3_mk_eq(Z, i(e), num(APInt(8, 1)));
    }
    H(r); bc[e] = r; return r;
  }
};

enum Res { SAT, UNSAT, UNK };

static void setParams(Z3_solver s, unsigned tmo) {
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), tmo);
  Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
}
#include "lin.h"
static APInt parseAP(const char *str, uint32_t w) { return APInt(w, llvm::StringRef(str), 10); }

static bool extractModel(Z3_solver s, const std::vector<E*> &cs, bool isInt, Model &out) {
  Z3_model m = Z3_solver_get_model(Z, s); if (!m) return false;
  Z3_model_inc_ref(Z, m);
  std::set<int> syms; for (E *c : cs) for (int x : *c->syms) syms.insert(x);
  for (int x : syms) {
    Z3_sort so = isInt ? Z3_mk_int_sort(Z) : bvSort(g_syms[x].w);
    Z3_ast c = Z3_mk_const(Z, Z3_mk_int_symbol(Z, x), so); hold(c);
    Z3_ast v = nullptr;
    if (Z3_model_eval(Z, m, c, true, &v) && v && Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) {
      hold(v); const char *str = Z3_get_numeral_string(Z, v);
      if (str[0] != '-') out[x] = parseAP(str, std::max<uint32_t>(g_syms[x].w, 1)); Z3_dec_ref(Z, v);
    } else out[x] = APInt(g_syms[x].w, 0);
    Z3_dec_ref(Z, c);
  }
  Z3_model_dec_ref(Z, m);
  // validate against the reference evaluator
  evalBegin(&out);
  for (E *c : cs) if (evalRec(c).isZero()) return false;
  return true;
}

static Res solveBV(const std::vector<E*> &cs, Model &m, unsigned tmo, bool heavy) {
  SS.bv++;
  Z3_solver s = heavy ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")) : Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, s); setParams(s, tmo);
  std::set<int> syms;
  for (E *c : cs) { Z3_solver_assert(Z, s, toBool(c)); for (int x : *c->syms) syms.insert(x); }
  for (int x : syms) if (!g_syms[x].e->c.isAllOnes()) Z3_solver_assert(Z, s, Z3_mk_bvule(Z, toBV(g_syms[x].e), toBV(mkConst(g_syms[x].e->c))));
  Z3_lbool r = Z3_solver_check(Z, s); Res res = UNK;
  if (r == Z3_L_FALSE) res = UNSAT;
  else if (r == Z3_L_TRUE) res = extractModel(s, cs, false, m) ? SAT : UNK;
  Z3_solver_dec_ref(Z, s); return res;
}
static Res solveInt(const std::vector<E*> &cs, Model &m, unsigned tmo, int mode, int abs = -1) {
  SS.in++;
  IntTr t; t.abs = abs; for (E *c : cs) t.learn(c, true);
  // the constraints that provide the facts must themselves be translated without
  // relying on the facts they provide: sums and products are translated at their
  // full width there, so no circularity arises (see DESIGN).
  std::vector<Z3_ast> as; for (E *c : cs) as.push_back(t.b(c));
  if (t.fail) return UNK;
  Z3_solver s;
  if (mode == 0) s = Z3_mk_simple_solver(Z);
  else if (mode == 1) s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_NIA"));
  else { Z3_tactic tc = Z3_mk_tactic(Z, "qfnra-nlsat"); Z3_tactic_inc_ref(Z, tc); s = Z3_mk_solver_from_tactic(Z, tc); }
  Z3_solver_inc_ref(Z, s); setParams(s, tmo);
  for (auto a : as) Z3_solver_assert(Z, s, a);
  for (auto a : t.side) Z3_solver_assert(Z, s, a);
  Z3_lbool r = Z3_solver_check(Z, s); Res res = UNK;
  if (r == Z3_L_FALSE) res = UNSAT;
  else if (r == Z3_L_TRUE && abs < 0) { Model mm; if (extractModel(s, cs, true, mm)) { m = mm; res = SAT; } else if (getenv("SX_DEBUG")) fprintf(stderr, "int model rejected by evaluator\n"); }
  Z3_solver_dec_ref(Z, s); return res;
}

// ---- incremental solver for queries without non-linear arithmetic ----
struct Incr {
  Z3_solver s = nullptr; std::vector<E*> stack; std::unordered_set<int> bounded; std::vector<std::vector<int>> boundedAt;
  void init() { s = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, s); setParams(s, 50); }
  void bounds(E *c, bool track) { for (int x : *c->syms) if (!g_syms[x].e->c.isAllOnes() && !bounded.count(x)) {
      Z3_solver_assert(Z, s, Z3_mk_bvule(Z, toBV(g_syms[x].e), toBV(mkConst(g_syms[x].e->c)))); bounded.insert(x); boundedAt.back().push_back(x); } }
  void pop1() { Z3_solver_pop(Z, s, 1); for (int x : boundedAt.back()) bounded.erase(x); boundedAt.pop_back(); }
  void push1() { Z3_solver_push(Z, s); boundedAt.emplace_back(); }
  Res check(const std::vector<E*> &pcAll, E *extra, Model &m) {
    if (!s) init();
    std::vector<E*> pc; for (E *c : pcAll) if (!c->hard) pc.push_back(c);
    size_t k = 0; while (k < pc.size() && k < stack.size() && pc[k] == stack[k]) k++;
    while (stack.size() > k) { pop1(); stack.pop_back(); }
    for (; k < pc.size(); k++) { push1(); bounds(pc[k], true); Z3_solver_assert(Z, s, toBool(pc[k])); stack.push_back(pc[k]); }
    push1(); bounds(extra, true); Z3_solver_assert(Z, s, toBool(extra));
    Z3_lbool r = Z3_solver_check(Z, s); Res res = UNK; SS.bv++;
    if (r == Z3_L_FALSE) res = UNSAT;
    else if (r == Z3_L_TRUE) { std::vector<E*> cs = pcAll; cs.push_back(extra); if (extractModel(s, cs, false, m)) res = SAT; }
    pop1(); return res; } };
static Incr g_inc;

// ---- cheap model repair: change one symbol of the current model ----
static uint64_t g_repaired = 0;
static bool repair(const std::vector<E*> &pc, E *extra, const Model &base, Model &out) {
  if (extra->syms->size() > 12) return false;
  std::vector<APInt> cand; // collect operand values
  std::vector<E*> todo{extra}; int n = 0;
  evalBegin(&base);
  while (!todo.empty() && n++ < 24) { E *e = todo.back(); todo.pop_back();
    if (e->op >= EQ) { for (int i = 0; i < 2; i++) { APInt v = evalRec(e->k[i]); cand.push_back(v.zext(std::max(512u, v.getBitWidth()))); } }
    if (e->w == 1) for (int i = 0; i < 3; i++) if (e->k[i] && e->k[i]->w == 1) todo.push_back(e->k[i]); }
  size_t nc = cand.size(); uint32_t W = 512; for (auto &c : cand) W = std::max(W, c.getBitWidth());
  std::vector<APInt> all; for (size_t i = 0; i < nc; i++) { APInt v = cand[i].zext(W); all.push_back(v); all.push_back(v + 1); if (!v.isZero()) all.push_back(v - 1); }
  all.push_back(APInt(W, 0)); all.push_back(APInt(W, 1)); if (all.size() > 40) all.resize(40);
  for (int x : *extra->syms) {
    std::vector<E*> dep; for (E *c : pc) if (std::binary_search(c->syms->begin(), c->syms->end(), x)) dep.push_back(c);
    if (dep.size() > 3000) continue;
    Sym &sy = g_syms[x]; std::vector<APInt> tr = all; tr.push_back(sy.e->c.zext(W));
    for (auto &v : tr) { if (v.getActiveBits() > sy.w) continue; APInt t = v.trunc(sy.w); if (t.ugt(sy.e->c)) continue;
      auto it = base.find(x); APInt old = it == base.end() ? APInt(sy.w, 0) : it->second; if (old == t) continue;
      Model &mm = const_cast<Model&>(base); bool had = it != base.end(); mm[x] = t; evalBegin(&mm);
      bool ok = !evalRec(extra).isZero(); if (ok) for (E *c : dep) if (evalRec(c).isZero()) { ok = false; break; }
      if (ok) { out = mm; }
      if (had) mm[x] = old; else mm.erase(x);
      if (ok) { g_repaired++; return true; } } }
  return false; }

// ---- models of earlier queries, and assignments of boundary and random values ----
static std::vector<Model> g_pool; static uint64_t g_found = 0, g_rng = 88172645463325252ull;
static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }
static bool holds(const std::vector<E*> &cs, const Model &m) { evalBegin(&m); for (E *c : cs) if (evalRec(c).isZero()) return false; return true; }
static bool search(const std::vector<E*> &cs, E *extra, const Model &base, Model &out) {
  std::set<int> ss; for (E *c : cs) for (int x : *c->syms) ss.insert(x);
  if (ss.size() > 24) return false;
  std::vector<int> sy(ss.begin(), ss.end());
  for (int i = (int)g_pool.size() - 1, n = 0; i >= 0 && n < 200; i--, n++) if (holds(cs, g_pool[i])) { out = g_pool[i]; g_found++; return true; }
  double t0 = nowS();
  for (int n = 0; n < 3000 && nowS() - t0 < 0.2; n++) {
    Model m = n % 2 || g_pool.empty() ? base : g_pool[rnd() % g_pool.size()];
    int k = 1 + rnd() % std::min<size_t>(sy.size(), 4);
    for (int j = 0; j < k; j++) { int x = sy[rnd() % sy.size()]; Sym &q = g_syms[x]; APInt hi = q.e->c, lo = q.e->lb, v(q.w, 0);
      switch (rnd() % 8) {
        case 0: v = hi; break; case 1: v = lo; break;
        case 2: { auto it = m.find(sy[rnd() % sy.size()]); if (it != m.end()) { APInt t = it->second.zextOrTrunc(q.w); v = t; if (rnd() % 2) v += (rnd() % 3) - 1; } break; }
        case 3: { auto it = m.find(x); if (it != m.end()) v = it->second + APInt(q.w, rnd() % 7, false) - APInt(q.w, std::min<uint64_t>(3, q.w > 2 ? 3 : 0)); break; }
        default: { unsigned bits = 1 + rnd() % q.w; for (unsigned b = 0; b < q.w; b += 64) { if (b) v = v.shl(64 < q.w ? 64 : 0); v |= APInt(64, rnd()).zextOrTrunc(q.w); } if (bits < q.w) v = v.lshr(q.w - bits); } }
      if (v.ugt(hi)) v = hi; if (v.ult(lo)) v = lo; m[x] = v; }
    if (holds(cs, m)) { out = m; g_found++; return true; } }
  return false; }

// ---- walk: repairs one violated constraint at a time, moving one symbol to
// where the constraint changes (most are monotone in each symbol) ----
static uint64_t g_walked = 0, g_walkTried = 0; static double g_walkTime = 0;
static bool walk(const std::vector<E*> &cs, const Model &start, Model &out, double budget) {
  std::set<int> ss; for (E *c : cs) for (int x : *c->syms) ss.insert(x);
  if (ss.empty() || ss.size() > 24 || cs.size() > 400) return false;
  g_walkTried++; double t0 = nowS(); struct Tm { double t; ~Tm() { g_walkTime += nowS() - t; } } tm{t0};
  std::vector<int> sy(ss.begin(), ss.end()); std::map<int, std::vector<E*>> by; for (E *c : cs) for (int x : *c->syms) by[x].push_back(c);
  auto get = [&](const Model &m, int x) { auto it = m.find(x); return it == m.end() ? APInt(g_syms[x].w, 0) : it->second; };
  auto cost = [&](const std::vector<E*> &l, const Model &m) { evalBegin(&m); int n = 0; for (E *c : l) if (evalRec(c).isZero()) n++; return n; };
  auto at = [&](E *c, Model &m, int x, const APInt &v) { APInt o = get(m, x); m[x] = v; evalBegin(&m); bool r = !evalRec(c).isZero(); m[x] = o; return r; };
  size_t leastN = 1000; std::vector<E*> least;
  // the most promising starts
  std::vector<std::pair<int, const Model*>> st; st.push_back({cost(cs, start), &start});
  for (int i = (int)g_pool.size() - 1, n = 0; i >= 0 && n < 60; i--, n++) st.push_back({cost(cs, g_pool[i]), &g_pool[i]});
  std::stable_sort(st.begin(), st.end(), [](auto &a, auto &b) { return a.first < b.first; });
  for (size_t k = 0; nowS() - t0 < budget; k++) {
    Model m = *st[k % std::min<size_t>(st.size(), 4)].second;
    for (int x : sy) { APInt v = get(m, x); if (v.getBitWidth() != g_syms[x].w) v = v.zextOrTrunc(g_syms[x].w); if (v.ugt(g_syms[x].e->c)) v = g_syms[x].e->c; if (v.ult(g_syms[x].e->lb)) v = g_syms[x].e->lb; m[x] = v; }
    if (k >= 4) for (int x : sy) if (rnd() % 3 == 0) { unsigned w = g_syms[x].w, b = rnd() % (w + 1); APInt v(w, 0); for (unsigned q = 0; q < w; q += 64) v = (w > 64 ? v.shl(64) : APInt(w, 0)) | APInt(64, rnd()).zextOrTrunc(w); v = b ? v.lshr(w - b) : APInt(w, 0); if (v.ugt(g_syms[x].e->c)) v = g_syms[x].e->c; if (v.ult(g_syms[x].e->lb)) v = g_syms[x].e->lb; m[x] = v; }
    for (int stp = 0; stp < 40 && nowS() - t0 < budget; stp++) {
      evalBegin(&m); std::vector<E*> bad; for (E *c : cs) if (evalRec(c).isZero()) bad.push_back(c);
      if (bad.empty()) { out = m; g_walked++; return true; }
      if (getenv("SX_WALK") && bad.size() < leastN) { leastN = bad.size(); least = bad; }
      E *c = bad[rnd() % bad.size()]; int bestX = -1, bestD = 1 << 30; APInt bestV(1, 0);
      for (int x : *c->syms) { Sym &q = g_syms[x]; APInt cur = get(m, x), lo = q.e->lb, hi = q.e->c; int base = cost(by[x], m); std::vector<APInt> cand;
        for (int e = 0; e < 2; e++) { APInt p = e ? hi : lo; if (p == cur) continue;
          if (!at(c, m, x, p)) { // perhaps between
            bool f = false; for (int z = 0; z < 3 && !f; z++) { APInt d = e ? p - cur : cur - p; APInt h = d.lshr(1 + z * (q.w / 6 + 1)); APInt mid = e ? cur + h : cur - h; if (mid != cur && at(c, m, x, mid)) { p = mid; f = true; } } if (!f) continue; }
          APInt f = cur, tr = p; // false at f, true at tr
          for (int i = 0; i < 70; i++) { APInt d = f.ult(tr) ? tr - f : f - tr; if (d.ule(1)) break; APInt h = d.lshr(1); APInt mid = f.ult(tr) ? f + h : f - h; if (at(c, m, x, mid)) tr = mid; else f = mid; }
          cand.push_back(tr); cand.push_back(p); APInt d = tr.ult(p) ? p - tr : tr - p; for (unsigned sh : {1u, 8u, 20u, 40u}) if (sh < q.w) { APInt h = d.lshr(sh); if (!h.isZero()) cand.push_back(tr.ult(p) ? tr + h : tr - h); } }
        for (auto &v : cand) { APInt o = m[x]; m[x] = v; int d = cost(by[x], m) - base; m[x] = o; if (d < bestD || (d == bestD && rnd() % 3 == 0)) { bestD = d; bestX = x; bestV = v; } } }
      if (bestX < 0) break; m[bestX] = bestV; } }
  if (getenv("SX_WALK")) { fprintf(stderr, "walk stuck with %zu of %zu:\n", leastN, cs.size()); for (E *c : least) fprintf(stderr, "    ! %s\n", dump(c, 30).c_str()); }
  return false; }

struct QKeyHash { size_t operator()(const std::vector<uint32_t> &v) const { size_t h = 0; for (auto x : v) h = h * 1000003u + x; return h; } };
static std::unordered_map<std::vector<uint32_t>, std::pair<Res, Model>, QKeyHash> qcache;
static std::unordered_set<std::vector<uint32_t>, QKeyHash> qcacheU; // undecided branches
static FILE *g_qlog = nullptr;

// Decide satisfiability of pc /\ extra. `base` is a model of pc (used for
// symbols outside the slice).
static Res query(const std::vector<E*> &pc, E *extra, const Model &base, Model &out, bool useSlice = true, bool ghost = false) {
  if (isC(extra) && !(ghost && !extra->c.isZero())) { if (extra->c.isZero()) return UNSAT; out = base; return SAT; }
  if (!ghost && repair(pc, extra, base, out)) return SAT;
  bool hard0 = extra->hard;
  if (ghost && isC(extra)) { hard0 = true; useSlice = false; }
  if (!hard0) { double t0 = nowS(); SS.queries++; Model m; Res r = g_inc.check(pc, extra, m); double dt = nowS() - t0; SS.time += dt; if (dt > SS.maxTime) SS.maxTime = dt;
    if (getenv("SX_SLOW") && dt > (getenv("SX_SLOWT") ? atof(getenv("SX_SLOWT")) : 1.0)) fprintf(stderr, "slow inc %.2fs res=%d n=%zu\n  Q %s\n", dt, r, pc.size(), dump(extra, 40).c_str());
    if (r == UNSAT) { SS.unsat++; return r; } if (r == SAT) { SS.sat++; out = base; for (auto &k : m) out[k.first] = k.second; return r; } }
  // slice
  std::vector<E*> cs; cs.push_back(extra);
  if (useSlice) {
    std::unordered_set<int> syms(extra->syms->begin(), extra->syms->end());
    std::vector<char> used(pc.size(), 0); bool changed = true;
    while (changed) { changed = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        bool hit = false; for (int x : *pc[i]->syms) if (syms.count(x)) { hit = true; break; }
        if (hit) { used[i] = 1; cs.push_back(pc[i]); for (int x : *pc[i]->syms) if (syms.insert(x).second) changed = true; }
      } }
  } else for (E *c : pc) cs.push_back(c);
  std::vector<uint32_t> key; for (E *c : cs) key.push_back(c->id); std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  auto merge = [&](const Model &m) { out = base; std::set<int> ss; for (E *c : cs) for (int x : *c->syms) ss.insert(x);
    for (int x : ss) { auto it = m.find(x); out[x] = it == m.end() ? APInt(g_syms[x].w, 0) : it->second; } };
  auto it = qcache.find(key);
  if (it == qcache.end() && !g_effort && qcacheU.count(key)) { SS.cacheHits++; return UNK; }
  if (it != qcache.end()) { SS.cacheHits++; if (it->second.first == SAT) merge(it->second.second); return it->second.first; }
  // contradiction check
  double t0 = nowS(); SS.queries++;
  if (t0 > g_deadline) { SS.unknown++; return UNK; }
  bool hard = false; for (E *c : cs) if (c->hard) hard = true;
  Model m; Res r = UNK;
  unsigned tl = (unsigned)std::min<double>(1e9, std::max(1.0, (g_deadline - t0) * 1000));
  auto lim = [&](unsigned t) { return std::min(t, tl); };
  if (!hard) {
    r = solveInt(cs, m, lim(700), 0);
    if (r == UNK) r = solveBV(cs, m, lim(3000), false);
    if (r == UNK) r = solveInt(cs, m, lim(T_INT / 4), 0);
    if (r == UNK) r = solveBV(cs, m, lim(T_BV), true);
  } else {
    r = solveInt(cs, m, lim(500), 0, 1000);
    if (r == UNK && !getenv("SX_NOLIN") && linUnsat(cs, extra, lim(1500))) r = UNSAT;
    int H = 0; for (E *c : cs) H = std::max<int>(H, c->h);
    if (g_effort) for (int t = (int)extra->h - 1; r == UNK && t >= 1; t--) r = solveInt(cs, m, lim(2000), 0, t);
    if (r == UNK && walk(cs, base, m, g_effort ? 0.6 : 0.3)) r = SAT;
    if (r == UNK && search(cs, extra, base, m)) r = SAT;
    if (g_effort == 0) {
      if (r == UNK) { r = solveInt(cs, m, lim(T_BR), 0); if (r != UNK) g_br[0]++; }
      if (r == UNK) { r = solveInt(cs, m, lim(T_BR), 1); if (r != UNK) g_br[1]++; }
      if (r == UNK) { r = solveBV(cs, m, lim(T_BR), true); if (r != UNK) g_br[2]++; }
    } else {
    if (r == UNK) r = solveInt(cs, m, lim(2000), 0);
    if (r == UNK) r = solveInt(cs, m, lim(8000), 1);
    if (r == UNK) r = solveBV(cs, m, lim(4000), true);
    if (r == UNK) r = solveInt(cs, m, lim(T_INT), 0);
    if (r == UNK) r = solveInt(cs, m, lim(T_INT), 1);
    if (r == UNK) r = solveBV(cs, m, lim(T_BV), true);
    }
  }
  if (g_crosscheck && r != UNK) {
    Model m2; Res r2 = hard ? solveBV(cs, m2, 20000, true) : solveInt(cs, m2, 20000, 0);
    if (r2 != UNK) { g_crosschecked++; if (r2 != r) { fprintf(stderr, "SOLVER DISAGREEMENT %d %d on %s\n", r, r2, dump(extra).c_str()); exit(4); } }
  }
  double dt = nowS() - t0; SS.time += dt; if (dt > SS.maxTime) SS.maxTime = dt;
  if (getenv("SX_SLOW") && dt > (getenv("SX_SLOWT") ? atof(getenv("SX_SLOWT")) : 1.0)) { fprintf(stderr, "slow query %.1fs res=%d hard=%d n=%zu\n  Q %s\n", dt, r, hard, cs.size(), dump(extra, 40).c_str()); if (getenv("SX_SLOW")[0] == '2') for (E *c : cs) fprintf(stderr, "   & %s\n", dump(c, 40).c_str()); }
  if (r == SAT) SS.sat++; else if (r == UNSAT) SS.unsat++; else SS.unknown++;
  if (r == SAT && hard && g_pool.size() < 5000) { Model full = base; for (auto &kv : m) full[kv.first] = kv.second; g_pool.push_back(full); }
  if (r != UNK || g_effort) qcache[key] = {r, m};
  else qcacheU.insert(key);
  if (r == SAT) merge(m);
  return r;
}
