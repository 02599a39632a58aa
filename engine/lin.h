// Linearised products: every product of terms is an unknown real number of its
// own; what relates them are the path condition, the definitions of the
// divisions and products of these with terms which are not negative.  Only
// ever used to show that there is no solution.
#pragma once

struct Lin {
  typedef std::vector<int> Mono; typedef std::map<Mono, APInt> Poly;
  static const unsigned CW = 1536; bool bad = false;
  IntTr t; // bounds and facts known from the path condition
  std::unordered_map<const E*, int> atomOf; std::vector<APInt> lo, hi; // bounds of the atoms
  std::unordered_map<const E*, Poly> memo; std::vector<Poly> facts; std::vector<Poly> pend;
  static APInt C(const APInt &v) { return v.zext(CW); }
  static APInt C(int64_t v) { return APInt(CW, (uint64_t)v, true); }
  void addTo(Poly &p, const Mono &m, const APInt &c) { if (c.isZero()) return; auto it = p.find(m); if (it == p.end()) { p[m] = c; return; } bool ov; it->second = it->second.sadd_ov(c, ov); if (ov) bad = true; if (it->second.isZero()) p.erase(it); }
  Poly add(const Poly &a, const Poly &b, int sg = 1) { Poly r = a; for (auto &k : b) addTo(r, k.first, sg > 0 ? k.second : -k.second); return r; }
  Poly cst(const APInt &c) { Poly p; if (!c.isZero()) p[{}] = c; return p; }
  Poly mul(const Poly &a, const Poly &b) { Poly r; for (auto &x : a) for (auto &y : b) { Mono m; m.resize(x.first.size() + y.first.size()); std::merge(x.first.begin(), x.first.end(), y.first.begin(), y.first.end(), m.begin()); bool ov; APInt c = x.second.smul_ov(y.second, ov); if (ov) bad = true; addTo(r, m, c); } return r; }
  Poly atom(E *e) { auto it = atomOf.find(e); int n; if (it == atomOf.end()) { n = lo.size(); atomOf[e] = n; lo.push_back(C(e->lb)); APInt u = t.ub(e); hi.push_back(C(u)); } else n = it->second; Poly p; p[{n}] = C(1); return p; }
  void fact(const Poly &p) { if (!p.empty()) facts.push_back(p); } // p >= 0
  void le(const Poly &a, const Poly &b) { fact(add(b, a, -1)); }
  void lt(const Poly &a, const Poly &b) { fact(add(add(b, a, -1), cst(C(1)), -1)); }
  Poly quot(E *n, E *d) { // floor(n / d), with its definition
    E *key = mkRaw(UDIV, n->w, n, d); bool isNew = !atomOf.count(key); Poly q = atom(key);
    if (isNew && !d->lb.isZero()) { Poly N = poly(n), D = poly(d), dq = mul(D, q); le(dq, N); lt(N, add(dq, D)); }
    return q; }
  Poly poly(E *e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Poly r; uint32_t w = e->w; if (w > 1024) { bad = true; return r; }
    switch (e->op) {
      case CONST: r = cst(C(e->c)); break;
      case ZEXT: r = poly(e->k[0]); break;
      case ADD:
        if (isC(e->k[1]) && e->k[1]->c.isNegative() && w > 1) { APInt c = -e->k[1]->c;
          if (e->k[0]->lb.uge(c) || t.leFacts.count(mkBin(ULE, mkConst(c), e->k[0]))) { r = add(poly(e->k[0]), cst(C(c)), -1); break; } }
        if (t.addNoWrap(e)) r = add(poly(e->k[0]), poly(e->k[1])); else r = atom(e); break;
      case SUB: if (e->k[0]->lb.uge(e->k[1]->ub) || leqS(e->k[1], e->k[0]) || t.subNoWrap(e)) r = add(poly(e->k[0]), poly(e->k[1]), -1); else r = atom(e); break;
      case MUL: if (t.mulNoWrap(e)) r = mul(poly(e->k[0]), poly(e->k[1])); else r = atom(e); break;
      case CONCAT: r = add(mul(poly(e->k[0]), cst(C(APInt(e->k[1]->w + 1, 1).shl(e->k[1]->w)))), poly(e->k[1])); break;
      case EXTRACT: { E *k = e->k[0]; APInt u = t.ub(k); if (u.getActiveBits() > e->lo + w) { r = atom(e); break; }
        if (e->lo == 0) r = poly(k); else r = quot(k, mkConst(APInt(k->w, 1).shl(e->lo))); break; }
      case UDIV: if (e->k[1]->lb.isZero()) r = atom(e); else r = quot(e->k[0], e->k[1]); break;
      case UREM: if (e->k[1]->lb.isZero()) r = atom(e); else { r = add(poly(e->k[0]), mul(poly(e->k[1]), quot(e->k[0], e->k[1])), -1); } break;
      case ITE: { r = atom(e); memo[e] = r; E *c = e->k[0];
        if (c->op == ULT || c->op == ULE) { const E *p = strip(c->k[0]), *q = strip(c->k[1]), *x = strip(e->k[1]), *y = strip(e->k[2]);
          if (p == x && q == y) { le(r, poly(e->k[1])); le(r, poly(e->k[2])); } else if (p == y && q == x) { le(poly(e->k[1]), r); le(poly(e->k[2]), r); } }
        break; }
      default: r = atom(e);
    }
    if (r.size() > 40) r = atom(e);
    memo[e] = r; return r; }
  void learn(E *c) {
    switch (c->op) {
      case AND: if (c->w == 1) { learn(c->k[0]); learn(c->k[1]); } break;
      case ULE: le(poly(c->k[0]), poly(c->k[1])); break;
      case ULT: lt(poly(c->k[0]), poly(c->k[1])); break;
      case EQ: if (c->k[0]->w > 1) { Poly a = poly(c->k[0]), b = poly(c->k[1]); le(a, b); le(b, a); } break;
      case NOT: if (c->k[0]->op == EQ && isZero(c->k[0]->k[1]) && c->k[0]->k[0]->w > 1) lt(cst(C(0)), poly(c->k[0]->k[0])); 
        else if (c->k[0]->op == OR) { learn(mkNot(c->k[0]->k[0])); learn(mkNot(c->k[0]->k[1])); } break;
      default: break; } }
  static void dnf(E *c, std::vector<std::vector<E*>> &out, int limit = 12) { // alternatives of c
    out.clear();
    if (c->w == 1 && c->op == OR) { std::vector<std::vector<E*>> a, b; dnf(c->k[0], a); dnf(c->k[1], b); out = a; out.insert(out.end(), b.begin(), b.end()); }
    else if (c->op == NOT && c->k[0]->op == AND && c->k[0]->w == 1) { std::vector<std::vector<E*>> a, b; dnf(mkNot(c->k[0]->k[0]), a); dnf(mkNot(c->k[0]->k[1]), b); out = a; out.insert(out.end(), b.begin(), b.end()); }
    else if (c->op == NOT && c->k[0]->op == EQ && c->k[0]->k[0]->w > 1) { E *q = c->k[0]; out.push_back({mkBin(ULT, q->k[0], q->k[1])}); out.push_back({mkBin(ULT, q->k[1], q->k[0])}); }
    else out.push_back({c});
    if ((int)out.size() > limit) { out.clear(); out.push_back({c}); } }
  // no solution?
  bool refute(int level, unsigned tmo) {
    std::vector<Poly> fs = facts; size_t n0 = fs.size();
    if (bad || n0 > 120 || lo.size() > 60) return false;
    // bounds
    for (size_t i = 0; i < lo.size(); i++) { Poly a; a[{(int)i}] = C(1); fs.push_back(add(a, cst(lo[i]), -1)); fs.push_back(add(cst(hi[i]), a, -1)); }
    size_t n1 = fs.size();
    std::set<Mono> seen; for (auto &f : fs) for (auto &k : f) seen.insert(k.first);
    std::vector<Poly> out = fs; std::set<Poly, bool(*)(const Poly&, const Poly&)> dup([](const Poly &a, const Poly &b) { if (a.size() != b.size()) return a.size() < b.size(); auto i = a.begin(), j = b.begin(); for (; i != a.end(); ++i, ++j) { if (i->first != j->first) return i->first < j->first; if (i->second != j->second) return i->second.slt(j->second); } return false; });
    auto deg = [](const Poly &p) { size_t d = 0; for (auto &k : p) d = std::max(d, k.first.size()); return d; };
    // a product is of use when it shares a product of atoms with the others
    auto useful = [&](const Poly &p) { int hit = 0; size_t d = deg(p); for (auto &k : p) if (k.first.size() == d && seen.count(k.first)) hit++; return hit > 0; };
    auto push = [&](const Poly &p) { if (out.size() > 2500 || p.empty() || p.size() > 60 || deg(p) > 5) return; if (dup.insert(p).second) out.push_back(p); };
    std::vector<Mono> mul1; for (size_t i = 0; i < lo.size(); i++) mul1.push_back({(int)i});
    if (level >= 2) for (size_t i = 0; i < lo.size(); i++) for (size_t j = i; j < lo.size(); j++) { mul1.push_back({(int)i, (int)j}); }
    if (level >= 1) {
      for (size_t i = 0; i < n1; i++) for (auto &m : mul1) { Poly mp; mp[m] = C(1); Poly p = mul(fs[i], mp); if (useful(p)) push(p); }
      if (level >= 2) for (size_t i = 0; i < n1; i++) for (size_t j = i; j < n1; j++) if (deg(fs[i]) + deg(fs[j]) <= 4 && fs[i].size() <= 3 && fs[j].size() <= 3 && fs[i].size() + fs[j].size() > 3) { Poly p = mul(fs[i], fs[j]); if (useful(p)) push(p); } }
    if (bad) return false;
    Z3_sort R = Z3_mk_real_sort(Z); std::map<Mono, Z3_ast> var; std::vector<Z3_ast> held; auto H = [&](Z3_ast a) { Z3_inc_ref(Z, a); held.push_back(a); return a; };
    Z3_solver s = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_LRA")); Z3_solver_inc_ref(Z, s); setParams(s, tmo);
    Z3_ast zero = H(Z3_mk_numeral(Z, "0", R));
    for (auto &p : out) { std::vector<Z3_ast> l;
      for (auto &k : p) { llvm::SmallString<200> cs; k.second.toString(cs, 10, true); Z3_ast c = H(Z3_mk_numeral(Z, cs.c_str(), R)); if (k.first.empty()) { l.push_back(c); continue; }
        auto &v = var[k.first]; if (!v) { v = H(Z3_mk_fresh_const(Z, "m", R)); Z3_solver_assert(Z, s, H(Z3_mk_ge(Z, v, zero))); } Z3_ast xs[2] = {c, v}; l.push_back(H(Z3_mk_mul(Z, 2, xs))); }
      Z3_ast sum = H(Z3_mk_add(Z, l.size(), l.data())); Z3_solver_assert(Z, s, H(Z3_mk_ge(Z, sum, zero))); }
    Z3_lbool r = Z3_solver_check(Z, s); Z3_solver_dec_ref(Z, s); for (auto a : held) Z3_dec_ref(Z, a);
    return r == Z3_L_FALSE; }
};
static uint64_t g_linTried = 0, g_linDone = 0; static double g_linTime = 0;
static bool linUnsat(const std::vector<E*> &cs, E *extra, unsigned tmo) {
  g_linTried++; double t0 = nowS(); struct Tm { double t; ~Tm() { g_linTime += nowS() - t; } } tm{t0}; std::vector<std::vector<E*>> alt; Lin::dnf(extra, alt);
  for (auto &a : alt) { Lin l; for (E *c : cs) l.t.learn(c, true); for (E *c : a) l.t.learn(c, true);
    for (E *c : a) l.learn(c); for (E *c : cs) if (c != extra) l.learn(c);
    bool ok = false; for (int lev = 0; lev < 3 && !ok; lev++) ok = l.refute(lev, tmo); if (!ok) return false; }
  g_linDone++; return true; }
