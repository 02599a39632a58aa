static void setReg(Frame &f, int dst, Val v) { if (dst >= 0) f.r[dst] = std::move(v); }
static void jump(State &s, int to) {
  Frame &f = s.st.back(); int from = f.bb; f.prev = from; f.bb = to; f.ip = 0;
  auto &phis = f.f->bb[to].phis; if (phis.empty()) return;
  std::vector<Val> vs; vs.reserve(phis.size());
  for (auto &p : phis) { p.hit = true; bool ok = false; for (size_t i = 0; i < p.offs.size(); i++) if ((int)p.offs[i] == from) { vs.push_back(p.o[i].slot < 0 ? p.o[i].cst : f.r[p.o[i].slot]); ok = true; break; } if (!ok) fail("phi"); }
  for (size_t i = 0; i < phis.size(); i++) f.r[phis[i].dst] = std::move(vs[i]); }
static void popFrame(State &s, Val ret, bool has) {
  Frame f = std::move(s.st.back()); s.st.pop_back(); for (auto a : f.allocas) s.mem.erase(a);
  if (s.st.empty()) throw PathEnd{2};
  if (f.tried) { ret = cv(64, 0); has = true; }
  Frame &c = s.st.back(); if (f.retDst >= 0 && has) c.r[f.retDst] = std::move(ret);
  if (f.retBB >= 0) jump(s, f.retBB); else c.ip++; }
static void enter(State &s, FnInfo *fi, std::vector<Val> args, int dst, int retBB) {
  if (!fi->decoded) decode(fi); fi->hit = true;
  if (s.st.size() > 400) fail("call depth");
  Frame f; f.f = fi; f.r.resize(fi->nslots); for (size_t i = 0; i < args.size() && i < fi->F->arg_size(); i++) f.r[i] = std::move(args[i]);
  unsigned ai = 0; for (auto &A : fi->F->args()) { if (A.hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(A.getParamByValType()); uint64_t src = concretize(s, f.r[ai]); uint64_t p = allocMem(s, sz, 16, false); for (uint64_t k = 0; k < sz; k++) storeBytes(s, p + k, 1, loadBytes(s, src + k, 1, 8)); f.r[ai] = cv(64, p); f.allocas.push_back(p); } ai++; }
  f.retDst = dst; f.retBB = retBB; s.st.push_back(std::move(f)); }
static void copyMem(State &s, uint64_t d, uint64_t sr, uint64_t n) {
  if (n == 0 || d == sr) return;
  rd(s, sr, n); Obj &w = wr(s, d, n); Obj &r = rd(s, sr, n); // wr may replace the source object when shared; re-read
  uint64_t so = sr - r.base, dof = d - w.base;
  if (r.s.empty()) { memmove(&w.d[dof], &r.d[so], n); if (!w.s.empty()) for (uint64_t i = 0; i < n; i++) w.s[dof + i].e = nullptr; return; }
  if (w.s.empty()) w.s.resize(w.size, SB{nullptr, 0});
  memmove(&w.d[dof], &r.d[so], n); memmove(&w.s[dof], &r.s[so], n * sizeof(SB)); }
static E *bytesBE(State &s, uint64_t p, uint64_t n) { E *r = nullptr; for (uint64_t i = 0; i < n; i++) { E *b = ex(loadBytes(s, p + i, 1, 8)); r = r ? mkConcat(r, b) : b; } return r; }
static E *bytesLE(State &s, uint64_t p, uint64_t n) { return ex(loadBytes(s, p, n, n * 8)); }

static Val callExt(State &s, DInst &d, std::vector<Val> &a, bool &handled);
static APInt bound(const Val &v, uint32_t w) { return v.e && v.e->op != CONST ? maxv(w) : apv(v).zextOrTrunc(w); }

static Val intrinsic(State &s, DInst &d, std::vector<Val> &a) {
  Type *T = d.I->getType(); uint32_t w = a.empty() ? 0 : a[0].w;
  auto ov = [&](E *val, E *o) { return pairv(ve(val), ve(o)); };
  switch (d.iid) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::x86_sse2_pause: return Val();
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::ptrmask: return a[0];
    case Intrinsic::threadlocal_address: return a[0];
    case Intrinsic::is_constant: return cv(1, 0);
    case Intrinsic::objectsize: return cv(tyBits(T), ~0ull);
    case Intrinsic::trap: case Intrinsic::debugtrap: throw PathEnd{1};
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, a[2]); uint64_t dd = concretize(s, a[0]), ss = concretize(s, a[1]); copyMem(s, dd, ss, n); return Val(); }
    case Intrinsic::memset: { uint64_t n = concretize(s, a[2]); uint64_t dd = concretize(s, a[0]); if (n == 0) return Val();
      if (a[1].conc() && !a[1].e) { Obj &o = wr(s, dd, n); memset(&o.d[dd - o.base], (int)a[1].c, n); if (!o.s.empty()) for (uint64_t i = 0; i < n; i++) o.s[dd - o.base + i].e = nullptr; }
      else for (uint64_t i = 0; i < n; i++) storeBytes(s, dd + i, 1, a[1]); return Val(); }
    case Intrinsic::uadd_with_overflow: if (!a[0].e && !a[1].e && w <= 64) { uint64_t x = maskw(a[0].c + a[1].c, w); return pairv(cv(w, x), cv(1, x < a[0].c)); }
      { E *sum = mkBin(ADD, mkZext(ex(a[0]), w + 1), mkZext(ex(a[1]), w + 1)); return ov(mkExtract(sum, 0, w), mkBin(ULT, mkConst(maxv(w).zext(w + 1)), sum)); }
    case Intrinsic::usub_with_overflow: return ov(mkBin(SUB, ex(a[0]), ex(a[1])), mkBin(ULT, ex(a[0]), ex(a[1])));
    case Intrinsic::umul_with_overflow: if (!a[0].e && !a[1].e && w <= 64) { unsigned __int128 p = (unsigned __int128)a[0].c * a[1].c; uint64_t x = maskw((uint64_t)p, w); return pairv(cv(w, x), cv(1, p != x)); }
      { E *p = mkBin(MUL, mkZext(ex(a[0]), 2 * w), mkZext(ex(a[1]), 2 * w)); return ov(mkExtract(p, 0, w), mkBin(ULT, mkConst(maxv(w).zext(2 * w)), p)); }
    case Intrinsic::sadd_with_overflow: { E *x = mkBin(ADD, mkSext(ex(a[0]), w + 1), mkSext(ex(a[1]), w + 1)); return ov(mkExtract(x, 0, w), mkNot(mkBin(EQ, mkExtract(x, w, 1), mkExtract(x, w - 1, 1)))); }
    case Intrinsic::ssub_with_overflow: { E *x = mkBin(SUB, mkSext(ex(a[0]), w + 1), mkSext(ex(a[1]), w + 1)); return ov(mkExtract(x, 0, w), mkNot(mkBin(EQ, mkExtract(x, w, 1), mkExtract(x, w - 1, 1)))); }
    case Intrinsic::smul_with_overflow: { E *x = mkBin(MUL, mkSext(ex(a[0]), 2 * w), mkSext(ex(a[1]), 2 * w)); E *r = mkExtract(x, 0, w); return ov(r, mkNot(mkBin(EQ, mkSext(r, 2 * w), x))); }
    case Intrinsic::usub_sat: return ve(mkIte(mkBin(ULT, ex(a[0]), ex(a[1])), mkC(w, 0), mkBin(SUB, ex(a[0]), ex(a[1]))));
    case Intrinsic::uadd_sat: { E *sum = mkBin(ADD, mkZext(ex(a[0]), w + 1), mkZext(ex(a[1]), w + 1)); return ve(mkIte(mkBin(ULT, mkConst(maxv(w).zext(w + 1)), sum), mkConst(maxv(w)), mkExtract(sum, 0, w))); }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
      Intrinsic::ID id = d.iid;
      auto f = [id](const Val &x, const Val &y) { bool sg = id == Intrinsic::smin || id == Intrinsic::smax; bool mx = id == Intrinsic::umax || id == Intrinsic::smax; E *c = mkBin(sg ? SLE : ULE, ex(x), ex(y)); return mx ? ve(mkIte(c, ex(y), ex(x))) : ve(mkIte(c, ex(x), ex(y))); };
      if (T->isVectorTy()) return vecMap(T, a[0], a[1], T, f);
      if (s.forkSel && w >= 32 && !(a[0].conc() && a[1].conc())) { bool sg = id == Intrinsic::smin || id == Intrinsic::smax, mx = id == Intrinsic::umax || id == Intrinsic::smax; E *c = mkBin(sg ? SLE : ULE, ex(a[0]), ex(a[1])); bool le = c->op == CONST ? !c->c.isZero() : branchOn(s, c); return le != mx ? a[0] : a[1]; }
      return f(a[0], a[1]); }
    case Intrinsic::abs: return ve(mkIte(mkBin(SLT, ex(a[0]), mkC(w, 0)), mkBin(SUB, mkC(w, 0), ex(a[0])), ex(a[0])));
    case Intrinsic::bswap: { E *x = ex(a[0]); E *r = nullptr; for (uint32_t i = 0; i < w; i += 8) { E *b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; } return ve(r); }
    case Intrinsic::ctpop: { if (a[0].conc()) return vap(APInt(w, apv(a[0]).popcount())); E *r = mkC(w, 0); for (uint32_t i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(ex(a[0]), i, 1), w)); return ve(r); }
    case Intrinsic::ctlz: { if (a[0].conc()) return vap(APInt(w, apv(a[0]).countl_zero())); E *x = ex(a[0]); unsigned l0 = x->lb.getActiveBits(), l1 = x->ub.getActiveBits(); // number of active bits
      E *r = mkC(w, w - l1); for (unsigned k = l1; k-- > l0;) r = mkIte(mkBin(ULT, x, mkConst(APInt(w, 1).shl(k))), mkC(w, w - k), r); return ve(r); }
    case Intrinsic::cttz: { if (a[0].conc()) return vap(APInt(w, apv(a[0]).countr_zero())); E *r = mkC(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(ex(a[0]), i, 1), mkC(w, i), r); return ve(r); }
    case Intrinsic::bitreverse: { E *r = nullptr; for (uint32_t i = 0; i < w; i++) { E *b = mkExtract(ex(a[0]), i, 1); r = r ? mkConcat(r, b) : b; } return ve(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { E *x = mkConcat(ex(a[0]), ex(a[1])); uint64_t sh = concretize(s, a[2]) % w; if (d.iid == Intrinsic::fshl) return ve(mkExtract(x, w - sh, w)); return ve(mkExtract(x, sh, w)); }
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: case Intrinsic::vector_reduce_umax: case Intrinsic::vector_reduce_umin: {
      auto *V = cast<FixedVectorType>(d.I->getOperand(0)->getType()); uint32_t ew = tyBits(V->getElementType()); E *r = nullptr;
      for (unsigned i = 0; i < V->getNumElements(); i++) { E *x = mkExtract(ex(a[0]), i * ew, ew); if (!r) { r = x; continue; }
        switch (d.iid) { case Intrinsic::vector_reduce_add: r = mkBin(ADD, r, x); break; case Intrinsic::vector_reduce_or: r = mkBin(OR, r, x); break; case Intrinsic::vector_reduce_and: r = mkBin(AND, r, x); break; case Intrinsic::vector_reduce_xor: r = mkBin(XOR, r, x); break;
          case Intrinsic::vector_reduce_umax: r = mkIte(mkBin(ULT, r, x), x, r); break; default: r = mkIte(mkBin(ULT, r, x), r, x); } }
      return ve(r); }
    case Intrinsic::x86_sse2_pmovmskb_128: { E *r = mkC(32, 0); for (int i = 15; i >= 0; i--) { E *b = mkExtract(ex(a[0]), i * 8 + 7, 1); r = i == 15 ? b : mkConcat(r, b); } return ve(mkZext(r, 32)); }
    default: fail("intrinsic " + *d.ext); } }

static E *newSym(State &s, const std::string &nm, uint32_t w, const APInt *ub, uint64_t lb = 0) {
  int n = s.symCnt[nm]++; std::string full = nm + "#" + std::to_string(n);
  return mkSym(full, w, ub, lb); }
static E *wideArg(State &s, uint64_t p, unsigned limbs) { return bytesLE(s, p, limbs * 8); }
static void wideOut(State &s, uint64_t p, unsigned limbs, E *v) { storeBytes(s, p, limbs * 8, ve(v)); }
static bool concretizeAll = false;

static Val callExt(State &s, DInst &d, std::vector<Val> &a, bool &handled) {
  const std::string &n = *d.ext; handled = true;
  if (startsWith(n, "sx_")) {
    if (n == "sx_u64") { std::string nm = loadStr(s, concretize(s, a[0]), concretize(s, a[1])); uint64_t lo = concretize(s, a[2]), hi = concretize(s, a[3]); if (lo == hi) return cv(64, lo);
      uint32_t w = hi < (1ull << 63) ? 64 - __builtin_clzll(hi) : 64; if (w == 0) w = 1; APInt ub(w, hi); E *x = newSym(s, nm, w, &ub, lo); E *z = mkZext(x, 64);
      // not simplified: the declared lower bound holds because of this constraint
      if (lo > 0) doAssume(s, mkRaw(ULE, 1, mkC(w, lo), x)); return ve(z); }
    if (n == "sx_bytes") { std::string nm = loadStr(s, concretize(s, a[0]), concretize(s, a[1])); uint64_t p = concretize(s, a[2]), k = concretize(s, a[3]); E *x = newSym(s, nm, k * 8, nullptr); storeBytes(s, p, k, ve(x)); return Val(); }
    if (n == "sx_choose") { std::string nm = loadStr(s, concretize(s, a[0]), concretize(s, a[1])); uint64_t hi = concretize(s, a[2]); if (hi <= 1) return cv(64, 0);
      // re-execution after a fork must reuse the same symbol
      int cnt = s.symCnt[nm]; APInt ub(32, hi - 1); E *x = mkSym(nm + "#" + std::to_string(cnt), 32, &ub); E *bnd = mkBin(ULE, x, mkConst(ub)); (void)bnd;
      uint64_t v = concretize(s, ve(x)); s.symCnt[nm] = cnt + 1; return cv(64, v); }
    if (n == "sx_assume") { doAssume(s, mkExtract(ex(a[0]), 0, 1)); return Val(); }
    if (n == "sx_assert") { doAssert(s, mkExtract(ex(a[0]), 0, 1), loadStr(s, concretize(s, a[1]), concretize(s, a[2]))); return Val(); }
    if (n == "sx_cover") { std::string t = loadStr(s, concretize(s, a[0]), concretize(s, a[1])); if (!s.ghost) g_covers[t]++; return Val(); }
    if (n == "sx_observe") { std::string t = loadStr(s, concretize(s, a[0]), concretize(s, a[1])); s.obs.push_back({t, ex(a[2])}); return Val(); }
    if (n == "sx_concretize") { return cv(64, concretize(s, a[0])); }
    if (n == "sx_ite") { int k = known(s, mkExtract(ex(a[0]), 0, 1)); if (k >= 0) return k ? a[1] : a[2]; if (s.forkSel) return branchOn(s, mkExtract(ex(a[0]), 0, 1)) ? a[1] : a[2]; return ve(mkIte(mkExtract(ex(a[0]), 0, 1), ex(a[1]), ex(a[2]))); }
    if (n == "sx_fork") { s.forkSel = concretize(s, a[0]) != 0; return Val(); }
    if (n == "sx_end") { throw PathEnd{2}; }
    if (n == "sx_wide") { // (op, limbs, a*, b*, c*, out*) -> u64
      unsigned op = concretize(s, a[0]), L = concretize(s, a[1]); uint32_t w = L * 64; uint64_t pa = concretize(s, a[2]), pb = concretize(s, a[3]), pc = concretize(s, a[4]), po = concretize(s, a[5]);
      E *x = wideArg(s, pa, L), *y = pb ? wideArg(s, pb, L) : nullptr;
      E *top = mkConst(maxv(w).zext(2 * w));
      switch (op) {
        case 0: { E *r = mkBin(ADD, mkZext(x, w + 1), mkZext(y, w + 1)); wideOut(s, po, L, mkExtract(r, 0, w)); return ve(mkZext(mkBin(ULE, r, mkConst(maxv(w).zext(w + 1))), 64)); }
        case 1: { wideOut(s, po, L, mkBin(SUB, x, y)); return ve(mkZext(mkBin(ULE, y, x), 64)); }
        case 2: case 6: { E *z = wideArg(s, pc, L); E *p = mkBin(MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); 
          if (op == 6) p = mkBin(ADD, p, mkBin(SUB, mkZext(z, 2 * w), mkC(2 * w, 1))); // ceiling (product + d - 1)
          E *q = mkBin(UDIV, p, mkZext(z, 2 * w)); wideOut(s, po, L, mkExtract(q, 0, w)); return ve(mkZext(mkBin(ULE, q, top), 64)); }
        case 3: return ve(mkZext(mkBin(ULT, x, y), 64));
        case 4: return ve(mkZext(mkBin(EQ, x, y), 64));
        case 5: { wideOut(s, po, L, mkBin(UDIV, x, y)); return cv(64, 1); }
        case 7: { E *p = mkBin(MUL, mkZext(x, 2 * w), mkZext(y, 2 * w)); wideOut(s, po, L, mkExtract(p, 0, w)); return ve(mkZext(mkBin(ULE, p, top), 64)); }
        case 8: { E *p = mkBin(MUL, mkZext(x, 2 * w), mkZext(y, 2 * w));
          if (p->op == CONST) { // integer square root by bisection
            APInt lo(2 * w, 0), hi = APInt::getMaxValue(w).zext(2 * w); while (lo.ult(hi)) { APInt mid = lo + (hi - lo + 1).lshr(1); if ((mid * mid).ule(p->c)) lo = mid; else hi = mid - 1; }
            wideOut(s, po, L, mkConst(lo.trunc(w))); return cv(64, 1); }
          APInt mx = p->ub; APInt lo(2 * w, 0), hi = APInt::getMaxValue(w).zext(2 * w); while (lo.ult(hi)) { APInt mid = lo + (hi - lo + 1).lshr(1); if ((mid * mid).ule(mx)) lo = mid; else hi = mid - 1; }
          APInt ub = lo.trunc(std::max<unsigned>(1, lo.getActiveBits())); E *r = newSym(s, "sqrt", ub.getBitWidth(), &ub); E *rw = mkZext(r, 2 * w); E *r1 = mkBin(ADD, rw, mkC(2 * w, 1));
          doAssume(s, mkBin(ULE, mkBin(MUL, rw, rw), p)); doAssume(s, mkBin(ULT, p, mkBin(MUL, r1, r1))); wideOut(s, po, L, mkZext(r, w)); return cv(64, 1); }
        default: fail("sx_wide op"); } }
    if (n == "sx_fresh") { // (name, limbs, out): arbitrary value of `limbs` limbs
      std::string nm = loadStr(s, concretize(s, a[0]), concretize(s, a[1])); unsigned L = concretize(s, a[2]); wideOut(s, concretize(s, a[3]), L, newSym(s, nm, L * 64, nullptr)); return Val(); }
    fail("unknown intrinsic " + n);
  }
  if (n == "malloc") return cv(64, allocMem(s, concretize(s, a[0]), 16, true));
  if (n == "calloc") return cv(64, allocMem(s, concretize(s, a[0]) * concretize(s, a[1]), 16, true));
  if (n == "posix_memalign") { uint64_t p = allocMem(s, concretize(s, a[2]), concretize(s, a[1]), true); storeBytes(s, concretize(s, a[0]), 8, cv(64, p)); return cv(32, 0); }
  if (n == "aligned_alloc") return cv(64, allocMem(s, concretize(s, a[1]), concretize(s, a[0]), true));
  if (n == "__rust_alloc" || n == "__rust_alloc_zeroed" || n == "__rdl_alloc" || n == "__rdl_alloc_zeroed") return cv(64, allocMem(s, concretize(s, a[0]), concretize(s, a[1]), true));
  auto freeIt = [&](uint64_t p) { if (!p) return; auto it = s.mem.find(p); if (it == s.mem.end() || !it->second->heap) fail("bad free"); s.mem.erase(it); };
  if (n == "free") { freeIt(concretize(s, a[0])); return Val(); }
  if (n == "__rust_dealloc" || n == "__rdl_dealloc") { freeIt(concretize(s, a[0])); return Val(); }
  auto reallocIt = [&](uint64_t p, uint64_t sz, uint64_t al) { uint64_t q = allocMem(s, sz, al, true); if (p) { Obj &o = rd(s, p, 1 > 0 ? 0 : 0); copyMem(s, q, p, std::min(o.size, sz)); freeIt(p); } return cv(64, q); };
  if (n == "realloc") return reallocIt(concretize(s, a[0]), concretize(s, a[1]), 16);
  if (n == "__rust_realloc" || n == "__rdl_realloc") return reallocIt(concretize(s, a[0]), concretize(s, a[3]), concretize(s, a[2]));
  if (n == "memcpy" || n == "memmove") { copyMem(s, concretize(s, a[0]), concretize(s, a[1]), concretize(s, a[2])); return a[0]; }
  if (n == "memset") { uint64_t p = concretize(s, a[0]), k = concretize(s, a[2]); for (uint64_t i = 0; i < k; i++) storeBytes(s, p + i, 1, ve(mkExtract(ex(a[1]), 0, 8))); return a[0]; }
  if (n == "bcmp" || n == "memcmp") { uint64_t k = concretize(s, a[2]); if (k == 0) return cv(32, 0); uint64_t p = concretize(s, a[0]), q = concretize(s, a[1]);
    if (n == "bcmp") { E *x = bytesLE(s, p, k), *y = bytesLE(s, q, k); return ve(mkIte(mkBin(EQ, x, y), mkC(32, 0), mkC(32, 1))); }
    E *x = bytesBE(s, p, k), *y = bytesBE(s, q, k); return ve(mkIte(mkBin(EQ, x, y), mkC(32, 0), mkIte(mkBin(ULT, x, y), mkC(32, 0xffffffff), mkC(32, 1)))); }
  if (n == "strlen") { uint64_t p = concretize(s, a[0]); uint64_t i = 0; while (true) { Val v = loadBytes(s, p + i, 1, 8); if (!v.conc()) fail("strlen"); if (!v.c) break; i++; } return cv(64, i); }
  if (n == "getenv") return cv(64, 0);
  if (n == "write" ) return a[2];
  if (n == "__rust_no_alloc_shim_is_unstable") return Val();
  handled = false; return Val(); }

static void step(State &s) {
  Frame &f = s.st.back(); DInst &d = f.f->bb[f.bb].in[f.ip]; d.hit = true; s.steps++; g_steps++;
  auto get = [&](int i) -> const Val & { Opnd &o = d.o[i]; return o.slot < 0 ? o.cst : f.r[o.slot]; };
  switch (d.op) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: {
      Type *T = d.I->getType(); unsigned op = d.op; Val r = T->isVectorTy() ? (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor ? bin(op, get(0), get(1)) : vecMap(T, get(0), get(1), T, [op](const Val &x, const Val &y) { return bin(op, x, y); })) : bin(op, get(0), get(1));
      f.r[d.dst] = std::move(r); f.ip++; return; }
    case Instruction::ICmp: { auto *C = cast<ICmpInst>(d.I); Type *OT = C->getOperand(0)->getType(); auto p = C->getPredicate(); Val r = OT->isVectorTy() ? vecMap(OT, get(0), get(1), d.I->getType(), [p](const Val &x, const Val &y) { return cmp(p, x, y); }) : cmp(p, get(0), get(1)); f.r[d.dst] = std::move(r); f.ip++; return; }
    case Instruction::Select: { const Val &c = get(0);
      if (d.I->getOperand(0)->getType()->isVectorTy()) { auto *V = cast<FixedVectorType>(d.I->getType()); uint32_t ew = tyBits(V->getElementType()); E *r = nullptr; E *x = ex(get(1)), *y = ex(get(2)); for (unsigned i = 0; i < V->getNumElements(); i++) { E *q = mkIte(mkExtract(ex(c), i, 1), mkExtract(x, i * ew, ew), mkExtract(y, i * ew, ew)); r = r ? mkConcat(q, r) : q; } f.r[d.dst] = ve(r); f.ip++; return; }
      if (c.conc()) { f.r[d.dst] = Val(c.c ? get(1) : get(2)); f.ip++; return; }
      int k = known(s, ex(c)); if (k >= 0) { f.r[d.dst] = Val(k ? get(1) : get(2)); f.ip++; return; }
      if (s.forkSel && d.w >= 32 && !get(1).agg) { bool t = branchOn(s, ex(c)); f.r[d.dst] = Val(t ? get(1) : get(2)); f.ip++; return; }
      f.r[d.dst] = iteVal(ex(c), get(1), get(2)); f.ip++; return; }
    case Instruction::Br: if (d.o.empty()) { jump(s, d.succ[0]); return; }
      { const Val &c = get(0); bool t = c.conc() ? (c.e ? !c.e->c.isZero() : c.c != 0) : branchOn(s, c.e); jump(s, t ? d.succ[0] : d.succ[1]); return; }
    case Instruction::Switch: { const Val c = get(0);
      if (c.conc()) { APInt v = apv(c); for (auto &k : d.cases) if (k.first == v) { jump(s, k.second); return; } jump(s, d.succ[0]); return; }
      E *x = c.e; std::vector<std::pair<int, E*>> tg; std::map<int, E*> by; E *def = mkC(1, 1); std::vector<int> order;
      for (auto &k : d.cases) { E *q = mkBin(EQ, x, mkConst(k.first)); if (!by.count(k.second)) { by[k.second] = q; order.push_back(k.second); } else by[k.second] = mkBin(OR, by[k.second], q); def = mkBin(AND, def, mkNot(q)); }
      if (!by.count(d.succ[0])) { by[d.succ[0]] = def; order.push_back(d.succ[0]); } else by[d.succ[0]] = mkBin(OR, by[d.succ[0]], def);
      int mine = -1; for (int t : order) { int kn = known(s, by[t]); if (kn == 1) { jump(s, t); return; } if (!s.ghost && mine < 0 && kn != 0 && evalB(by[t], *s.model)) mine = t; }
      if (s.ghost) { std::vector<std::tuple<int, Res, Model>> l; for (int t : order) if (known(s, by[t]) != 0) { Model m; Res r = feasible(s, by[t], m); if (r != UNSAT) l.emplace_back(t, r, std::move(m)); }
        if (l.empty()) throw PathEnd{0}; g_branchUnk++;
        for (size_t i = 1; i < l.size(); i++) { auto n = std::make_unique<State>(s); follow(*n, by[std::get<0>(l[i])], std::get<1>(l[i]), std::get<2>(l[i])); g_forks++; jump(*n, std::get<0>(l[i])); push(std::move(n)); }
        follow(s, by[std::get<0>(l[0])], std::get<1>(l[0]), std::get<2>(l[0])); jump(s, std::get<0>(l[0])); return; }
      if (mine < 0) fail("switch");
      for (int t : order) if (t != mine && known(s, by[t]) != 0) { Model m; Res r = feasible(s, by[t], m); if (r != UNSAT) { if (r == UNK) g_branchUnk++; auto n = std::make_unique<State>(s); follow(*n, by[t], r, m); g_forks++; jump(*n, t); push(std::move(n)); } }
      addPC(s, by[mine]); jump(s, mine); return; }
    case Instruction::Alloca: { auto *A = cast<AllocaInst>(d.I); uint64_t n = concretize(s, get(0)); uint64_t sz = n * (uint64_t)DL->getTypeAllocSize(A->getAllocatedType()); uint64_t p = allocMem(s, sz, A->getAlign().value(), false); f.allocas.push_back(p); f.r[d.dst] = cv(64, p); f.ip++; return; }
    case Instruction::Load: { auto *L = cast<LoadInst>(d.I); uint64_t p = concretize(s, get(0)); f.r[d.dst] = loadTy(s, p, L->getType()); f.ip++; return; }
    case Instruction::Store: { auto *S = cast<StoreInst>(d.I); uint64_t p = concretize(s, get(1)); storeTy(s, p, S->getValueOperand()->getType(), get(0)); f.ip++; return; }
    case Instruction::GetElementPtr: {
      const Val &b = get(0); bool conc = b.conc(); for (auto &g : d.gep) if (!get(g.second).conc()) conc = false;
      if (conc) { uint64_t p = b.c + d.gepc; for (auto &g : d.gep) { const Val &i = get(g.second); int sh = 64 - i.w; p += (uint64_t)g.first * (uint64_t)((int64_t)(i.c << sh) >> sh); } f.r[d.dst] = cv(64, p); }
      else { E *p = ex(b); for (auto &g : d.gep) { E *i = mkSext(ex(get(g.second)), 64); p = mkBin(ADD, p, mkBin(MUL, i, mkC(64, (uint64_t)g.first))); } p = mkBin(ADD, p, mkC(64, (uint64_t)d.gepc)); f.r[d.dst] = ve(p); }
      f.ip++; return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: {
      const Val &x = get(0); Type *T = d.I->getType(); unsigned op = d.op;
      if (T->isVectorTy() && op != Instruction::BitCast) { auto *SV = cast<FixedVectorType>(d.I->getOperand(0)->getType()); uint32_t ew = tyBits(SV->getElementType()), dw = tyBits(cast<FixedVectorType>(T)->getElementType()); E *r = nullptr; for (unsigned i = 0; i < SV->getNumElements(); i++) { E *q = mkExtract(ex(x), i * ew, ew); q = op == Instruction::ZExt ? mkZext(q, dw) : op == Instruction::SExt ? mkSext(q, dw) : mkExtract(q, 0, dw); r = r ? mkConcat(q, r) : q; } f.r[d.dst] = ve(r); f.ip++; return; }
      if (op == Instruction::BitCast || d.w == x.w) { f.r[d.dst] = Val(x); f.ip++; return; }
      if (!x.e && d.w <= 64) { if (op == Instruction::SExt) { int sh = 64 - x.w; f.r[d.dst] = cv(d.w, (uint64_t)((int64_t)(x.c << sh) >> sh)); } else f.r[d.dst] = cv(d.w, x.c); }
      else { E *e = ex(x); f.r[d.dst] = ve(op == Instruction::SExt ? mkSext(e, d.w) : d.w > e->w ? mkZext(e, d.w) : mkExtract(e, 0, d.w)); }
      f.ip++; return; }
    case Instruction::ExtractValue: { const Val *v = &get(0); for (auto i : d.offs) v = &(*v->agg)[i]; Val r = *v; f.r[d.dst] = std::move(r); f.ip++; return; }
    case Instruction::InsertValue: { Val v = get(0); std::function<Val(const Val&, size_t)> ins = [&](const Val &a, size_t k) -> Val { if (k == d.offs.size()) return get(1); Val r; r.agg = std::make_shared<std::vector<Val>>(*a.agg); (*r.agg)[d.offs[k]] = ins((*a.agg)[d.offs[k]], k + 1); return r; }; Val r = ins(v, 0); f.r[d.dst] = std::move(r); f.ip++; return; }
    case Instruction::ExtractElement: { auto *V = cast<FixedVectorType>(d.I->getOperand(0)->getType()); uint32_t ew = tyBits(V->getElementType()); uint64_t i = concretize(s, get(1)); f.r[d.dst] = ve(mkExtract(ex(get(0)), i * ew, ew)); f.ip++; return; }
    case Instruction::InsertElement: { auto *V = cast<FixedVectorType>(d.I->getType()); uint32_t ew = tyBits(V->getElementType()); uint64_t i = concretize(s, get(2)); E *x = ex(get(0)); E *r = nullptr; for (unsigned k = 0; k < V->getNumElements(); k++) { E *q = k == i ? ex(get(1)) : mkExtract(x, k * ew, ew); r = r ? mkConcat(q, r) : q; } f.r[d.dst] = ve(r); f.ip++; return; }
    case Instruction::ShuffleVector: { auto *SV = cast<ShuffleVectorInst>(d.I); auto *V = cast<FixedVectorType>(SV->getOperand(0)->getType()); uint32_t ew = tyBits(V->getElementType()); unsigned n = V->getNumElements(); E *x = ex(get(0)), *y = ex(get(1)); E *r = nullptr; for (int m : SV->getShuffleMask()) { E *q = m < 0 ? mkC(ew, 0) : (unsigned)m < n ? mkExtract(x, m * ew, ew) : mkExtract(y, (m - n) * ew, ew); r = r ? mkConcat(q, r) : q; } f.r[d.dst] = ve(r); f.ip++; return; }
    case Instruction::Freeze: f.r[d.dst] = Val(get(0)); f.ip++; return;
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: { auto *A = cast<AtomicRMWInst>(d.I); uint64_t p = concretize(s, get(0)); Type *T = A->getValOperand()->getType(); Val old = loadTy(s, p, T); Val v = get(1); Val nv;
      switch (A->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = bin(Instruction::Add, old, v); break; case AtomicRMWInst::Sub: nv = bin(Instruction::Sub, old, v); break; case AtomicRMWInst::And: nv = bin(Instruction::And, old, v); break; case AtomicRMWInst::Or: nv = bin(Instruction::Or, old, v); break; case AtomicRMWInst::Xor: nv = bin(Instruction::Xor, old, v); break; default: fail("atomicrmw"); }
      storeTy(s, p, T, nv); f.r[d.dst] = old; f.ip++; return; }
    case Instruction::AtomicCmpXchg: { auto *A = cast<AtomicCmpXchgInst>(d.I); uint64_t p = concretize(s, get(0)); Type *T = A->getNewValOperand()->getType(); Val old = loadTy(s, p, T); Val c = cmp(CmpInst::ICMP_EQ, old, get(1)); if (!c.conc()) fail("symbolic cmpxchg"); if (c.c) storeTy(s, p, T, get(2)); f.r[d.dst] = pairv(old, c); f.ip++; return; }
    case Instruction::Ret: { if (d.o.empty()) popFrame(s, Val(), false); else { Val r = get(0); popFrame(s, std::move(r), true); } return; }
    case Instruction::Unreachable: { throw PathEnd{4}; }
    case Instruction::Call: case Instruction::Invoke: {
      std::vector<Val> a; size_t na = cast<CallBase>(d.I)->arg_size(); a.reserve(na); for (size_t i = 0; i < na; i++) a.push_back(get(i));
      int nb = d.op == Instruction::Invoke ? d.succ[0] : -1;
      if (d.kind == -2) { auto *IA = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand()); if (!IA->getAsmString().empty()) fail("inline asm"); if (nb >= 0) jump(s, nb); else f.ip++; return; }
      FnInfo *fi = d.callee; if (d.kind == -1) { uint64_t p = concretize(s, get(na)); auto it = g_fnAt.find(p); if (it == g_fnAt.end()) fail("indirect call to unknown address"); auto &fp = g_fn[it->second]; if (!fp) { fp = new FnInfo(); fp->F = it->second; } fi = fp; }
      if (d.iid != Intrinsic::not_intrinsic) { Val r = intrinsic(s, d, a); setReg(f, d.dst, std::move(r)); if (nb >= 0) jump(s, nb); else f.ip++; return; }
      Function *F = fi->F;
      if (F->isDeclaration() || F->getName().startswith("__rust_") || F->getName().startswith("__rdl_")) {
        if (F->doesNotReturn() || panicNoReturn(F)) throw PathEnd{1};
        std::string nm = F->getName().str();
        if (nm == "sx_try") { // (f, p) -> 0, or 1 if f(p) panicked
          auto it = g_fnAt.find(concretize(s, a[0])); if (it == g_fnAt.end()) fail("sx_try of an unknown function"); auto &fp = g_fn[it->second]; if (!fp) { fp = new FnInfo(); fp->F = it->second; }
          enter(s, fp, {a[1]}, d.dst, nb); s.st.back().tried = true; return; }
        DInst tmp; DInst *dp = &d; std::string extn = nm; if (d.kind == -1) { tmp.I = d.I; tmp.ext = &extn; dp = &tmp; }
        bool h; Val r = callExt(s, *dp, a, h); if (h) { setReg(s.st.back(), d.dst, std::move(r)); if (nb >= 0) jump(s, nb); else s.st.back().ip++; return; }
        if (F->isDeclaration()) fail("external function " + nm); }
      if (F->doesNotReturn()) { g_panicTags[demangle(F->getName().str())]++; throw PathEnd{1}; }
      if (fi->stub < 0) { StringRef nm = F->getName(); fi->stub = (nm.startswith("_ZN4core3fmt5write17h") || nm.startswith("_ZN4core3fmt9Formatter3pad") || nm.startswith("_ZN4core3fmt9Formatter12pad_integral")) && F->getReturnType()->isIntegerTy() ? 1 : 0; }
      if (fi->stub == 1) { setReg(f, d.dst, cv(tyBits(F->getReturnType()), 0)); if (nb >= 0) jump(s, nb); else s.st.back().ip++; return; } // formatting writes nothing
      enter(s, fi, std::move(a), d.dst, nb); return; }
    default: fail(std::string("instruction ") + d.I->getOpcodeName()); } }

// a panic inside sx_try: back to its caller, without unwinding (as on chain, nothing runs after a panic)
static bool caught(State &s) {
  int k = s.st.size() - 1; while (k > 0 && !s.st[k].tried) k--;
  if (k <= 0) return false;
  while ((int)s.st.size() > k) { Frame f = std::move(s.st.back()); s.st.pop_back(); for (auto a : f.allocas) s.mem.erase(a); if ((int)s.st.size() == k) { Frame &c = s.st.back(); if (f.retDst >= 0) c.r[f.retDst] = cv(64, 1); if (f.retBB >= 0) jump(s, f.retBB); else c.ip++; } }
  g_caught++; return true; }
static void stepC(State &s) { try { step(s); } catch (PathEnd &p) { if (p.kind != 1 || !caught(s)) throw; } }
static void runState(State &s) {
  try { uint64_t cnt = 0; while (true) { stepC(s); if (s.steps > g_maxSteps) fail("step limit"); if ((++cnt & 0xfff) == 0 && nowS() > g_deadline) { g_timeout = true; return; } } }
  catch (PathEnd &p) {
    if (p.kind == 0) g_assumeKilled++;
    else if (p.kind == 2) { g_paths++; endPath(s, "return"); }
    else if (p.kind == 1) { g_panics++; const char *t = "what the harness relies on holds"; // a panic outside sx_try
      if (s.ghost) { Model m; Res r = feasible(s, mkC(1, 1), m, true); if (r == SAT) reportViol(s, t, "panic", m); else if (r == UNK) g_assertUnk++; } else reportViol(s, t, "panic", *s.model); endPath(s, "panic"); }
    else if (p.kind == 4) { g_errors++; g_errMsgs["unreachable reached at " + where(s)]++; } }
  catch (SxError &e) { g_errors++; std::string w = where(s); g_errMsgs[e.msg + " at " + w]++; } }

int main(int argc, char **argv) {
  struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
  std::string bc, out; double tlimit = 600; std::string models; bool list = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--bc") bc = nx(); else if (a == "--entry") g_entry = nx(); else if (a == "--out") out = nx(); else if (a == "--time") tlimit = std::stod(nx()); else if (a == "--models") models = nx();
    else if (a == "--max-models") g_modelsMax = std::stoull(nx()); else if (a == "--max-steps") g_maxSteps = std::stoull(nx()); else if (a == "--t-bv") T_BV = std::stoul(nx()); else if (a == "--t-int") T_INT = std::stoul(nx());
    else if (a == "--crosscheck") g_crosscheck = true; else if (a == "--max-paths") g_maxPaths = std::stoull(nx()); else if (a == "--max-viol") g_maxViol = std::stoi(nx()); else if (a == "--list") list = true; else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; } }
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx); if (!M) { err.print("sx", errs()); return 3; }
  if (list) { for (auto &F : *M) if (F.getName().startswith("h_") && !F.isDeclaration()) outs() << F.getName() << "\n"; return 0; }
  DL = &M->getDataLayout(); g_start = nowS(); g_deadline = g_start + tlimit;
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, z3err);
  if (!models.empty()) g_models = fopen(models.c_str(), "w");
  initGlobals(); for (GlobalVariable &G : M->globals()) g_gvAt[g_gaddr[&G]] = &G;
  Function *F = M->getFunction(g_entry); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", g_entry.c_str()); return 3; }
  auto fi = new FnInfo(); fi->F = F; g_fn[F] = fi;
  std::string fatal;
  try { auto s = std::make_unique<State>(); s->model = std::make_shared<Model>(); s->nextAddr = 0x7000000000ull; enter(*s, fi, {}, -1, -1); push(std::move(s)); } catch (SxError &e) { fatal = e.msg; }
  while (fatal.empty() && !g_work.empty() && !g_timeout && (int)g_viols.size() < g_maxViol && g_paths + g_panics < g_maxPaths) { auto s = std::move(g_work.back()); g_work.pop_back(); runState(*s); }
  bool complete = g_work.empty() && !g_timeout && fatal.empty();
  // coverage by debug scopes
  std::map<std::string, std::set<unsigned>> files; std::set<std::string> fns; uint64_t hitI = 0, totI = 0;
  for (auto &kv : g_fn) if (kv.second && kv.second->decoded) for (auto &b : kv.second->bb) for (auto *vec : {&b.in, &b.phis}) for (auto &d : *vec) { totI++; if (!d.hit) continue; hitI++; const DILocation *l = d.I->getDebugLoc().get(); while (l) { std::string fn = l->getFilename().str(); if (fn.find("programs/") != std::string::npos || fn.find("/src/subject") != std::string::npos) { files[fn].insert(l->getLine()); if (auto *sp = l->getScope()->getSubprogram()) fns.insert(demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str())); } l = l->getInlinedAt(); } }
  json::Object J; J["entry"] = g_entry; J["complete"] = complete; J["fatal"] = fatal; J["timeout"] = g_timeout; J["pending"] = (int64_t)g_work.size(); J["paths"] = (int64_t)g_paths; J["panics"] = (int64_t)g_panics; J["panics_caught"] = (int64_t)g_caught; J["assume_killed"] = (int64_t)g_assumeKilled; J["errors"] = (int64_t)g_errors; J["forks"] = (int64_t)g_forks; J["steps"] = (int64_t)g_steps;
  J["asserts"] = (int64_t)g_asserts; J["asserts_solver"] = (int64_t)g_assertQ; J["assert_unknown"] = (int64_t)g_assertUnk; J["branch_unknown"] = (int64_t)g_branchUnk; J["ghost_paths"] = (int64_t)g_ghostPaths;
  J["queries"] = (int64_t)SS.queries; J["sat"] = (int64_t)SS.sat; J["unsat"] = (int64_t)SS.unsat; J["unknown"] = (int64_t)SS.unknown; J["cache_hits"] = (int64_t)SS.cacheHits; J["solver_s"] = SS.time; J["solver_max_s"] = SS.maxTime; J["bv_queries"] = (int64_t)SS.bv; J["int_queries"] = (int64_t)SS.in; J["lin_tried"] = (int64_t)g_linTried; J["lin_s"] = g_linTime; if (getenv("SX_DEBUG")) fprintf(stderr, "br %lu %lu %lu\n", g_br[0], g_br[1], g_br[2]); J["walk_s"] = g_walkTime; J["walk_tried"] = (int64_t)g_walkTried; J["walk_found"] = (int64_t)g_walked; J["lin_refuted"] = (int64_t)g_linDone; J["crosschecked"] = (int64_t)g_crosschecked;
  J["symbols"] = (int64_t)g_syms.size(); J["ir_instructions_executed"] = (int64_t)hitI; J["ir_instructions_in_functions"] = (int64_t)totI; J["wall_s"] = nowS() - g_start;
  json::Object cov; for (auto &k : g_covers) cov[k.first] = (int64_t)k.second; J["covers"] = std::move(cov); json::Object at; for (auto &k : g_assertTags) at[k.first] = (int64_t)k.second; J["assert_tags"] = std::move(at);
  json::Object pt; for (auto &k : g_panicTags) pt[k.first] = (int64_t)k.second; J["panic_fns"] = std::move(pt); json::Object em; for (auto &k : g_errMsgs) em[k.first] = (int64_t)k.second; J["error_msgs"] = std::move(em);
  json::Array vs; for (auto &v : g_viols) { json::Object o; o["tag"] = v.tag; o["kind"] = v.kind; o["where"] = v.where; json::Object m; for (size_t i = 0; i < g_syms.size(); i++) { auto it = v.m.find(i); if (it != v.m.end()) m[g_syms[i].name] = apStr(it->second); } o["model"] = std::move(m); vs.push_back(std::move(o)); } J["violations"] = std::move(vs);
  json::Array fa; for (auto &x : fns) fa.push_back(x); J["functions"] = std::move(fa); json::Object fl; for (auto &k : files) { json::Array ls; for (auto l : k.second) ls.push_back((int64_t)l); fl[k.first] = std::move(ls); } J["lines"] = std::move(fl);
  std::string str; raw_string_ostream os(str); os << formatv("{0:2}", json::Value(std::move(J))); os.flush();
  if (out.empty()) puts(str.c_str()); else { std::ofstream o(out); o << str << "\n"; }
  if (g_models) fclose(g_models);
  fflush(stdout); _exit(0); }
