// sx: path-exploring symbolic executor for LLVM bitcode produced by rustc from
// the code under verification.  See DESIGN.md ("Engine").
#include "expr.h"
#include "solver.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include <unistd.h>
#include <functional>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/JSON.h"
#include <sys/resource.h>
#include <fstream>
#include <deque>
using namespace llvm;

// ------------------------------------------------------------------ values
struct Val { uint32_t w = 0; uint64_t c = 0; E *e = nullptr; std::shared_ptr<std::vector<Val>> agg;
  bool conc() const { return !e || e->op == CONST; } };
static inline uint64_t maskw(uint64_t v, uint32_t w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline Val cv(uint32_t w, uint64_t v) { Val r; r.w = w; r.c = maskw(v, w); return r; }
static Val ve(E *e) { Val r; r.w = e->w; if (e->op == CONST && e->w <= 64) r.c = e->c.getZExtValue(); else r.e = e; return r; }
static E *ex(const Val &v) { return v.e ? v.e : mkConst(APInt(v.w, v.c)); }
static APInt apv(const Val &v) { return v.e ? v.e->c : APInt(v.w, v.c); }
static Val vap(const APInt &a) { if (a.getBitWidth() <= 64) return cv(a.getBitWidth(), a.getZExtValue()); Val r; r.w = a.getBitWidth(); r.e = mkConst(a); return r; }

struct SxError { std::string msg; };
[[noreturn]] static void fail(const std::string &m) { throw SxError{m}; }

// ------------------------------------------------------------------ memory
struct SB { E *e; uint32_t idx; };
struct Obj { uint64_t base, size; bool ro = false, heap = false; std::vector<uint8_t> d; std::vector<SB> s; // s empty if no symbolic byte
  std::string name; };
typedef std::shared_ptr<Obj> ObjP;

// ------------------------------------------------------------------ decoded code
struct Opnd { int slot; Val cst; };
struct FnInfo;
struct DInst { Instruction *I; unsigned op; int dst; uint32_t w; std::vector<Opnd> o; bool hit = false; uint64_t imm = 0; int aux = 0;
  FnInfo *callee = nullptr; std::string *ext = nullptr; Intrinsic::ID iid = Intrinsic::not_intrinsic; int kind = 0;
  std::vector<std::pair<int64_t,int>> gep; int64_t gepc = 0; std::vector<std::pair<APInt,int>> cases; int succ[2]; std::vector<uint64_t> offs; };
struct DBlock { std::vector<DInst> in; std::vector<DInst> phis; std::unordered_map<int, int> pred; };
struct FnInfo { Function *F; bool decoded = false; std::vector<DBlock> bb; int nslots = 0; int stub = -1; bool hit = false; };

struct Frame { FnInfo *f; std::vector<Val> r; int bb = 0, ip = 0, prev = -1; int retDst = -1; int retBB = -1; std::vector<uint64_t> allocas; bool tried = false; /* entered by sx_try: a panic inside returns 1 */ };

struct ModelP { std::shared_ptr<const Model> m; };
struct Obs { std::string name; E *v; };
struct State {
  std::vector<Frame> st; std::map<uint64_t, ObjP> mem; std::vector<E*> pc; std::unordered_set<E*> pcs; std::shared_ptr<Model> model;
  std::map<std::string, int> symCnt; std::unordered_map<E*, uint64_t> conc; uint64_t nextAddr; uint64_t steps = 0;
  std::vector<Obs> obs; std::vector<std::pair<std::string,int>> choices; uint64_t id = 0; int depth = 0; std::set<std::string> covers; int asserts = 0;
  bool forkSel = false; // explore the two sides of a selection separately
  bool ghost = false; // an undecided branch was taken: `model` need not satisfy `pc`
};

static std::unique_ptr<Module> M; static LLVMContext Ctx; static const DataLayout *DL;
static std::map<uint64_t, ObjP> g_globals; static std::unordered_map<const GlobalValue*, uint64_t> g_gaddr;
static std::unordered_map<Function*, FnInfo*> g_fn; static std::unordered_map<uint64_t, Function*> g_fnAt;
static std::vector<std::unique_ptr<State>> g_work;
static uint64_t g_caught = 0, g_steps = 0, g_paths = 0, g_panics = 0, g_assumeKilled = 0, g_errors = 0, g_forks = 0, g_asserts = 0, g_assertQ = 0, g_assertUnk = 0, g_branchUnk = 0, g_exits = 0, g_ghostPaths = 0;
static uint64_t g_maxSteps = 200000000; static uint64_t g_maxPaths = 1000000; static double g_start; static int g_maxViol = 3;
static std::map<std::string, uint64_t> g_covers; static std::map<std::string, uint64_t> g_assertTags; static std::map<std::string,uint64_t> g_panicTags; static std::map<std::string,uint64_t> g_errMsgs;
static std::string g_entry, g_modelsOut; static FILE *g_models = nullptr; static uint64_t g_modelsWritten = 0, g_modelsMax = 64;
struct Viol { std::string tag, kind; Model m; std::string where; };
static std::vector<Viol> g_viols; static std::set<std::string> g_violTags;
static bool g_timeout = false;

static Val constVal(const Constant *C);
static uint64_t constAddr(const Constant *C) { Val v = constVal(C); return v.c; }
static uint32_t tyBits(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements() * tyBits(V->getElementType());
  if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32;
  return 0;
}
static bool isAgg(Type *T) { return T->isStructTy() || T->isArrayTy(); }
static unsigned aggN(Type *T) { return T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements(); }
static Type *aggT(Type *T, unsigned i) { return T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); }
static uint64_t aggOff(Type *T, unsigned i) { if (auto *S = dyn_cast<StructType>(T)) return DL->getStructLayout(S)->getElementOffset(i); return i * DL->getTypeAllocSize(T->getArrayElementType()); }
static Val zeroVal(Type *T) {
  if (isAgg(T)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < aggN(T); i++) v.agg->push_back(zeroVal(aggT(T, i))); return v; }
  uint32_t w = tyBits(T); if (w > 64) return vap(APInt(w, 0)); return cv(w, 0);
}
static void storeConst(Obj &o, uint64_t off, const Constant *C) {
  Type *T = C->getType();
  if (isa<UndefValue>(C) || C->isNullValue()) return;
  if (auto *CDS = dyn_cast<ConstantDataSequential>(C)) {
    StringRef raw = CDS->getRawDataValues(); memcpy(&o.d[off], raw.data(), raw.size()); return; }
  if (isa<ConstantStruct>(C) || isa<ConstantArray>(C)) {
    for (unsigned i = 0; i < C->getNumOperands(); i++) storeConst(o, off + aggOff(T, i), cast<Constant>(C->getOperand(i))); return; }
  Val v = constVal(C); APInt a = apv(v); unsigned n = DL->getTypeStoreSize(T);
  APInt z = a.zextOrTrunc(n * 8); for (unsigned i = 0; i < n; i++) o.d[off + i] = z.extractBitsAsZExtValue(8, i * 8);
}
static int64_t gepOffset(const GEPOperator *G) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) fail("const gep"); return off.getSExtValue(); }
static Val constVal(const Constant *C) {
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) return vap(CI->getValue());
  if (isa<ConstantPointerNull>(C)) return cv(64, 0);
  if (isa<UndefValue>(C)) return zeroVal(T);
  if (auto *G = dyn_cast<GlobalValue>(C)) {
    if (auto *A = dyn_cast<GlobalAlias>(G)) return constVal(A->getAliasee());
    auto it = g_gaddr.find(G); if (it == g_gaddr.end()) fail("global without address: " + G->getName().str()); return cv(64, it->second); }
  if (isa<ConstantAggregateZero>(C)) return zeroVal(T);
  if (isa<ConstantFP>(C)) return vap(cast<ConstantFP>(C)->getValueAPF().bitcastToAPInt());
  if (T->isVectorTy()) { auto *V = cast<FixedVectorType>(T); uint32_t ew = tyBits(V->getElementType()); APInt r(tyBits(T), 0);
    for (unsigned i = 0; i < V->getNumElements(); i++) r |= apv(constVal(C->getAggregateElement(i))).zext(tyBits(T)).shl(i * ew); return vap(r); }
  if (isAgg(T)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < aggN(T); i++) v.agg->push_back(constVal(C->getAggregateElement(i))); return v; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
      case Instruction::GetElementPtr: return cv(64, constAddr(CE->getOperand(0)) + gepOffset(cast<GEPOperator>(CE)));
      case Instruction::PtrToInt: case Instruction::Trunc: return vap(apv(constVal(CE->getOperand(0))).zextOrTrunc(tyBits(T)));
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::ZExt: return vap(apv(constVal(CE->getOperand(0))).zextOrTrunc(tyBits(T)));
      case Instruction::Add: return vap(apv(constVal(CE->getOperand(0))) + apv(constVal(CE->getOperand(1))));
      case Instruction::Sub: return vap(apv(constVal(CE->getOperand(0))) - apv(constVal(CE->getOperand(1))));
      default: break;
    } }
  std::string s; raw_string_ostream os(s); C->print(os); fail("constant: " + os.str());
}

static uint64_t g_nextGlobal = 0x100000;
static void initGlobals() {
  for (Function &F : *M) { uint64_t a = 0x10000000 + g_fnAt.size() * 16; g_gaddr[&F] = a; g_fnAt[a] = &F; }
  for (GlobalVariable &G : M->globals()) {
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8;
    uint64_t al = std::max<uint64_t>(16, G.getAlign() ? G.getAlign()->value() : 1);
    g_nextGlobal = (g_nextGlobal + al - 1) / al * al; g_gaddr[&G] = 0x40000000 + g_nextGlobal; g_nextGlobal += sz + 32; }
}
static ObjP globalObj(uint64_t addr);
static std::map<uint64_t, GlobalVariable*> g_gvAt;
static ObjP materialize(GlobalVariable *G) {
  auto o = std::make_shared<Obj>(); o->base = g_gaddr[G]; o->size = DL->getTypeAllocSize(G->getValueType()); o->d.resize(o->size); o->ro = G->isConstant(); o->name = G->getName().str();
  if (G->hasInitializer()) storeConst(*o, 0, G->getInitializer());
  return o;
}

// ------------------------------------------------------------------ decode
enum Kind { K_NONE, K_SX, K_STUB, K_PANIC };
static bool startsWith(const std::string &s, const char *p) { return s.rfind(p, 0) == 0; }
static bool isPanicFn(const std::string &n) {
  static const char *pre[] = {"_ZN4core9panicking", "_ZN3std9panicking", "_ZN4core6result13unwrap_failed", "_ZN4core6option13expect_failed", "_ZN5alloc7raw_vec17capacity_overflow",
    "_ZN5alloc5alloc18handle_alloc_error", "_ZN4core5slice5index", "_ZN4core3str16slice_error_fail", "_ZN4core4cell", "rust_begin_unwind", "_ZN3std7process5abort", "_ZN4core5slice29_$LT$impl", "_ZN3std2rt19lang_start", "__rust_start_panic", "rust_panic", "_ZN4core6option18expect_none_failed", "_ZN5alloc3vec"};
  for (auto p : pre) if (startsWith(n, p)) return true;
  return false;
}
static bool panicNoReturn(Function *F) { return isPanicFn(F->getName().str()) && (F->doesNotReturn() || F->hasFnAttribute(Attribute::NoReturn)); }

static void decode(FnInfo *fi) {
  Function *F = fi->F; fi->decoded = true;
  std::unordered_map<const Value*, int> slot; int n = 0; std::unordered_map<const BasicBlock*, int> bid;
  for (auto &A : F->args()) slot[&A] = n++;
  int b = 0; for (auto &B : *F) { bid[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fi->nslots = n; fi->bb.resize(b);
  auto op = [&](Value *V) -> Opnd { Opnd o; o.slot = -1; if (auto *C = dyn_cast<Constant>(V)) { o.cst = constVal(C); return o; }
    if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return o;
    auto it = slot.find(V); if (it == slot.end()) fail("operand"); o.slot = it->second; return o; };
  for (auto &B : *F) { DBlock &db = fi->bb[bid[&B]];
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DInst d; d.I = &I; d.op = I.getOpcode(); d.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; d.w = I.getType()->isVoidTy() ? 0 : tyBits(I.getType());
      if (auto *P = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) { d.o.push_back(op(P->getIncomingValue(i))); d.offs.push_back(bid[P->getIncomingBlock(i)]); }
        db.phis.push_back(std::move(d)); continue; }
      if (auto *BI = dyn_cast<BranchInst>(&I)) { if (BI->isConditional()) { d.o.push_back(op(BI->getCondition())); d.succ[0] = bid[BI->getSuccessor(0)]; d.succ[1] = bid[BI->getSuccessor(1)]; } else d.succ[0] = bid[BI->getSuccessor(0)]; }
      else if (auto *S = dyn_cast<SwitchInst>(&I)) { d.o.push_back(op(S->getCondition())); for (auto &c : S->cases()) d.cases.push_back({c.getCaseValue()->getValue(), bid[c.getCaseSuccessor()]}); d.succ[0] = bid[S->getDefaultDest()]; }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        d.o.push_back(op(G->getPointerOperand()));
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          if (auto *ST = gi.getStructTypeOrNull()) { d.gepc += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
          else { uint64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *CI = dyn_cast<ConstantInt>(gi.getOperand())) d.gepc += CI->getSExtValue() * (int64_t)sz;
            else { d.o.push_back(op(gi.getOperand())); d.gep.push_back({(int64_t)sz, (int)d.o.size() - 1}); } } }
        if (G->getType()->isVectorTy()) fail("vector gep"); }
      else if (auto *C = dyn_cast<CallBase>(&I)) {
        for (unsigned i = 0; i < C->arg_size(); i++) d.o.push_back(op(C->getArgOperand(i)));
        if (auto *II = dyn_cast<InvokeInst>(&I)) d.succ[0] = bid[II->getNormalDest()];
        Function *cf = C->getCalledFunction();
        if (!cf) if (auto *A = dyn_cast<GlobalAlias>(C->getCalledOperand()->stripPointerCasts())) cf = dyn_cast<Function>(A->getAliasee()->stripPointerCasts());
        if (cf) { d.iid = cf->getIntrinsicID(); auto &fp = g_fn[cf]; if (!fp) { fp = new FnInfo(); fp->F = cf; } d.callee = fp; d.ext = new std::string(cf->getName().str()); }
        else if (C->isInlineAsm()) d.kind = -2;
        else { d.kind = -1; d.o.push_back(op(C->getCalledOperand())); } }
      else if (auto *X = dyn_cast<ExtractValueInst>(&I)) { d.o.push_back(op(X->getAggregateOperand())); for (auto i : X->indices()) d.offs.push_back(i); }
      else if (auto *X = dyn_cast<InsertValueInst>(&I)) { d.o.push_back(op(X->getAggregateOperand())); d.o.push_back(op(X->getInsertedValueOperand())); for (auto i : X->indices()) d.offs.push_back(i); }
      else for (auto &u : I.operands()) d.o.push_back(op(u.get()));
      db.in.push_back(std::move(d)); } }
}

// ------------------------------------------------------------------ memory access
static ObjP *findObj(State &s, uint64_t addr) {
  auto it = s.mem.upper_bound(addr);
  if (it != s.mem.begin()) { --it; if (addr < it->second->base + std::max<uint64_t>(it->second->size, 1)) return &it->second; }
  if (addr >= 0x40000000 && addr < 0x40000000 + g_nextGlobal) {
    auto gt = g_globals.upper_bound(addr);
    if (gt != g_globals.begin()) { --gt; if (addr < gt->second->base + std::max<uint64_t>(gt->second->size, 1)) return &gt->second; }
    auto vt = g_gvAt.upper_bound(addr);
    if (vt != g_gvAt.begin()) { --vt; ObjP o = materialize(vt->second); if (addr < o->base + o->size) { auto &p = g_globals[o->base]; p = o; return &p; } }
  }
  return nullptr;
}
static std::string where(State &s);
static Obj &rd(State &s, uint64_t a, uint64_t n) {
  ObjP *o = findObj(s, a); if (!o || a + n > (*o)->base + (*o)->size) { char buf[64]; snprintf(buf, 64, "out-of-bounds access at %#lx size %lu", a, n); fail(buf); }
  return **o; }
static Obj &wr(State &s, uint64_t a, uint64_t n) {
  ObjP *o = findObj(s, a); if (!o || a + n > (*o)->base + (*o)->size) { char buf[64]; snprintf(buf, 64, "out-of-bounds write at %#lx size %lu", a, n); fail(buf); }
  if ((*o)->ro) fail("write to constant");
  auto g = g_globals.find((*o)->base);
  if (g != g_globals.end() && g->second == *o) { auto c = std::make_shared<Obj>(**o); s.mem[c->base] = c; return *c; }
  if (o->use_count() > 1) *o = std::make_shared<Obj>(**o);
  return **o; }
static Val loadBytes(State &s, uint64_t a, uint32_t nbytes, uint32_t w) {
  Obj &o = rd(s, a, nbytes); uint64_t off = a - o.base;
  bool sym = false; if (!o.s.empty()) for (uint32_t i = 0; i < nbytes; i++) if (o.s[off + i].e) { sym = true; break; }
  if (!sym) { if (nbytes <= 8) { uint64_t v = 0; memcpy(&v, &o.d[off], nbytes); return cv(w, v); }
    APInt v(nbytes * 8, 0); for (uint32_t i = 0; i < nbytes; i++) v.insertBits(o.d[off + i], i * 8, 8); return vap(v.zextOrTrunc(w)); }
  // group
  E *r = nullptr;
  for (uint32_t i = 0; i < nbytes;) {
    E *p; uint32_t j = i + 1;
    if (!o.s[off + i].e) { while (j < nbytes && !o.s[off + j].e) j++; APInt v((j - i) * 8, 0); for (uint32_t k = i; k < j; k++) v.insertBits(o.d[off + k], (k - i) * 8, 8); p = mkConst(v); }
    else { SB b = o.s[off + i]; while (j < nbytes && o.s[off + j].e == b.e && o.s[off + j].idx == b.idx + (j - i)) j++;
      uint32_t lo = b.idx * 8, wd = (j - i) * 8; E *src = b.e;
      if (lo + wd > src->w) { if (src->w <= lo) fail("sb"); p = mkZext(mkExtract(src, lo, src->w - lo), wd); } else p = mkExtract(src, lo, wd); }
    r = r ? mkConcat(p, r) : p; i = j; }
  if (r->w > w) r = mkExtract(r, 0, w); else if (r->w < w) r = mkZext(r, w);
  return ve(r); }
static void storeBytes(State &s, uint64_t a, uint32_t nbytes, const Val &v) {
  Obj &o = wr(s, a, nbytes); uint64_t off = a - o.base;
  if (v.conc()) {
    if (!v.e && nbytes <= 8) { memcpy(&o.d[off], &v.c, nbytes); }
    else { APInt z = apv(v).zextOrTrunc(nbytes * 8); for (uint32_t i = 0; i < nbytes; i++) o.d[off + i] = z.extractBitsAsZExtValue(8, i * 8); }
    if (!o.s.empty()) for (uint32_t i = 0; i < nbytes; i++) o.s[off + i].e = nullptr;
    return; }
  if (o.s.empty()) o.s.resize(o.size, SB{nullptr, 0});
  E *e = v.e; if (e->w != nbytes * 8) e = mkZext(e, nbytes * 8);
  for (uint32_t i = 0; i < nbytes; i++) {
    // narrow to structural parts so that later partial loads stay simple
    o.s[off + i] = SB{e, i}; }
  if (e->op == CONCAT || e->op == ZEXT) for (uint32_t i = 0; i < nbytes; i++) { E *x = mkExtract(e, i * 8, 8); if (isC(x)) { o.d[off + i] = x->c.getZExtValue(); o.s[off + i].e = nullptr; } else if (e->op == CONCAT) { 
      // find the component holding this byte
      E *c = e; uint32_t bit = i * 8; while (true) { if (c->op == CONCAT) { uint32_t lw = c->k[1]->w; if (bit >= lw) { bit -= lw; c = c->k[0]; } else if (bit + 8 <= lw) c = c->k[1]; else break; } else if (c->op == ZEXT && bit + 8 <= c->k[0]->w) c = c->k[0]; else break; }
      if (bit % 8 == 0) o.s[off + i] = SB{c, bit / 8}; else o.s[off + i] = SB{x, 0}; } } }
static Val loadTy(State &s, uint64_t a, Type *T) {
  if (isAgg(T)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < aggN(T); i++) v.agg->push_back(loadTy(s, a + aggOff(T, i), aggT(T, i))); return v; }
  return loadBytes(s, a, DL->getTypeStoreSize(T), tyBits(T)); }
static void storeTy(State &s, uint64_t a, Type *T, const Val &v) {
  if (isAgg(T)) { for (unsigned i = 0; i < aggN(T); i++) storeTy(s, a + aggOff(T, i), aggT(T, i), (*v.agg)[i]); return; }
  storeBytes(s, a, DL->getTypeStoreSize(T), v); }
static uint64_t allocMem(State &s, uint64_t size, uint64_t align, bool heap) {
  if (size > (1ull << 28)) fail("huge allocation");
  align = std::max<uint64_t>(align, 16); uint64_t a = (s.nextAddr + align - 1) / align * align; s.nextAddr = a + size + 32;
  auto o = std::make_shared<Obj>(); o->base = a; o->size = size; o->d.resize(size); o->heap = heap; s.mem[a] = o; return a; }
static std::string loadStr(State &s, uint64_t a, uint64_t n) { std::string r; for (uint64_t i = 0; i < n; i++) { Val v = loadBytes(s, a + i, 1, 8); if (!v.conc()) fail("symbolic string"); r.push_back((char)v.c); } return r; }

// ------------------------------------------------------------------ state control
static const DILocation *curLoc(State &s) { if (s.st.empty()) return nullptr; for (int k = (int)s.st.size() - 1; k >= 0; k--) { Frame &f = s.st[k]; if (f.ip < (int)f.f->bb[f.bb].in.size()) { auto &l = f.f->bb[f.bb].in[f.ip].I->getDebugLoc(); if (l) return l.get(); } } return nullptr; }
static std::string where(State &s) {
  std::string r;
  for (int k = (int)s.st.size() - 1; k >= 0 && r.size() < 1500; k--) { Frame &f = s.st[k]; r += demangle(f.f->F->getName().str());
    if (f.ip < (int)f.f->bb[f.bb].in.size()) { const DILocation *l = f.f->bb[f.bb].in[f.ip].I->getDebugLoc().get(); while (l) { r += " @" + l->getFilename().str() + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); } }
    r += " <- "; }
  return r; }
static void addPC(State &s, E *c) {
  if (isC(c)) return;
  if (c->op == AND) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
  if (c->op == NOT && c->k[0]->op == OR) { addPC(s, mkNot(c->k[0]->k[0])); addPC(s, mkNot(c->k[0]->k[1])); return; }
  if (s.pcs.insert(c).second) s.pc.push_back(c);
  if (c->op == EQ && isC(c->k[1]) && c->k[1]->w <= 64) s.conc[c->k[0]] = c->k[1]->c.getZExtValue(); }
static int known(State &s, E *c) { // 1 true 0 false -1 unknown (syntactic)
  if (isC(c)) return !c->c.isZero();
  if (s.pcs.count(c)) return 1; if (s.pcs.count(mkNot(c))) return 0;
  if (c->op == AND) { int a = known(s, c->k[0]), b = known(s, c->k[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
  if (c->op == OR) { int a = known(s, c->k[0]), b = known(s, c->k[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
  if (c->op == NOT) { int a = known(s, c->k[0]); return a < 0 ? a : !a; }
  if (c->op == EQ && isC(c->k[1]) && c->k[1]->w <= 64) { auto it = s.conc.find(c->k[0]); if (it != s.conc.end()) return it->second == c->k[1]->c.getZExtValue(); }
  // weaker consequences of recorded comparisons
  E *x, *y; int m, sg;
  if (relOf(c, x, y, m, sg)) for (int k = 1; k <= 2; k++) { if (sg && sg != k) continue;
    int may = 7; for (int r : {3, 5, 6}) if (s.pcs.count(relMake(x, y, r, k))) may &= r;
    for (int r : {1, 2, 4}) if (s.pcs.count(relMake(x, y, r, k))) may &= r;
    if ((may & m) == may) return 1; if (!(may & m)) return 0; }
  return -1; }
static bool evalB(E *c, const Model &m) { return !evalE(c, &m).isZero(); }

struct PathEnd { int kind; }; // thrown to end the current path: 0 = assume killed, 1 = panic, 2 = done, 3 = unknown
static void push(std::unique_ptr<State> s) { g_work.push_back(std::move(s)); }

static bool modelOk(const State &s, E *extra, const Model &m) { evalBegin(&m); for (E *c : s.pc) if (evalRec(c).isZero()) return false; return !extra || !evalRec(extra).isZero(); }
// is pc /\ c possible?  UNK means undecided; a state which follows an
// undecided branch has no model of its own until one is found for it.
static Res feasible(State &s, E *c, Model &m, bool deciding = false) {
  g_effort = deciding;
  if (!s.ghost) { Res r = query(s.pc, c, *s.model, m); g_effort = 1; return r; }
  Res r = query(s.pc, c, *s.model, m, true, true); g_effort = 1;
  if (r == SAT && !modelOk(s, c, m)) return UNK;
  return r; }
static bool refuted(State &s, E *c) { // without a model of its own a state need not find one at every branch
  if (isC(c)) return c->c.isZero();
  std::vector<E*> cs{c}; std::unordered_set<int> syms(c->syms->begin(), c->syms->end()); std::vector<char> used(s.pc.size(), 0); bool changed = true;
  while (changed) { changed = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { bool hit = false; for (int x : *s.pc[i]->syms) if (syms.count(x)) { hit = true; break; }
    if (hit) { used[i] = 1; cs.push_back(s.pc[i]); for (int x : *s.pc[i]->syms) if (syms.insert(x).second) changed = true; } } }
  return linUnsat(cs, c, 500); }
static void follow(State &s, E *c, Res r, Model &m) { addPC(s, c); if (r == SAT) { s.model = std::make_shared<Model>(std::move(m)); s.ghost = false; } else s.ghost = true; }

// returns truth value taken in the current state; forks the other side.  An
// undecided side is explored too: that can only add impossible paths.
static bool branchOn(State &s, E *c) {
  int k = known(s, c); if (k >= 0) return k;
  if (!s.ghost) {
    bool side = evalB(c, *s.model); E *other = side ? mkNot(c) : c; E *mine = side ? c : mkNot(c);
    Model m; Res r = feasible(s, other, m);
    if (r != UNSAT) { if (r == UNK) g_branchUnk++; auto n = std::make_unique<State>(s); follow(*n, other, r, m); n->depth++; g_forks++; push(std::move(n)); }
    addPC(s, mine); return side; }
  Model mt, mf;
  if (c->hard && refuted(s, c)) { addPC(s, mkNot(c)); return false; }
  if (c->hard && refuted(s, mkNot(c))) { addPC(s, c); return true; }
  Res rt = feasible(s, c, mt); if (rt == UNSAT) { addPC(s, mkNot(c)); return false; }
  Res rf = feasible(s, mkNot(c), mf);
  if (rt == UNSAT && rf == UNSAT) throw PathEnd{0};
  if (rt != UNSAT && rf != UNSAT) { g_branchUnk++; auto n = std::make_unique<State>(s); follow(*n, mkNot(c), rf, mf); n->depth++; g_forks++; push(std::move(n)); follow(s, c, rt, mt); return true; }
  if (rt != UNSAT) { follow(s, c, rt, mt); return true; }
  follow(s, mkNot(c), rf, mf); return false; }

// concretise: forks over every feasible value (the state copies re-execute the
// current instruction with the value recorded)
// the expression with decided selections replaced; `open` gets an undecided one
static E *decided(State &s, E *e, E *&open, int depth) {
  if (e->op == ITE) { int k = known(s, e->k[0]); if (k >= 0) return decided(s, k ? e->k[1] : e->k[2], open, depth); if (!open) open = e->k[0]; return e; }
  if (depth > 6 || (e->op != ADD && e->op != ZEXT && e->op != EXTRACT && e->op != CONCAT)) return e;
  E *a = decided(s, e->k[0], open, depth + 1), *b = e->op == ADD || e->op == CONCAT ? decided(s, e->k[1], open, depth + 1) : nullptr;
  if (open) return e;
  if (e->op == ADD) return mkBin(ADD, a, b);
  if (e->op == CONCAT) return mkConcat(a, b);
  if (e->op == ZEXT) return mkZext(a, e->w);
  return mkExtract(a, e->lo, e->w); }
static uint64_t concretize(State &s, const Val &v) {
  if (!v.e) return v.c; if (v.e->op == CONST) return v.e->c.getZExtValue();
  auto it = s.conc.find(v.e); if (it != s.conc.end()) return it->second;
  if (s.ghost || v.e->hard) for (int i = 0; i < 64; i++) { // which of some places it is may be easier to tell than the address
    E *open = nullptr; E *d = decided(s, v.e, open, 0);
    if (isC(d)) return s.conc[v.e] = d->c.getZExtValue();
    if (!open) break;
    branchOn(s, open); }
  if (s.ghost) { Model m; Res r = feasible(s, mkC(1, 1), m, true); if (r == UNSAT) throw PathEnd{0}; if (r != SAT) fail("undecided address or size"); s.model = std::make_shared<Model>(m); s.ghost = false; }
  uint64_t first = evalE(v.e, s.model.get()).getZExtValue();
  std::vector<E*> pc = s.pc; E *excl = mkNot(mkBin(EQ, v.e, mkC(v.w, first)));
  int n = 0;
  while (true) { Model m; Res r = query(pc, excl, *s.model, m);
    if (r == UNSAT) break; if (r == UNK) fail("undecided address or size");
    uint64_t x = evalE(v.e, &m).getZExtValue(); E *eq = mkBin(EQ, v.e, mkC(v.w, x));
    auto st = std::make_unique<State>(s); st->model = std::make_shared<Model>(m); addPC(*st, eq); st->conc[v.e] = x; g_forks++; push(std::move(st));
    excl = mkBin(AND, excl, mkNot(eq)); if (++n > 5000) fail("too many values for a symbolic address/size"); }
  addPC(s, mkBin(EQ, v.e, mkC(v.w, first))); s.conc[v.e] = first; return first; }

static void reportViol(State &s, const std::string &tag, const std::string &kind, const Model &m) {
  std::string key = kind + ":" + tag; if (g_violTags.count(key)) return; g_violTags.insert(key); g_viols.push_back({tag, kind, m, where(s)}); }
static void doAssert(State &s, E *c, const std::string &tag) {
  g_asserts++; s.asserts++; g_assertTags[tag]++;
  int k = known(s, c); if (k == 1) return;
  g_assertQ++; Model m; Res r;
  if (k == 0) c = mkC(1, 0);
  if (!s.ghost && !evalB(c, *s.model)) { r = SAT; m = *s.model; }
  else r = feasible(s, mkNot(c), m, true);
  if (r == UNSAT) { addPC(s, c); return; }
  if (r == UNK) { g_assertUnk++; if (getenv("SX_DEBUG")) fprintf(stderr, "undecided assert %s: %s\n", tag.c_str(), dump(c, 30).c_str()); if (isC(c)) throw PathEnd{0}; addPC(s, c); return; }
  reportViol(s, tag, "assert", m);
  // continue on the satisfying side if there is one
  if (isC(c)) throw PathEnd{0};
  if (!s.ghost && evalB(c, *s.model)) { addPC(s, c); return; }
  Model m2; r = feasible(s, c, m2); if (r != SAT) throw PathEnd{0};
  follow(s, c, r, m2); }
static void doAssume(State &s, E *c) {
  int k = known(s, c); if (k == 1) return; if (k == 0) throw PathEnd{0};
  if (!s.ghost && evalB(c, *s.model)) { addPC(s, c); return; }
  Model m; Res r = feasible(s, c, m); if (r == UNSAT) throw PathEnd{0};
  if (r == UNK) g_branchUnk++;
  follow(s, c, r, m); }
static std::string jsonModel(const Model &m) { std::string r = "{"; bool first = true; for (size_t i = 0; i < g_syms.size(); i++) { auto it = m.find(i); if (it == m.end()) continue; if (!first) r += ","; first = false; r += "\"" + g_syms[i].name + "\":\"" + apStr(it->second) + "\""; } return r + "}"; }
static void endPath(State &s, const char *how) {
  if (s.ghost) { g_ghostPaths++; return; }
  if (g_models && g_modelsWritten < g_modelsMax) { g_modelsWritten++;
    std::string o; for (auto &x : s.obs) { o += (o.empty() ? "" : ",") + std::string("[\"") + x.name + "\",\"" + apStr(evalE(x.v, s.model.get())) + "\"]"; }
    std::string ch; for (auto &c : s.choices) ch += (ch.empty() ? "" : ",") + std::string("\"") + c.first + "\":" + std::to_string(c.second);
    // symbols never touched by a constraint default to 0 in both worlds
    fprintf(g_models, "{\"entry\":\"%s\",\"end\":\"%s\",\"model\":%s,\"choices\":{%s},\"obs\":[%s]}\n", g_entry.c_str(), how, jsonModel(*s.model).c_str(), ch.c_str(), o.c_str()); } }

// ------------------------------------------------------------------ arithmetic
static Val bin(unsigned op, const Val &a, const Val &b) {
  uint32_t w = a.w;
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c;
    switch (op) {
      case Instruction::Add: return cv(w, x + y); case Instruction::Sub: return cv(w, x - y); case Instruction::Mul: return cv(w, x * y);
      case Instruction::And: return cv(w, x & y); case Instruction::Or: return cv(w, x | y); case Instruction::Xor: return cv(w, x ^ y);
      case Instruction::Shl: return cv(w, y >= w ? 0 : x << y); case Instruction::LShr: return cv(w, y >= w ? 0 : x >> y);
      case Instruction::UDiv: if (y == 0) fail("udiv by zero"); return cv(w, x / y); case Instruction::URem: if (y == 0) fail("urem by zero"); return cv(w, x % y);
      default: break; } }
  Op o;
  switch (op) { case Instruction::Add: o = ADD; break; case Instruction::Sub: o = SUB; break; case Instruction::Mul: o = MUL; break; case Instruction::UDiv: o = UDIV; break; case Instruction::URem: o = UREM; break;
    case Instruction::SDiv: o = SDIV; break; case Instruction::SRem: o = SREM; break; case Instruction::Shl: o = SHL; break; case Instruction::LShr: o = LSHR; break; case Instruction::AShr: o = ASHR; break;
    case Instruction::And: o = AND; break; case Instruction::Or: o = OR; break; case Instruction::Xor: o = XOR; break; default: fail("binop"); }
  E *x = ex(a), *y = ex(b);
  return ve(mkBin(o, x, y)); }
static E *cmpE(CmpInst::Predicate p, E *a, E *b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkBin(EQ, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(EQ, a, b));
    case CmpInst::ICMP_ULT: return mkBin(ULT, a, b); case CmpInst::ICMP_ULE: return mkBin(ULE, a, b); case CmpInst::ICMP_UGT: return mkBin(ULT, b, a); case CmpInst::ICMP_UGE: return mkBin(ULE, b, a);
    case CmpInst::ICMP_SLT: return mkBin(SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(SLE, a, b); case CmpInst::ICMP_SGT: return mkBin(SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(SLE, b, a);
    default: fail("fcmp"); } }
static Val cmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (!a.e && !b.e) { uint64_t x = a.c, y = b.c; bool r; int sh = 64 - a.w; int64_t sx = (int64_t)(x << sh) >> sh, sy = (int64_t)(y << sh) >> sh;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; default: fail("fcmp"); }
    return cv(1, r); }
  return ve(cmpE(p, ex(a), ex(b))); }
static Val vecMap(Type *T, const Val &a, const Val &b, Type *RT, const std::function<Val(const Val&, const Val&)> &f) {
  auto *V = cast<FixedVectorType>(T); unsigned n = V->getNumElements(); uint32_t ew = tyBits(V->getElementType()); E *r = nullptr; E *x = ex(a), *y = ex(b);
  for (unsigned i = 0; i < n; i++) { Val q = f(ve(mkExtract(x, i * ew, ew)), ve(mkExtract(y, i * ew, ew))); E *qe = ex(q); r = r ? mkConcat(qe, r) : qe; }
  return ve(r); }
static Val pairv(Val a, Val b) { Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(std::move(a)); v.agg->push_back(std::move(b)); return v; }
static Val iteVal(E *c, const Val &a, const Val &b) {
  if (a.agg) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.agg->size(); i++) v.agg->push_back(iteVal(c, (*a.agg)[i], (*b.agg)[i])); return v; }
  return ve(mkIte(c, ex(a), ex(b))); }

#include "exec.h"
