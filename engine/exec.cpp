#include <fstream>
// fv: symbolic execution of LLVM IR with contracts.
#include "solve.h"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/Support/xxhash.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <memory>
#include <set>
#include <chrono>
#include <sstream>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
static double nowd() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Unsupported { std::string s; };
[[noreturn]] static void unsup(const std::string &s) { throw Unsupported{s}; }

enum VK : u8 { V_NONE, V_INT, V_SYM, V_PTR, V_SPTR, V_FN, V_VEC };
struct Val; struct VecRep { int rc; std::vector<Val> l; };
struct Val {
  VK k; u8 w; u32 obj; union { u64 c; Term *t; VecRep *v; };
  Val() : k(V_NONE), w(0), obj(0), c(0) {}
  Val(const Val &o) : k(o.k), w(o.w), obj(o.obj), c(o.c) { if (k == V_VEC) v->rc++; }
  Val &operator=(const Val &o) { if (o.k == V_VEC) o.v->rc++; if (k == V_VEC) drop(); k = o.k; w = o.w; obj = o.obj; c = o.c; return *this; }
  ~Val() { if (k == V_VEC) drop(); }
  void drop() { if (--v->rc == 0) delete v; k = V_NONE; }
  static Val I(unsigned w, u64 c) { Val r; r.k = V_INT; r.w = w; r.c = c & maskw(w); return r; }
  static Val T(Term *t) { if (t->isc()) return I(t->w, t->c()); Val r; if (t->k == PTRV) { if (t->p[0] == 0xFFFFFFFFu) { r.k = V_FN; r.c = t->p[1]; r.w = t->w; return r; } r.k = V_PTR; r.obj = t->p[0]; r.c = t->p[1]; r.w = t->w; return r; } r.k = V_SYM; r.w = t->w; r.t = t; return r; }
  static Val P(u32 o, u64 off) { Val r; r.k = V_PTR; r.w = 64; r.obj = o; r.c = off; return r; }
  static Val V(std::vector<Val> &&l) { Val r; r.k = V_VEC; r.v = new VecRep{1, std::move(l)}; return r; }
  bool conc() const { return k == V_INT; }
};

// ---------------------------------------------------------------- memory
enum { O_STACK, O_GLOBAL, O_BUF, O_HEAP };
struct ObjInfo { u64 size, base; u32 align; u8 kind; bool ro, spec, tls, freed; std::string name; const void *fn; };
typedef std::vector<u64> Cells;
static std::vector<ObjInfo> OI;          // object descriptors (global, ids unique)
static inline u64 ccell(u8 b) { return (u64)b << 8 | 1; }
static inline u64 tcell(Term *t, unsigned idx) { return (u64)t | idx << 1; }

static const DataLayout *DLp; static bool BE; static unsigned PW = 64; // pointer width in bits
struct Op; struct Fn;
struct Frame { Fn *f; std::vector<Val> r; int bb, pc, prev; std::vector<u32> objs; u64 sp; };
struct Snap { std::vector<std::shared_ptr<Cells>> m; };
struct State {
  std::vector<Frame> fr; std::vector<std::shared_ptr<Cells>> mem; std::vector<Term *> pc;
  std::shared_ptr<Snap> begin, real; std::vector<std::pair<u32, std::pair<u64, u64>>> ignore; u64 sp; std::vector<std::pair<u32, u32>> marks;
};

// ---------------------------------------------------------------- events
struct Ev { std::string kind, fn, msg, file; unsigned line; u64 count; };
static std::map<std::pair<std::string, const void *>, Ev> EV; static std::vector<std::pair<std::string, const void *>> EVorder;
static std::map<std::string, u64> OBL;   // obligation counters by kind
#define OBLINC(n) do { static u64 &c_ = OBL[n]; c_++; } while (0)
static bool SAFE = true;
struct Fail { std::string what; std::string detail; Cex cex; bool unk; };
static std::vector<Fail> FAILS; static u64 nfail = 0, nproved = 0, nunk = 0;

// ---------------------------------------------------------------- decoded code
struct Opd { int slot; int cidx; };
struct Op { unsigned opc; int dst; std::vector<Opd> o; Instruction *I; u64 a0 = 0, a1 = 0; std::vector<std::pair<Opd, i64>> gep; i64 gbase = 0; unsigned w = 0; Fn *callee = nullptr; Function *cf = nullptr; int bi = 0; std::vector<int> mask; bool inb = false; unsigned align = 1; };
struct Blk { BasicBlock *bb; std::vector<Op> ops; std::vector<Op> phis; };
struct Fn { Function *F; int nslots = 0; std::vector<Blk> b; DenseMap<BasicBlock *, int> bidx; bool spec = false; bool decoded = false; std::vector<Val> consts; std::vector<int> ipd; bool ipdok = false; std::string name; };
static std::unordered_map<Function *, Fn *> FNS; static std::vector<Function *> FNIDX; static std::unordered_map<Function *, u64> FNNUM;
static std::unordered_map<const GlobalVariable *, u32> GVOBJ;
static std::set<std::string> REPL, OPAQUE; static std::set<std::string> usedRepl; static std::set<std::string> execRepo;
static Module *MOD; static LLVMContext CTX;
static u64 STEPS = 0, MAXSTEPS = 4000000000ull; static double T0, TLIM = 800;
static Op *curOp = nullptr; static Fn *curFn = nullptr;
static u64 gbump = 0x10000; static u64 STACK0;

static Fn *getFn(Function *F) { auto it = FNS.find(F); if (it != FNS.end()) return it->second; Fn *f = new Fn; f->F = F; f->name = F->getName().str(); f->spec = F->getFnAttribute("fv-origin").getValueAsString() == "spec"; FNS[F] = f; return f; }
static u64 fnNum(Function *F) { auto it = FNNUM.find(F); if (it != FNNUM.end()) return it->second; FNIDX.push_back(F); return FNNUM[F] = FNIDX.size() - 1; }

static void event(const std::string &kind, const std::string &msg) {
  auto key = std::make_pair(kind, (const void *)(curOp ? curOp->I : nullptr)); auto it = EV.find(key); if (it != EV.end()) { it->second.count++; return; }
  Ev e; e.kind = kind; e.fn = curFn ? curFn->name : ""; e.msg = msg; e.line = 0; e.count = 1;
  if (curOp && curOp->I) { if (const DebugLoc &d = curOp->I->getDebugLoc()) { e.line = d.getLine(); if (auto *s = dyn_cast_or_null<DIScope>(d.getScope())) e.file = s->getFilename().str(); } }
  EV[key] = e; EVorder.push_back(key);
}
static inline bool repoCode() { return curFn && !curFn->spec; }
static void sevent(const std::string &kind, const std::string &msg) { if (SAFE && repoCode()) event(kind, msg); }

// ---------------------------------------------------------------- values <-> terms
static Term *undefVar(unsigned w) { static Term *u[65]; if (!u[w]) u[w] = mkVar(w, "__undef", w, L_UNDEF); return u[w]; }
static Term *toT(const Val &v) {
  switch (v.k) { case V_INT: return mkC(v.w, v.c); case V_SYM: return v.t;
  case V_PTR: { if (v.obj == 0) return mkC(PW, v.c); u64 p[2] = {v.obj, v.c}; return DB.mk(PTRV, PW, 0, p, 2); }
  case V_FN: { u64 p[2] = {0xFFFFFFFFu, v.c}; return DB.mk(PTRV, PW, 0, p, 2); }
  case V_NONE: return nullptr;
  default: unsup("toT kind " + std::to_string(v.k)); }
}
static Val addrOf(const Val &v) { // pointer -> integer
  if (v.k == V_PTR) return Val::I(PW, v.obj ? OI[v.obj].base + v.c : v.c);
  if (v.k == V_SPTR) return Val::T(mkAdd(mkC(PW, OI[v.obj].base), mkExtract(v.t, 0, PW)));
  if (v.k == V_FN) return Val::I(PW, 0x400000 + 16 * v.c); return v;
}
static Val ptrFromInt(State &S, u64 a) {
  if (a == 0) return Val::P(0, 0);
  for (u32 i = OI.size() - 1; i > 0; i--) if (i < S.mem.size() && S.mem[i] && a >= OI[i].base && a <= OI[i].base + OI[i].size) return Val::P(i, a - OI[i].base);
  return Val::P(0, a);
}
static u32 newObj(State &S, u64 size, u64 align, u64 mis, u8 kind, const std::string &name, bool spec) {
  ObjInfo o; o.size = size; o.align = align; o.kind = kind; o.ro = false; o.spec = spec; o.tls = false; o.freed = false; o.name = name; o.fn = nullptr;
  u64 &bp = kind == O_STACK ? S.sp : gbump; u64 a = std::max<u64>(align, 1); u64 b = (bp + 64 + a - 1) / a * a + mis; o.base = b; bp = b + size + 64;
  u32 id = OI.size(); OI.push_back(o); if (S.mem.size() <= id) S.mem.resize(id + 1); S.mem[id] = std::make_shared<Cells>(size, 0); return id;
}
static Term *uninit(u32 obj, u64 off) { static std::unordered_map<u64, Term *> m; u64 k = (u64)obj << 36 | off; Term *&t = m[k]; if (!t) t = mkVar(8, "__uninit_" + OI[obj].name, off, L_UNDEF); return t; }
static Cells &wr(State &S, u32 o) { auto &p = S.mem[o]; if (p.use_count() > 1) p = std::make_shared<Cells>(*p); return *p; }
static Term *cellByte(u32 obj, u64 off, u64 c) { if (c & 1) return mkC(8, c >> 8 & 255); if (!c) return uninit(obj, off); return mkExtract((Term *)(c & ~15ull), 8 * (c >> 1 & 7), 8); }
static Term *cellsToTerm(u32 obj, u64 off, const u64 *c, unsigned n) {
  // significance order
  bool allc = true; for (unsigned i = 0; i < n; i++) if (!(c[i] & 1)) { allc = false; break; }
  if (allc) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (c[i] >> 8 & 255) << 8 * (BE ? n - 1 - i : i); return mkC(8 * n, v); }
  auto at = [&](unsigned s) { return c[BE ? n - 1 - s : s]; };
  u64 f = at(0);
  if (f && !(f & 1) && !(f & 14)) { Term *t = (Term *)(f & ~15ull); if (t->w == 8 * n) { bool ok = true; for (unsigned s = 1; s < n; s++) if (at(s) != tcell(t, s)) { ok = false; break; } if (ok) return t; } }
  std::vector<Term *> ps; for (unsigned s = 0; s < n;) { u64 x = at(s); unsigned mo = off + (BE ? n - 1 - s : s);
    if (x && !(x & 1)) { Term *t = (Term *)(x & ~15ull); unsigned i0 = x >> 1 & 7, q = 1; while (s + q < n && i0 + q < 8 && at(s + q) == tcell(t, i0 + q)) q++; if (t->k == PTRV) unsup("partial pointer load"); ps.push_back(mkExtract(t, 8 * i0, 8 * q)); s += q; }
    else { ps.push_back(cellByte(obj, mo, x)); s++; } }
  return mkConcat(ps);
}
static inline void putTerm(Cells &m, u64 off, Term *t, unsigned n) { if (t->isc()) { for (unsigned i = 0; i < n; i++) m[off + i] = ccell(t->c() >> 8 * (BE ? n - 1 - i : i)); return; } if (t->k == CONCAT && (t->w & 7) == 0) { // store byte aligned parts directly when possible
    } for (unsigned i = 0; i < n; i++) m[off + i] = tcell(t, BE ? n - 1 - i : i); }

// bounds check; returns false if access impossible
static bool chk(State &S, const Val &p, u64 n, unsigned align, const char *what, u64 &off) {
  if (p.k == V_INT) { event("null", std::string(what) + " through integer/null pointer"); unsup("deref int"); }
  if (p.k != V_PTR) unsup(std::string("deref kind ") + std::to_string(p.k));
  OBLINC("memory-bounds");
  if (p.obj == 0) { event("null", std::string(what) + " through null/invalid pointer"); unsup("null dereference"); }
  ObjInfo &o = OI[p.obj];
  if (p.obj >= S.mem.size() || !S.mem[p.obj]) { event("uaf", std::string(what) + " of dead object " + o.name); unsup("dead object"); }
  i64 off_ = (i64)p.c; off = p.c;
  if (off_ < 0 || off + n > o.size) { event("oob", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string(off_) + " of object " + o.name + " (" + std::to_string(o.size) + " bytes)"); return false; }
  if (align > 1) { OBLINC("alignment"); if ((o.base + off) % align) sevent("align", std::string(what) + " with alignment " + std::to_string(align) + " at misaligned address in " + o.name + "+" + std::to_string(off_)); }
  return true;
}
static Val loadScalar(State &S, u32 obj, u64 off, Type *ty) {
  Cells &m = *S.mem[obj];
  if (ty->isPointerTy()) { unsigned n = PW / 8; Term *t = cellsToTerm(obj, off, &m[off], n); if (t->k == PTRV) return Val::T(t); if (t->isc()) return ptrFromInt(S, t->c()); if (t->lab & L_UNDEF) sevent("uninit", "use of uninitialised pointer"); unsup("symbolic pointer load"); }
  unsigned w; if (ty->isIntegerTy()) w = ty->getIntegerBitWidth(); else if (ty->isFloatTy()) w = 32; else if (ty->isDoubleTy()) w = 64; else unsup("load type");
  unsigned n = (w + 7) / 8;
  if (w > 64) { if (w % 64) unsup("wide load"); std::vector<Val> l; unsigned q = w / 64; for (unsigned i = 0; i < q; i++) l.push_back(Val::T(cellsToTerm(obj, off + 8 * (BE ? q - 1 - i : i), &m[off + 8 * (BE ? q - 1 - i : i)], 8))); Val v = Val::V(std::move(l)); v.w = 255; return v; }
  bool allc = true; u64 v = 0; for (unsigned i = 0; i < n; i++) { u64 c = m[off + i]; if (!(c & 1)) { allc = false; break; } v |= (c >> 8 & 255) << 8 * (BE ? n - 1 - i : i); }
  if (allc) return Val::I(w, v);
  Term *t = cellsToTerm(obj, off, &m[off], n); if (8 * n != w) t = mkExtract(t, 0, w);
  if (t->k == PTRV) return addrOf(Val::T(t)); return Val::T(t);
}
static Val loadTy(State &S, u32 obj, u64 off, Type *ty) {
  if (auto *vt = dyn_cast<FixedVectorType>(ty)) { std::vector<Val> l; unsigned n = vt->getNumElements(); u64 es = DLp->getTypeStoreSize(vt->getElementType()); l.reserve(n); for (unsigned i = 0; i < n; i++) l.push_back(loadScalar(S, obj, off + i * es, vt->getElementType())); return Val::V(std::move(l)); }
  if (auto *st = dyn_cast<StructType>(ty)) { std::vector<Val> l; auto *sl = DLp->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) l.push_back(loadTy(S, obj, off + sl->getElementOffset(i), st->getElementType(i))); return Val::V(std::move(l)); }
  if (auto *at = dyn_cast<ArrayType>(ty)) { std::vector<Val> l; u64 es = DLp->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) l.push_back(loadTy(S, obj, off + i * es, at->getElementType())); return Val::V(std::move(l)); }
  return loadScalar(S, obj, off, ty);
}
static void storeTy(Cells &m, u64 off, Type *ty, const Val &v) {
  if (auto *vt = dyn_cast<FixedVectorType>(ty)) { u64 es = DLp->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(m, off + i * es, vt->getElementType(), v.v->l[i]); return; }
  if (auto *st = dyn_cast<StructType>(ty)) { auto *sl = DLp->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(m, off + sl->getElementOffset(i), st->getElementType(i), v.v->l[i]); return; }
  if (auto *at = dyn_cast<ArrayType>(ty)) { u64 es = DLp->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(m, off + i * es, at->getElementType(), v.v->l[i]); return; }
  if (v.k == V_VEC && v.w == 255) { unsigned q = v.v->l.size(); for (unsigned i = 0; i < q; i++) putTerm(m, off + 8 * (BE ? q - 1 - i : i), toT(v.v->l[i]), 8); return; }
  unsigned n = DLp->getTypeStoreSize(ty);
  if (v.k == V_INT) { for (unsigned i = 0; i < n; i++) m[off + i] = ccell(v.c >> 8 * (BE ? n - 1 - i : i)); return; }
  if (v.k == V_NONE) { for (unsigned i = 0; i < n; i++) m[off + i] = 0; return; }
  if (v.k == V_SPTR) unsup("store of symbolic pointer");
  Term *t = toT(v); if (t->w < 8 * n) t = mkZext(t, 8 * n); putTerm(m, off, t, n);
}

// ---------------------------------------------------------------- constants
static Val constVal(Constant *C, State *S);
static Val gepConst(GEPOperator *G, State *S) { Val b = constVal(cast<Constant>(G->getPointerOperand()), S); APInt off(DLp->getIndexTypeSizeInBits(G->getType()), 0); if (!G->accumulateConstantOffset(*DLp, off)) unsup("const gep"); b.c += off.getSExtValue(); return b; }
static Val undefOf(Type *ty) {
  if (auto *vt = dyn_cast<FixedVectorType>(ty)) { std::vector<Val> l; for (unsigned i = 0; i < vt->getNumElements(); i++) l.push_back(undefOf(vt->getElementType())); return Val::V(std::move(l)); }
  if (auto *st = dyn_cast<StructType>(ty)) { std::vector<Val> l; for (auto *e : st->elements()) l.push_back(undefOf(e)); return Val::V(std::move(l)); }
  if (auto *at = dyn_cast<ArrayType>(ty)) { std::vector<Val> l; for (unsigned i = 0; i < at->getNumElements(); i++) l.push_back(undefOf(at->getElementType())); return Val::V(std::move(l)); }
  if (ty->isPointerTy()) return Val::P(0, 0);
  unsigned w = ty->isIntegerTy() ? ty->getIntegerBitWidth() : ty->isDoubleTy() ? 64 : ty->isFloatTy() ? 32 : 0; if (w == 0) return Val();
  if (w > 64) { std::vector<Val> l; for (unsigned i = 0; i < w / 64; i++) l.push_back(Val::T(undefVar(64))); Val v = Val::V(std::move(l)); v.w = 255; return v; }
  return Val::T(undefVar(w));
}
static Val constVal(Constant *C, State *S) {
  Type *ty = C->getType();
  if (isa<UndefValue>(C)) return undefOf(ty);
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { std::vector<Val> l; for (unsigned i = 0; i < ci->getBitWidth() / 64; i++) l.push_back(Val::I(64, ci->getValue().getRawData()[i])); Val v = Val::V(std::move(l)); v.w = 255; return v; } return Val::I(ci->getBitWidth(), ci->getZExtValue()); }
  if (auto *cf = dyn_cast<ConstantFP>(C)) { APInt b = cf->getValueAPF().bitcastToAPInt(); return Val::I(b.getBitWidth(), b.getZExtValue()); }
  if (isa<ConstantPointerNull>(C)) return Val::P(0, 0);
  if (auto *gv = dyn_cast<GlobalVariable>(C)) { auto it = GVOBJ.find(gv); if (it == GVOBJ.end()) unsup("global " + gv->getName().str()); return Val::P(it->second, 0); }
  if (auto *f = dyn_cast<Function>(C)) { Val v; v.k = V_FN; v.w = 64; v.c = fnNum(f); return v; }
  if (auto *ga = dyn_cast<GlobalAlias>(C)) return constVal(ga->getAliasee(), S);
  if (ty->isVectorTy() || ty->isStructTy() || ty->isArrayTy()) {
    unsigned n = ty->isStructTy() ? cast<StructType>(ty)->getNumElements() : ty->isArrayTy() ? cast<ArrayType>(ty)->getNumElements() : cast<FixedVectorType>(ty)->getNumElements();
    std::vector<Val> l; for (unsigned i = 0; i < n; i++) { Constant *e = C->getAggregateElement(i); if (!e) unsup("aggregate constant"); l.push_back(constVal(e, S)); } return Val::V(std::move(l)); }
  if (auto *ce = dyn_cast<ConstantExpr>(C)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) return gepConst(g, S);
    switch (ce->getOpcode()) { case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0), S); case Instruction::PtrToInt: return addrOf(constVal(ce->getOperand(0), S)); case Instruction::IntToPtr: { Val v = constVal(ce->getOperand(0), S); return ptrFromInt(*S, v.c); }
    default: { Constant *f = nullptr; (void)f; unsup(std::string("constexpr ") + ce->getOpcodeName()); } }
  }
  unsup("constant");
}
static void initCells(Cells &m, u64 off, Constant *C, State &S) {
  Type *ty = C->getType(); u64 sz = DLp->getTypeAllocSize(ty);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { for (u64 i = 0; i < sz; i++) m[off + i] = ccell(0); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(C)) { u64 es = cd->getElementByteSize(); for (unsigned i = 0; i < cd->getNumElements(); i++) storeTy(m, off + i * es, cd->getElementType(), constVal(cd->getElementAsConstant(i), &S)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(C)) { u64 es = DLp->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initCells(m, off + i * es, ca->getOperand(i), S); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(C)) { for (u64 i = 0; i < sz; i++) m[off + i] = ccell(0); auto *sl = DLp->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initCells(m, off + sl->getElementOffset(i), cs->getOperand(i), S); return; }
  storeTy(m, off, ty, constVal(C, &S));
}

// ---------------------------------------------------------------- decode
enum { X_GEP = 1000, X_BUILTIN, X_NOP };
static void decode(Fn *f, State &S) {
  if (f->decoded) return; f->decoded = true; Function *F = f->F; DenseMap<Value *, int> slot; int n = 0;
  for (auto &A : F->args()) slot[&A] = n++;
  for (auto &B : *F) { f->bidx[&B] = f->b.size(); f->b.push_back({&B, {}, {}}); for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  f->nslots = n;
  auto opd = [&](Value *V) -> Opd { if (auto *C = dyn_cast<Constant>(V)) { f->consts.push_back(constVal(C, &S)); return {-1, (int)f->consts.size() - 1}; } if (isa<MetadataAsValue>(V) || isa<InlineAsm>(V) || isa<BasicBlock>(V)) return {-2, 0}; return {slot[V], -1}; };
  for (auto &bl : f->b) for (auto &I : *bl.bb) {
      Op op; op.opc = I.getOpcode(); op.I = &I; op.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
      Type *ty = I.getType(); if (ty->isIntegerTy()) op.w = ty->getIntegerBitWidth(); else if (auto *vt = dyn_cast<FixedVectorType>(ty)) { if (vt->getElementType()->isIntegerTy()) op.w = vt->getElementType()->getIntegerBitWidth(); }
      if (auto *ph = dyn_cast<PHINode>(&I)) { for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { op.o.push_back(opd(ph->getIncomingValue(i))); op.mask.push_back(f->bidx[ph->getIncomingBlock(i)]); } bl.phis.push_back(op); continue; }
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        if (g->getType()->isVectorTy()) unsup("vector gep"); op.opc = X_GEP; op.o.push_back(opd(g->getPointerOperand())); op.inb = g->isInBounds();
        for (auto gi = gep_type_begin(g), e = gep_type_end(g); gi != e; ++gi) { Value *ix = gi.getOperand(); if (StructType *st = gi.getStructTypeOrNull()) op.gbase += DLp->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { i64 sc = DLp->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) op.gbase += sc * ci->getSExtValue(); else op.gep.push_back({opd(ix), sc}); } }
        bl.ops.push_back(op); continue; }
      if (auto *cb = dyn_cast<CallInst>(&I)) {
        op.cf = cb->getCalledFunction();
        for (unsigned i = 0; i < cb->arg_size(); i++) op.o.push_back(opd(cb->getArgOperand(i)));
        if (!op.cf) { if (cb->isInlineAsm()) { auto *ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() && ty->isVoidTy()) { op.opc = X_NOP; op.dst = -1; } } else op.o.push_back(opd(cb->getCalledOperand())); }
        else if (op.cf->isIntrinsic()) { StringRef nm = op.cf->getName(); if (nm.starts_with("llvm.dbg") || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.prefetch") || nm.starts_with("llvm.stackrestore") ) { op.opc = X_NOP; op.dst = -1; continue; } }
        bl.ops.push_back(op); continue; }
      if (auto *li = dyn_cast<LoadInst>(&I)) { op.align = li->getAlign().value(); op.o.push_back(opd(li->getPointerOperand())); op.a0 = DLp->getTypeStoreSize(ty); bl.ops.push_back(op); continue; }
      if (auto *si = dyn_cast<StoreInst>(&I)) { op.align = si->getAlign().value(); op.o.push_back(opd(si->getValueOperand())); op.o.push_back(opd(si->getPointerOperand())); op.a0 = DLp->getTypeStoreSize(si->getValueOperand()->getType()); bl.ops.push_back(op); continue; }
      if (auto *br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { op.o.push_back(opd(br->getCondition())); op.a0 = f->bidx[br->getSuccessor(0)]; op.a1 = f->bidx[br->getSuccessor(1)]; } else op.a0 = f->bidx[br->getSuccessor(0)]; bl.ops.push_back(op); continue; }
      if (auto *sw = dyn_cast<SwitchInst>(&I)) { op.o.push_back(opd(sw->getCondition())); bl.ops.push_back(op); continue; }
      if (auto *sv = dyn_cast<ShuffleVectorInst>(&I)) { op.o.push_back(opd(sv->getOperand(0))); op.o.push_back(opd(sv->getOperand(1))); for (int m : sv->getShuffleMask()) op.mask.push_back(m); bl.ops.push_back(op); continue; }
      for (auto &u : I.operands()) op.o.push_back(opd(u.get()));
      bl.ops.push_back(op);
    }
}
static int ipdom(Fn *f, int b) {
  if (!f->ipdok) { PostDominatorTree PDT(*f->F); f->ipd.assign(f->b.size(), -1); for (size_t i = 0; i < f->b.size(); i++) { auto *n = PDT.getNode(f->b[i].bb); if (n && n->getIDom() && n->getIDom()->getBlock()) f->ipd[i] = f->bidx[n->getIDom()->getBlock()]; } f->ipdok = true; }
  return f->ipd[b];
}

// ---------------------------------------------------------------- scalar operations
static void chkUndefUse(Term *t, const char *what) { if (t->lab & L_UNDEF) sevent("uninit", std::string("uninitialised data used in ") + what); }
static const std::vector<Term *> *curPC = nullptr;
static bool ovfProved(unsigned opc, Term *x, Term *y, unsigned w) { // exact arithmetic in 2w (<=64) bits stays in range
  if (DB.abstract || w > 32 || (opc != Instruction::Add && opc != Instruction::Sub && opc != Instruction::Mul)) return false; static std::map<std::pair<const void *, u64>, int> tries; int &n = tries[{curOp ? curOp->I : nullptr, 0}]; if (n > 64) return false; n++;
  if (getenv("FVDBG")) fprintf(stderr, "ovf? %s + %s\n", show(x, 6).c_str(), show(y, 4).c_str());
  unsigned d = 2 * w; Term *a = mkSext(x, d), *b = mkSext(y, d); Term *r = opc == Instruction::Add ? mkAdd(a, b) : opc == Instruction::Sub ? mkSub(a, b) : mkMul(a, b); static const std::vector<Term *> none; bool ok = proveEq(mkSext(mkExtract(r, 0, w), d), r, curPC ? *curPC : none, nullptr) == PROVED; if (ok) { OBLINC("overflow-by-solver"); } return ok; }
static Val binop(unsigned opc, const Val &a, const Val &b, unsigned w, Instruction *I) {
  if (a.k == V_VEC) {
    if (a.w == 255) { // wide integers: bitwise only
      std::vector<Val> l; if (opc == Instruction::And || opc == Instruction::Or || opc == Instruction::Xor) { for (size_t i = 0; i < a.v->l.size(); i++) l.push_back(binop(opc, a.v->l[i], b.v->l[i], 64, nullptr)); Val r = Val::V(std::move(l)); r.w = 255; return r; }
      if ((opc == Instruction::LShr || opc == Instruction::Shl) && b.v->l[0].conc()) { u64 k = b.v->l[0].c; std::vector<Term *> q; for (auto &x : a.v->l) q.push_back(toT(x)); int n = q.size(); 
        for (int i = 0; i < n; i++) { auto bitat = [&](int j) { return j < 0 || j >= n ? mkC(64, 0) : q[j]; }; int ws = k / 64, bs = k % 64; Term *t; if (opc == Instruction::LShr) t = bs ? mkOr(mkLshr(bitat(i + ws), mkC(64, bs)), mkShl(bitat(i + ws + 1), mkC(64, 64 - bs))) : bitat(i + ws); else t = bs ? mkOr(mkShl(bitat(i - ws), mkC(64, bs)), mkLshr(bitat(i - ws - 1), mkC(64, 64 - bs))) : bitat(i - ws); l.push_back(Val::T(t)); } Val r = Val::V(std::move(l)); r.w = 255; return r; }
      unsup("wide integer op"); }
    std::vector<Val> l; size_t n = a.v->l.size(); l.reserve(n); for (size_t i = 0; i < n; i++) l.push_back(binop(opc, a.v->l[i], b.v->l[i], w, I)); return Val::V(std::move(l)); }
  bool nsw = false, nuw = false, exact = false; if (I) { if (auto *o = dyn_cast<OverflowingBinaryOperator>(I)) { nsw = o->hasNoSignedWrap(); nuw = o->hasNoUnsignedWrap(); } if (auto *o = dyn_cast<PossiblyExactOperator>(I)) exact = o->isExact(); } (void)exact;
  if ((a.k == V_PTR || b.k == V_PTR)) return binop(opc, addrOf(a), addrOf(b), w, I);
  if (a.k == V_INT && b.k == V_INT) {
    u64 x = a.c, y = b.c, m = maskw(w); i64 sxx = sx(x, w), sy = sx(y, w);
    switch (opc) {
    case Instruction::Add: if (nsw && SAFE) { OBLINC("signed-overflow"); i128 z = (i128)sxx + sy; if (z > fullS(w).hi || z < fullS(w).lo) sevent("ovf", "signed addition overflow"); } return Val::I(w, x + y);
    case Instruction::Sub: if (nsw && SAFE) { OBLINC("signed-overflow"); i128 z = (i128)sxx - sy; if (z > fullS(w).hi || z < fullS(w).lo) sevent("ovf", "signed subtraction overflow"); } return Val::I(w, x - y);
    case Instruction::Mul: if (nsw && SAFE) { OBLINC("signed-overflow"); i128 z = (i128)sxx * sy; if (z > fullS(w).hi || z < fullS(w).lo) sevent("ovf", "signed multiplication overflow"); } return Val::I(w, x * y);
    case Instruction::And: return Val::I(w, x & y); case Instruction::Or: return Val::I(w, x | y); case Instruction::Xor: return Val::I(w, x ^ y);
    case Instruction::Shl: if (y >= w) { sevent("shift", "shift amount out of range"); return Val::I(w, 0); } if (nsw && SAFE) { i128 z = (i128)sxx << y; if (z > fullS(w).hi || z < fullS(w).lo) sevent("ovf", "signed shift overflow"); } return Val::I(w, x << y);
    case Instruction::LShr: if (y >= w) { sevent("shift", "shift amount out of range"); return Val::I(w, 0); } return Val::I(w, x >> y);
    case Instruction::AShr: if (y >= w) { sevent("shift", "shift amount out of range"); y = w - 1; } return Val::I(w, (u64)(sxx >> y));
    case Instruction::UDiv: if (!y) { event("div0", "division by zero"); unsup("div0"); } return Val::I(w, x / y); case Instruction::URem: if (!y) { event("div0", "division by zero"); unsup("div0"); } return Val::I(w, x % y);
    case Instruction::SDiv: if (!sy) { event("div0", "division by zero"); unsup("div0"); } return Val::I(w, (u64)(i64)((i128)sxx / sy)); case Instruction::SRem: if (!sy) { event("div0", "division by zero"); unsup("div0"); } return Val::I(w, (u64)(i64)((i128)sxx % sy));
    default: unsup(std::string("binop ") + Instruction::getOpcodeName(opc)); } (void)m;
  }
  if (a.k == V_NONE || b.k == V_NONE) unsup("undefined register value");
  Term *x = toT(a), *y = toT(b);
  if (nsw && SAFE && repoCode()) { OBLINC("signed-overflow"); Rng p = rngS(x), q = rngS(y), F = fullS(w); i128 lo, hi; if (opc == Instruction::Add) { lo = p.lo + q.lo; hi = p.hi + q.hi; } else if (opc == Instruction::Sub) { lo = p.lo - q.hi; hi = p.hi - q.lo; } else if (opc == Instruction::Mul && w <= 62) { i128 v[4] = {p.lo * q.lo, p.lo * q.hi, p.hi * q.lo, p.hi * q.hi}; lo = *std::min_element(v, v + 4); hi = *std::max_element(v, v + 4); } else if (opc == Instruction::Shl && y->isc() && y->c() < w && w <= 62) { lo = p.lo << y->c(); hi = p.hi << y->c(); } else { lo = F.lo - 1; hi = F.hi + 1; }
    if ((lo < F.lo || hi > F.hi) && !ovfProved(opc, x, y, w)) sevent("ovf", std::string("signed ") + Instruction::getOpcodeName(opc) + " may overflow"); }
  (void)nuw;
  switch (opc) {
  case Instruction::Add: return Val::T(mkAdd(x, y)); case Instruction::Sub: return Val::T(mkSub(x, y)); case Instruction::Mul: return Val::T(mkMul(x, y));
  case Instruction::And: return Val::T(mkAnd(x, y)); case Instruction::Or: return Val::T(mkOr(x, y)); case Instruction::Xor: return Val::T(mkXor(x, y));
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { OBLINC("shift-range"); if (rngU(y).hi >= w) sevent("shift", "shift amount may be out of range"); return Val::T(opc == Instruction::Shl ? mkShl(x, y) : opc == Instruction::LShr ? mkLshr(x, y) : mkAshr(x, y)); }
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    if ((x->lab | y->lab) & L_SECRET) { bool pow2 = y->isc() && (y->c() & (y->c() - 1)) == 0 && (opc == Instruction::UDiv || opc == Instruction::URem); if (!pow2) sevent("secret-div", "division with secret-dependent operand"); }
    if (rngU(y).lo == 0) sevent("div0", "division by possibly zero value");
    if (opc == Instruction::UDiv) return Val::T(mkUdiv(x, y)); if (opc == Instruction::URem) return Val::T(mkUrem(x, y));
    if (rngS(x).lo >= 0 && rngS(y).lo >= 0) return Val::T(opc == Instruction::SDiv ? mkUdiv(x, y) : mkUrem(x, y));
    Term *sx_ = mkExtract(x, w - 1, 1), *sy_ = mkExtract(y, w - 1, 1); Term *ax = mkIte(sx_, mkNeg(x), x), *ay = mkIte(sy_, mkNeg(y), y);
    if (opc == Instruction::SDiv) { Term *q = mkUdiv(ax, ay); return Val::T(mkIte(mkXor(sx_, sy_), mkNeg(q), q)); } Term *r = mkUrem(ax, ay); return Val::T(mkIte(sx_, mkNeg(r), r)); }
  default: unsup(std::string("binop ") + Instruction::getOpcodeName(opc)); }
}
static Val icmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  if (a.k == V_VEC) { if (a.w == 255) unsup("wide icmp"); std::vector<Val> l; for (size_t i = 0; i < a.v->l.size(); i++) l.push_back(icmp(p, a.v->l[i], b.v->l[i])); return Val::V(std::move(l)); }
  if (a.k == V_PTR || b.k == V_PTR || a.k == V_SPTR || b.k == V_SPTR || a.k == V_FN || b.k == V_FN) return icmp(p, addrOf(a).k == V_VEC ? a : addrOf(a), addrOf(b));
  if (a.k == V_INT && b.k == V_INT) { u64 x = a.c, y = b.c; i64 s = sx(x, a.w), t = sx(y, a.w); bool r; switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break; case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break; default: unsup("icmp"); } return Val::I(1, r); }
  if (a.k == V_NONE || b.k == V_NONE) unsup("undefined register value");
  Term *x = toT(a), *y = toT(b), *r;
  switch (p) { case CmpInst::ICMP_EQ: r = mkEq(x, y); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(x, y)); break; case CmpInst::ICMP_ULT: r = mkUlt(x, y); break; case CmpInst::ICMP_UGT: r = mkUlt(y, x); break; case CmpInst::ICMP_ULE: r = mkNot(mkUlt(y, x)); break; case CmpInst::ICMP_UGE: r = mkNot(mkUlt(x, y)); break; case CmpInst::ICMP_SLT: r = mkSlt(x, y); break; case CmpInst::ICMP_SGT: r = mkSlt(y, x); break; case CmpInst::ICMP_SLE: r = mkNot(mkSlt(y, x)); break; case CmpInst::ICMP_SGE: r = mkNot(mkSlt(x, y)); break; default: unsup("icmp"); }
  return Val::T(r);
}
static Val castv(unsigned opc, const Val &a, unsigned w, State &S) {
  if (a.k == V_VEC && a.w == 255) { if (opc == Instruction::Trunc && w <= 64) return Val::T(mkExtract(toT(a.v->l[0]), 0, w)); if (opc == Instruction::Trunc) { std::vector<Val> l(a.v->l.begin(), a.v->l.begin() + w / 64); Val r = Val::V(std::move(l)); r.w = 255; return r; } unsup("wide cast"); }
  if (a.k == V_VEC) { std::vector<Val> l; for (auto &x : a.v->l) l.push_back(castv(opc, x, w, S)); return Val::V(std::move(l)); }
  if (w > 64) { Term *t = toT(a); std::vector<Val> l; l.push_back(Val::T(opc == Instruction::SExt ? mkSext(t, 64) : mkZext(t, 64))); Val hi = opc == Instruction::SExt ? Val::T(mkSext(mkExtract(t, t->w - 1, 1), 64)) : Val::I(64, 0); for (unsigned i = 1; i < w / 64; i++) l.push_back(hi); Val r = Val::V(std::move(l)); r.w = 255; return r; }
  if (a.k == V_PTR || a.k == V_FN || a.k == V_SPTR) return castv(opc, addrOf(a), w, S);
  if (a.k == V_INT) return Val::I(w, opc == Instruction::SExt ? (u64)sx(a.c, a.w) : a.c);
  if (a.k == V_NONE) unsup("undefined register value");
  Term *t = a.t; if (opc == Instruction::Trunc) return Val::T(mkExtract(t, 0, w)); if (opc == Instruction::ZExt) return Val::T(mkZext(t, w)); return Val::T(mkSext(t, w));
}
static bool isPsel(const Val &v) { return v.k == V_VEC && v.w == 254; }   // pointer chosen by a symbolic condition: {cond, a, b}
static Val psel(Term *c, const Val &a, const Val &b) { auto p = [](const Val &v) { return v.k == V_PTR || v.k == V_SPTR || isPsel(v); }; if (!p(a) || !p(b)) unsup("select between different objects"); std::vector<Val> l{Val::T(c), a, b}; Val r = Val::V(std::move(l)); r.w = 254; return r; }
static Val selectv(Term *c, const Val &a, const Val &b) {
  if (isPsel(a) || isPsel(b)) return psel(c, a, b);
  if (a.k == V_VEC) { std::vector<Val> l; for (size_t i = 0; i < a.v->l.size(); i++) l.push_back(selectv(c, a.v->l[i], b.v->l[i])); Val r = Val::V(std::move(l)); r.w = a.w; return r; }
  if (a.k == V_NONE || b.k == V_NONE) return Val();
  if (a.k == V_PTR || a.k == V_SPTR || b.k == V_SPTR) {
    if ((b.k == V_PTR || b.k == V_SPTR) && a.obj == b.obj && (a.k != V_PTR || b.k != V_PTR || a.c != b.c)) { Term *ta = a.k == V_PTR ? mkC(64, a.c) : a.t, *tb = b.k == V_PTR ? mkC(64, b.c) : b.t; Term *t = mkIte(c, ta, tb); Val r; if (t->isc()) return Val::P(a.obj, t->c()); r.k = V_SPTR; r.w = 64; r.obj = a.obj; r.t = t; return r; }
    if (b.k == V_PTR && a.k == V_PTR && a.obj == b.obj && a.c == b.c) return a; return psel(c, a, b); }
  if (a.k == V_FN || b.k == V_FN) { if (a.k == b.k && a.c == b.c) return a; unsup("select fn"); }
  return Val::T(mkIte(c, toT(a), toT(b)));
}
// regroup bits of a vector/scalar into another vector/scalar type
static Val bitcastv(const Val &a, Type *from, Type *to, State &S) {
  if (from == to) return a; if (from->isPointerTy() && to->isPointerTy()) return a;
  auto ew = [](Type *t) -> unsigned { Type *e = t->getScalarType(); return e->isIntegerTy() ? e->getIntegerBitWidth() : e->isDoubleTy() ? 64 : e->isFloatTy() ? 32 : 0; };
  unsigned fw = ew(from), tw = ew(to); if (!fw || !tw) unsup("bitcast");
  std::vector<Val> l; bool fwide = a.k == V_VEC && a.w == 255; if (a.k == V_VEC) l = a.v->l; else l.push_back(a); if (fwide) fw = 64;
  bool towide = !to->isVectorTy() && tw > 64; if (towide) tw = 64;
  if (fw == tw) { if (to->isVectorTy()) return Val::V(std::move(l)); if (towide) { Val r = Val::V(std::move(l)); r.w = 255; return r; } return l[0]; }
  if (BE) unsup("BE bitcast"); std::vector<Val> out;
  if (fw > tw) { for (auto &x : l) for (unsigned j = 0; j < fw / tw; j++) { if (x.conc()) out.push_back(Val::I(tw, x.c >> (j * tw))); else out.push_back(Val::T(mkExtract(toT(x), j * tw, tw))); } }
  else { unsigned q = tw / fw; for (size_t i = 0; i < l.size(); i += q) { bool allc = true; u64 v = 0; for (unsigned j = 0; j < q; j++) if (l[i + j].conc()) v |= l[i + j].c << (j * fw); else allc = false; if (allc) { out.push_back(Val::I(tw, v)); continue; } std::vector<Term *> ps; for (unsigned j = 0; j < q; j++) ps.push_back(toT(l[i + j])); out.push_back(Val::T(mkConcat(ps))); } }
  if (towide) { Val r = Val::V(std::move(out)); r.w = 255; return r; }
  if (to->isVectorTy()) return Val::V(std::move(out)); return out[0];
}

// ---------------------------------------------------------------- symbolic loads from tables
static Val symLoad(State &S, const Val &p, Type *ty, unsigned align) {
  unsigned n = DLp->getTypeStoreSize(ty); unsigned w = 8 * n; if (!ty->isIntegerTy() || n > 8) unsup("symbolic-address load type");
  Term *off = p.t; ObjInfo &o = OI[p.obj];
  OBLINC("memory-bounds"); if (!S.mem[p.obj]) { event("uaf", "load of dead object"); unsup("dead"); }
  if (off->lab & L_SECRET) sevent("secret-addr", "load address depends on secret data (object " + o.name + ")");
  chkUndefUse(off, "an address");
  // offset = base + value with value's structural mask
  u64 base = 0; Term *x = off; if (x->k == ADD && x->a(0)->isc()) { base = x->a(0)->c(); x = x->a(1); }
  Rng r = rngU(x); if (r.hi > 1 << 20) { Rng s = rngS(off); if (s.hi - s.lo > (1 << 20) || DB.abstract == false) { if (s.lo < 0 || s.hi + n > o.size) { event("oob", "load at symbolic offset may leave object " + o.name); if (DB.abstract) return Val::T(mkAnyFull(w, off->lab)); unsup("symbolic offset range"); } } }
  if (DB.abstract) { Rng s = rngU(off); if (s.hi + n > (i128)o.size) sevent("oob", "load at symbolic offset may leave object " + o.name); u8 lab = off->lab; u64 m = 0; for (u64 i = 0; i < o.size && i < 65536; i++) { u64 c = (*S.mem[p.obj])[i]; if (c && !(c & 1)) { lab |= ((Term *)(c & ~15ull))->lab; m = 255; } else if (c & 1) m |= c >> 8 & 255; else lab |= L_UNDEF; } (void)m; return Val::T(mkAnyFull(w, lab)); }
  u64 nz = nzmask(x); unsigned lowz = nz ? __builtin_ctzll(nz) : 0, top = nz ? 64 - __builtin_clzll(nz) : 1; unsigned iw = top - lowz; if (iw > 16) unsup("symbolic load index width");
  Term *idx = mkExtract(x, lowz, iw); u64 N = 1ull << iw; std::vector<u64> tab; std::vector<Term *> tt; bool sym = false; Cells &m = *S.mem[p.obj]; u64 maxi = (u64)r.hi >> lowz;
  for (u64 i = 0; i < N; i++) { u64 of = base + (i << lowz); if (of + n > o.size) { if (i <= maxi) { if (DB.abstract == false) event("oob", "load at symbolic offset may leave object " + o.name); maxi = 0; } if (tt.empty()) unsup("symbolic oob"); tt.push_back(tt.back()); tab.push_back(tab.back()); continue; } Term *t = cellsToTerm(p.obj, of, &m[of], n); if (!t->isc()) sym = true; tt.push_back(t); tab.push_back(t->isc() ? t->c() : 0); }
  if (!sym) return Val::T(mkExtract(mkLookup(w, tab, idx), 0, ty->getIntegerBitWidth()));
  if (N > 512) unsup("symbolic load from symbolic memory");
  std::function<Term *(u64, u64, int)> rec = [&](u64 lo, u64 hi, int b) -> Term * { if (hi - lo == 1) return tt[lo]; u64 mid = (lo + hi) / 2; return mkIte(mkExtract(idx, b, 1), rec(mid, hi, b - 1), rec(lo, mid, b - 1)); };
  return Val::T(rec(0, N, iw - 1));
}

// ---------------------------------------------------------------- AES-NI semantics (Intel SDM / FIPS-197)
static std::vector<u64> aesSbox() { static std::vector<u64> sb; if (!sb.empty()) return sb; sb.resize(256); u8 p = 1, q = 1; do { p = p ^ (p << 1) ^ (p & 0x80 ? 0x1B : 0); q ^= q << 1; q ^= q << 2; q ^= q << 4; if (q & 0x80) q ^= 0x09; u8 x = q ^ (q << 1 | q >> 7) ^ (q << 2 | q >> 6) ^ (q << 3 | q >> 5) ^ (q << 4 | q >> 4); sb[p] = x ^ 0x63; } while (p != 1); sb[0] = 0x63; return sb; }
static Term *subb(Term *b) { if (b->lab & L_SECRET) {} return DB.abstract && !b->isc() ? mkAnyFull(8, b->lab) : mkLookup(8, aesSbox(), b); }
static Term *xtime(Term *b) { return mkXor(mkShl(b, mkC(8, 1)), mkMul(mkZext(mkExtract(b, 7, 1), 8), mkC(8, 0x1b))); }
static std::vector<Term *> bytesOf(const Val &v) { std::vector<Term *> o; for (auto &x : v.v->l) { Term *t = toT(x); for (unsigned i = 0; i < t->w / 8u; i++) o.push_back(mkExtract(t, 8 * i, 8)); } return o; }
static Val fromBytes(const std::vector<Term *> &b, unsigned ew) { std::vector<Val> l; for (size_t i = 0; i < b.size(); i += ew / 8) { std::vector<Term *> p(b.begin() + i, b.begin() + i + ew / 8); l.push_back(Val::T(mkConcat(p))); } return Val::V(std::move(l)); }

// ---------------------------------------------------------------- execution
enum Stop { S_DONE, S_STOP, S_DEAD };
static std::vector<State> WORK; static std::set<u64> VISITED; static int NEST = 0; static u64 nchoose = 0, npruned = 0, npaths = 0;
static Stop run(State &S, size_t depth, int stopbb);
static inline const Val &gv(Frame &f, const Opd &o) { return o.slot >= 0 ? f.r[o.slot] : f.f->consts[o.cidx]; }
static void enter(State &S, Frame &f, int nb) {
  f.prev = f.bb; f.bb = nb; f.pc = 0; auto &ph = f.f->b[nb].phis; if (ph.empty()) return;
  std::vector<Val> tmp; for (auto &p : ph) { size_t i; for (i = 0; i < p.mask.size(); i++) if (p.mask[i] == f.prev) break; tmp.push_back(gv(f, p.o[i])); }
  for (size_t i = 0; i < ph.size(); i++) f.r[ph[i].dst] = tmp[i];
}
static void pushFrame(State &S, Fn *f, std::vector<Val> &&args) {
  decode(f, S); Frame fr; fr.f = f; fr.r.resize(f->nslots); for (size_t i = 0; i < args.size() && (int)i < f->nslots; i++) fr.r[i] = args[i]; fr.bb = 0; fr.pc = 0; fr.prev = -1; fr.sp = S.sp; S.fr.push_back(std::move(fr)); if (!f->spec) execRepo.insert(f->name);
}
static std::string RESIDFN; static u64 residChecked = 0;
static void popFrame(State &S) {
  Frame &f = S.fr.back();
  if (!RESIDFN.empty() && !f.f->spec) for (u32 o : f.objs) if (S.mem[o]) { // secret residue in storage of repository code
        OBLINC("residual"); residChecked++; Cells &m = *S.mem[o]; u64 bad = 0, first = 0; for (u64 i = 0; i < m.size(); i++) { u64 c = m[i]; if (c && !(c & 1)) { Term *t = (Term *)(c & ~15ull); if (t->k != PTRV && (t->lab & L_SECRET)) { if (!bad) first = i; bad++; } } }
        if (bad) { auto key = std::make_pair(std::string("residual:") + OI[o].name, (const void *)f.f); if (!EV.count(key)) { Ev e; e.kind = "residual"; e.fn = f.f->name; e.msg = "local storage '" + OI[o].name + "' of " + f.f->name + " still holds " + std::to_string(bad) + " secret bytes (first at offset " + std::to_string(first) + ") on return"; e.line = 0; e.count = 1; EV[key] = e; EVorder.push_back(key); } } }
  for (u32 o : f.objs) S.mem[o].reset(); S.sp = f.sp; S.fr.pop_back();
}
static std::vector<std::pair<std::shared_ptr<Cells>, u64>> INIT0;   // initial content of global objects and its hash (copy on write keeps it intact)
static u64 hashCells(const Cells &m) { u64 h = 7; for (u64 c : m) h = TermDB::mix(h, c); return h; }
static u64 hashState(State &S) { u64 h = 1; auto hv = [&](const Val &v) { h = TermDB::mix(h, v.k * 1000003ull + v.obj); if (v.k == V_VEC) { for (auto &x : v.v->l) h = TermDB::mix(h, x.c); } else h = TermDB::mix(h, v.c); }; for (auto &f : S.fr) { h = TermDB::mix(h, (u64)f.f ^ (u64)f.bb << 48 ^ (u64)f.pc << 32); for (auto &v : f.r) hv(v); } for (size_t i = 0; i < S.mem.size(); i++) if (S.mem[i]) { if (OI[i].ro) continue; h = TermDB::mix(h, i); h = TermDB::mix(h, i < INIT0.size() && INIT0[i].first == S.mem[i] ? INIT0[i].second : hashCells(*S.mem[i])); } return h; }

static Val mergeVal(Term *c, const Val &a, const Val &b) { if (a.k == b.k && a.k != V_VEC && a.obj == b.obj && a.c == b.c && a.w == b.w) return a; if (a.k == V_NONE || b.k == V_NONE) return Val(); if (a.k == V_VEC && b.k == V_VEC && a.v == b.v) return a; return selectv(c, a, b); }
static void mergeInto(State &A, State &B, Term *c, size_t pcn) { // A := c ? A : B
  if (A.fr.size() != B.fr.size()) unsup("merge: frames");
  for (size_t i = 0; i < A.fr.size(); i++) { Frame &f = A.fr[i], &g = B.fr[i]; if (f.f != g.f || f.bb != g.bb || f.pc != g.pc) unsup("merge: position"); for (size_t j = 0; j < f.r.size(); j++) { try { f.r[j] = mergeVal(c, f.r[j], g.r[j]); } catch (Unsupported &) { f.r[j] = Val(); } } }
  size_t n = std::max(A.mem.size(), B.mem.size()); A.mem.resize(n); B.mem.resize(n);
  for (size_t o = 1; o < n; o++) { if (A.mem[o] == B.mem[o]) continue; if (!A.mem[o] || !B.mem[o]) { if (OI[o].kind == O_STACK) { A.mem[o].reset(); continue; } unsup("merge: object liveness"); }
    Cells &x = wr(A, o); Cells &y = *B.mem[o]; u64 sz = x.size();
    for (u64 i = 0; i < sz;) { if (x[i] == y[i]) { i++; continue; } unsigned n = 1; auto wd = [&](u64 c) -> unsigned { if (!c || (c & 1)) return 0; Term *t = (Term *)(c & ~15ull); unsigned nb = t->w / 8; unsigned idx = c >> 1 & 7; return (BE ? idx == nb - 1 : idx == 0) ? nb : 0; }; n = std::max({wd(x[i]), wd(y[i]), 1u}); if (i + n > sz) n = 1; if (n > 8) n = 8;
      Term *a = cellsToTerm(o, i, &x[i], n), *b = cellsToTerm(o, i, &y[i], n); if (a->k == PTRV || b->k == PTRV) unsup("merge: pointers"); putTerm(x, i, mkIte(c, a, b), n); i += n; } }
  A.pc.resize(pcn); A.sp = std::max(A.sp, B.sp);
}
// run both sides of a symbolic branch and merge at the immediate postdominator
static Stop forkMerge(State &S, Term *c, int tb, int fb) {
  NEST++; struct D { ~D() { NEST--; } } d; if (NEST > 40) unsup("branch nesting");
  size_t depth = S.fr.size(); Frame &f = S.fr.back(); int pd = ipdom(f.f, f.bb); size_t pcn = S.pc.size();
  Cex cx; bool satT = satisfiable_sim(S.pc, c, true, nullptr), satF = satisfiable_sim(S.pc, c, false, nullptr);
  if (!satT && !DB.abstract && proveEq(c, mkC(1, 0), S.pc, nullptr) == PROVED) { S.pc.push_back(mkNot(c)); enter(S, f, fb); return S_STOP; }
  if (!satF && !DB.abstract && proveEq(c, mkC(1, 1), S.pc, nullptr) == PROVED) { S.pc.push_back(c); enter(S, f, tb); return S_STOP; }
  State B = S; S.pc.push_back(c); B.pc.push_back(mkNot(c));
  auto go = [&](State &X, int nb) -> Stop { enter(X, X.fr.back(), nb); if (nb == pd) return S_STOP; return run(X, depth, pd); };
  Stop a = go(S, tb), b = go(B, fb);
  if (a == S_DEAD && b == S_DEAD) return S_DEAD;
  if (a == S_DEAD) { S = B; return b; }
  if (b == S_DEAD) return a;
  mergeInto(S, B, c, pcn); return a;
}
static const char *cstrAt(State &S, const Val &p, std::string &buf) { buf.clear(); if (p.k != V_PTR || !p.obj) return ""; for (u64 i = p.c; i < OI[p.obj].size; i++) { u64 c = (*S.mem[p.obj])[i]; if (!(c & 1)) break; u8 b = c >> 8; if (!b) break; buf.push_back(b); } return buf.c_str(); }
static void getBytes(State &S, const Val &p, u64 n, std::vector<Term *> &out, const char *what) { if (!n) return; u64 off; if (!chk(S, p, n, 1, what, off)) unsup("oob in builtin"); Cells &m = *S.mem[p.obj]; for (u64 i = 0; i < n; i++) out.push_back(cellByte(p.obj, off + i, m[off + i])); }
static void gwriteCheck(const Val &p, u64 n) { if (p.k == V_PTR && p.obj && n && repoCode()) { ObjInfo &o = OI[p.obj]; if (o.kind == O_GLOBAL && !o.spec) { OBLINC("frame"); if (o.ro) event("ro-write", "write to constant " + o.name); else event("gwrite", "write to static storage " + o.name + " (" + std::to_string(o.size) + " bytes)"); } } }

static void compareEnd(State &S); 
static std::string showPair(Term *a, Term *b) { std::string r = "real " + show(a) + "  spec " + show(b); if (a->k == UFB && b->k == UFB && a->p[0] != b->p[0]) { auto &x = DB.apps[a->p[0]], &y = DB.apps[b->p[0]]; if (x.name == y.name) { if (x.lens != y.lens) r += "  [argument lengths differ]"; else for (size_t i = 0; i < x.args.size(); i++) if (x.args[i] != y.args[i]) { Term *p = x.args[i], *q = y.args[i]; if (proveEq(p, q, {}, nullptr, true) != PROVED) { r += "  [argument byte " + std::to_string(i) + ": " + show(p) + " / " + show(q) + "]"; break; } } if (x.lab != y.lab) r += "  [labels differ]"; } } return r; }
static void doCheckEq(State &S, std::vector<std::pair<Term *, Term *>> &prs, std::vector<std::string> &nm) {
  // quick structural pass, then joint proof
  std::vector<std::pair<Term *, Term *>> rest; std::vector<std::string> rn;
  for (size_t i = 0; i < prs.size(); i++) { if (prs[i].first == prs[i].second) { SS.t0++; nproved++; continue; } rest.push_back(prs[i]); rn.push_back(nm[i]); }
  if (rest.empty()) return;
  std::vector<std::pair<Term *, Term *>> hard; std::vector<std::string> hn; 
  for (size_t i = 0; i < rest.size(); i++) { Term *a = rest[i].first, *b = rest[i].second; bool shallow = a->dep < 40 && b->dep < 40;
    if (shallow || rest.size() > 600) { Cex cx; if (nfail >= 3) { nfail++; continue; } Res r = proveEq(a, b, S.pc, &cx); if (r == PROVED) { nproved++; continue; } if (r == REFUTED) nfail++; else nunk++; if (FAILS.size() < 8) FAILS.push_back({rn[i], showPair(a, b), cx, r == UNKNOWN}); }
    else { hard.push_back(rest[i]); hn.push_back(rn[i]); } }
  if (hard.empty()) return; std::vector<Res> rs; std::vector<Cex> cx; proveMany(hard, S.pc, rs, cx);
  for (size_t i = 0; i < hard.size(); i++) { if (rs[i] == PROVED) { nproved++; continue; } if (rs[i] == REFUTED) nfail++; else nunk++; if (FAILS.size() < 8) FAILS.push_back({hn[i], showPair(hard[i].first, hard[i].second), cx[i], rs[i] == UNKNOWN}); }
}
static void pairCells(State &S, u32 o1, u64 off1, const Cells &x, u32 o2, u64 off2, const Cells &y, u64 n, const std::string &name, std::vector<std::pair<Term *, Term *>> &prs, std::vector<std::string> &nm, bool undefBad) {
  for (u64 i = 0; i < n;) {
    u64 a = x[off1 + i], b = y[off2 + i];
    if (a == b) { OBLINC("equality"); if ((a & 1) || !a) { nproved++; i++; continue; } if (undefBad && !(a & 1) && (((Term *)(a & ~15ull))->lab & L_UNDEF)) event("uninit-out", "uninitialised data reaches " + name); nproved++; i++; continue; }
    auto wd = [&](u64 c) -> unsigned { if (!c || (c & 1)) return 0; Term *t = (Term *)(c & ~15ull); unsigned nb = t->w / 8; unsigned idx = c >> 1 & 7; return (BE ? idx == nb - 1 : idx == 0) ? nb : 0; };
    unsigned q = std::max({wd(a), wd(b), 1u}); if (q > 8 || i + q > n) q = 1;
    Term *p = cellsToTerm(o1, off1 + i, &x[off1 + i], q), *r = cellsToTerm(o2, off2 + i, &y[off2 + i], q);
    if (p->w != 8 * q || r->w != 8 * q) unsup("cell width"); if (undefBad && (p->lab & L_UNDEF)) event("uninit-out", "uninitialised data reaches " + name);
    OBLINC("equality"); prs.push_back({p, r}); nm.push_back(name + "[" + std::to_string(i) + "]"); i += q; }
}
static bool NOEQ = false;   // only the real run is examined: specification calls after fv_mid are skipped
static bool visible(u32 o) { return OI[o].kind == O_BUF; }   // writes to static storage are reported as gwrite events
static void compareEnd(State &S) {
  if (!S.real) unsup("fv_end without fv_mid");
  if (DB.abstract || NOEQ) { for (u32 o = 1; o < S.real->m.size(); o++) if (S.real->m[o] && S.begin->m[o] != S.real->m[o]) { OBLINC("initialised-output"); u64 i = 0; for (u64 c : *S.real->m[o]) { bool ig = false; if (c && !(c & 1) && (((Term *)(c & ~15ull))->lab & L_UNDEF)) { for (auto &g : S.ignore) if (g.first == o && i >= g.second.first && i < g.second.first + g.second.second) ig = true; if (!ig) { event("uninit-out", "uninitialised data reaches " + OI[o].name); break; } } i++; } } return; } std::vector<std::pair<Term *, Term *>> prs; std::vector<std::string> nm;
  for (u32 o = 1; o < S.real->m.size(); o++) if (S.real->m[o] && S.mem[o]) {
    if (S.real->m[o] == S.mem[o]) { OBLINC("frame-object"); nproved++; continue; }
    Cells x = *S.real->m[o], y = *S.mem[o]; for (auto &ig : S.ignore) if (ig.first == o) for (u64 i = ig.second.first; i < ig.second.first + ig.second.second && i < x.size(); i++) x[i] = y[i] = ccell(0);
    pairCells(S, o, 0, x, o, 0, y, x.size(), OI[o].name, prs, nm, true); }
  doCheckEq(S, prs, nm);
}
static bool builtin(State &S, Frame &f, Op &op, Function *F, std::vector<Val> &a, Val &res);
static void doReturn(State &S, const Val &rv) { popFrame(S); if (S.fr.empty()) return; Frame &f = S.fr.back(); Op &op = f.f->b[f.bb].ops[f.pc]; if (op.dst >= 0) f.r[op.dst] = rv; f.pc++; }

static Stop run(State &S, size_t depth, int stopbb) {
  while (true) {
    if (S.fr.empty()) return S_DONE;
    Frame &f = S.fr.back(); curFn = f.f; Op &op = f.f->b[f.bb].ops[f.pc]; curOp = &op;
    curPC = &S.pc; if (++STEPS > MAXSTEPS) unsup("step limit"); if ((STEPS & 0xFFFF) == 0) { double now = nowd(); if (now - T0 > TLIM) unsup("time limit"); static double tf = 0; if (nfail && !tf) tf = now; if (tf && now - tf > 30) unsup("stopped 30 s after the first failed obligation"); }
    switch (op.opc) {
    case X_NOP: f.pc++; break;
    case Instruction::Alloca: {
      auto *ai = cast<AllocaInst>(op.I); const Val &cnt = gv(f, op.o[0]); if (!cnt.conc()) unsup("symbolic alloca"); u64 sz = DLp->getTypeAllocSize(ai->getAllocatedType()) * cnt.c; std::string nm = ai->getName().str(); u32 o = newObj(S, sz, ai->getAlign().value(), 0, O_STACK, f.f->name + "." + nm, f.f->spec); S.fr.back().objs.push_back(o); S.fr.back().r[op.dst] = Val::P(o, 0); S.fr.back().pc++; break; }
    case X_GEP: {
      const Val &b = gv(f, op.o[0]); i64 off = op.gbase; Term *sym = nullptr;
      for (auto &g : op.gep) { const Val &v = gv(f, g.first); if (v.k == V_INT) off += sx(v.c, v.w) * g.second; else if (v.k == V_SYM) { Term *t = mkMul(mkC(64, g.second), mkSext(v.t, 64)); sym = sym ? mkAdd(sym, t) : t; } else unsup("gep index"); }
      if (isPsel(b)) { std::function<Val(const Val &)> go = [&](const Val &q) -> Val { if (isPsel(q)) return psel(toT(q.v->l[0]), go(q.v->l[1]), go(q.v->l[2])); if (q.k == V_PTR && !sym) return Val::P(q.obj, q.c + off); if (q.k != V_PTR && q.k != V_SPTR) unsup("gep base"); Term *t = mkAdd(q.k == V_SPTR ? q.t : mkC(64, q.c), mkC(64, off)); if (sym) t = mkAdd(t, sym); if (t->isc()) return Val::P(q.obj, t->c()); Val r; r.k = V_SPTR; r.w = 64; r.obj = q.obj; r.t = t; return r; }; Val r = go(b); f.r[op.dst] = r; f.pc++; break; }
      Val r; if (b.k == V_PTR && !sym) { r = Val::P(b.obj, b.c + off); if (PW == 32 && !b.obj) r.c &= 0xffffffff; if (op.inb && SAFE && b.obj) { OBLINC("pointer-arith"); if ((i64)r.c < 0 || r.c > OI[b.obj].size) sevent("gep", "pointer arithmetic leaves object " + OI[b.obj].name); } }
      else if (b.k == V_PTR || b.k == V_SPTR) { Term *t = b.k == V_SPTR ? b.t : mkC(64, b.c); t = mkAdd(t, mkC(64, off)); if (sym) t = mkAdd(t, sym); if (t->isc()) r = Val::P(b.obj, t->c()); else { r.k = V_SPTR; r.w = 64; r.obj = b.obj; r.t = t; } }
      else if (b.k == V_INT && b.c == 0) r = Val::P(0, off); else unsup("gep base"); f.r[op.dst] = r; f.pc++; break; }
    case Instruction::Load: {
      const Val &p = gv(f, op.o[0]); Type *ty = op.I->getType();
      if (p.k == V_SPTR) { f.r[op.dst] = symLoad(S, p, ty, op.align); f.pc++; break; }
      if (isPsel(p)) { std::function<Val(const Val &)> go = [&](const Val &q) -> Val { if (isPsel(q)) { Term *c = toT(q.v->l[0]); if (c->lab & L_SECRET) sevent("secret-addr", "load address depends on secret data"); return selectv(c, go(q.v->l[1]), go(q.v->l[2])); } if (q.k == V_SPTR) return symLoad(S, q, ty, op.align); u64 off; if (!chk(S, q, op.a0, op.align, "load", off)) return undefOf(ty); return loadTy(S, q.obj, off, ty); }; Val r = go(p); f.r[op.dst] = r; f.pc++; break; }
      u64 off; if (!chk(S, p, op.a0, op.align, "load", off)) { f.r[op.dst] = undefOf(ty); f.pc++; break; }
      f.r[op.dst] = loadTy(S, p.obj, off, ty); f.pc++; break; }
    case Instruction::Store: {
      const Val &v = gv(f, op.o[0]); const Val &p = gv(f, op.o[1]); Type *ty = cast<StoreInst>(op.I)->getValueOperand()->getType();
      if (p.k == V_SPTR) { if (p.t->lab & L_SECRET) sevent("secret-addr", "store address depends on secret data"); // bounded symbolic store
        unsigned n = op.a0; Rng r = rngU(p.t); if (r.hi + n > (i128)OI[p.obj].size) { sevent("oob", "store at symbolic offset may leave object " + OI[p.obj].name); unsup("symbolic store range"); } if (r.hi - r.lo > 4096) unsup("symbolic store"); Cells &m = wr(S, p.obj); Term *vt = toT(v); std::vector<std::pair<u64, Term *>> upd; for (u64 o = (u64)r.lo; o <= (u64)r.hi; o += 1) { Term *e = mkEq(p.t, mkC(64, o)); if (e->isc() && !e->c()) continue; for (unsigned i = 0; i < n; i++) { Term *old = cellByte(p.obj, o + i, m[o + i]); Term *nw = mkIte(e, mkExtract(mkZext(vt, 8 * n), 8 * (BE ? n - 1 - i : i), 8), old); putTerm(m, o + i, nw, 1); } } f.pc++; break; }
      if (isPsel(p)) { std::function<void(const Val &, Term *)> go = [&](const Val &q, Term *c) { if (isPsel(q)) { Term *d = toT(q.v->l[0]); if (d->lab & L_SECRET) sevent("secret-addr", "store address depends on secret data"); go(q.v->l[1], mkAnd(c, d)); go(q.v->l[2], mkAnd(c, mkNot(d))); return; } if (q.k != V_PTR) unsup("conditional store"); u64 off; if (!chk(S, q, op.a0, op.align, "store", off)) return; gwriteCheck(q, op.a0); Val old = loadTy(S, q.obj, off, ty); storeTy(wr(S, q.obj), off, ty, c->isc() ? (c->c() ? v : old) : selectv(c, v, old)); }; go(p, mkC(1, 1)); f.pc++; break; }
      u64 off; if (!chk(S, p, op.a0, op.align, "store", off)) { f.pc++; break; }
      gwriteCheck(p, op.a0); if (OI[p.obj].ro) { event("ro-write", "store to constant object"); f.pc++; break; }
      storeTy(wr(S, p.obj), off, ty, v); f.pc++; break; }
    case Instruction::Br: {
      if (op.o.empty()) { enter(S, f, op.a0); if (S.fr.size() == depth && f.bb == stopbb) return S_STOP; break; }
      const Val &c = gv(f, op.o[0]); if (c.k == V_INT) { enter(S, f, c.c & 1 ? op.a0 : op.a1); if (S.fr.size() == depth && f.bb == stopbb) return S_STOP; break; }
      Term *t = toT(c); OBLINC("branch"); if (t->lab & L_SECRET) sevent("secret-branch", "branch depends on secret data"); if (t->lab & L_UNDEF) sevent("uninit", "branch on uninitialised data");
      if (op.a0 == op.a1) { enter(S, f, op.a0); if (S.fr.size() == depth && f.bb == stopbb) return S_STOP; break; }
      int pd = ipdom(f.f, f.bb); size_t d = S.fr.size(); Stop st = forkMerge(S, t, op.a0, op.a1); if (st == S_DEAD || st == S_DONE) return st;
      if (pd < 0) { if (S.fr.size() + 1 == depth && stopbb < 0) return S_STOP; break; } (void)d;
      if (S.fr.size() == depth && S.fr.back().bb == stopbb && S.fr.back().pc == 0) return S_STOP; break; }
    case Instruction::Switch: {
      auto *sw = cast<SwitchInst>(op.I); Val c = gv(f, op.o[0]);
      if (c.k == V_INT) { int nb = f.f->bidx[sw->getDefaultDest()]; for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) { nb = f.f->bidx[cs.getCaseSuccessor()]; break; } enter(S, f, nb); if (S.fr.size() == depth && f.bb == stopbb) return S_STOP; break; }
      unsup("symbolic switch"); }
    case Instruction::Ret: { Val rv; if (!op.o.empty()) rv = gv(f, op.o[0]); size_t d = S.fr.size(); doReturn(S, rv); if (d == depth && stopbb < 0) return S.fr.empty() ? S_DONE : S_STOP; if (d == depth && depth) { return S.fr.empty() ? S_DONE : S_STOP; } break; }
    case Instruction::Unreachable: sevent("unreachable", "unreachable executed"); return S_DEAD;
    case Instruction::ICmp: f.r[op.dst] = icmp(cast<ICmpInst>(op.I)->getPredicate(), gv(f, op.o[0]), gv(f, op.o[1])); f.pc++; break;
    case Instruction::Select: {
      const Val &c = gv(f, op.o[0]); 
      if (c.k == V_INT) f.r[op.dst] = gv(f, op.o[c.c & 1 ? 1 : 2]);
      else if (c.k == V_VEC) { std::vector<Val> l; const Val &x = gv(f, op.o[1]), &y = gv(f, op.o[2]); for (size_t i = 0; i < c.v->l.size(); i++) l.push_back(c.v->l[i].conc() ? (c.v->l[i].c ? x.v->l[i] : y.v->l[i]) : selectv(toT(c.v->l[i]), x.v->l[i], y.v->l[i])); f.r[op.dst] = Val::V(std::move(l)); }
      else { if (c.t->lab & L_SECRET) OBLINC("select"); f.r[op.dst] = selectv(c.t, gv(f, op.o[1]), gv(f, op.o[2])); } f.pc++; break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: { unsigned w = op.w; f.r[op.dst] = castv(op.opc, gv(f, op.o[0]), w, S); f.pc++; break; }
    case Instruction::PtrToInt: { Val v = addrOf(gv(f, op.o[0])); f.r[op.dst] = v.w == op.w ? v : castv(op.w < v.w ? Instruction::Trunc : Instruction::ZExt, v, op.w, S); f.pc++; break; }
    case Instruction::IntToPtr: { Val v = gv(f, op.o[0]); if (!v.conc()) unsup("symbolic inttoptr"); f.r[op.dst] = ptrFromInt(S, v.c); f.pc++; break; }
    case Instruction::BitCast: f.r[op.dst] = bitcastv(gv(f, op.o[0]), op.I->getOperand(0)->getType(), op.I->getType(), S); f.pc++; break;
    case Instruction::Freeze: f.r[op.dst] = gv(f, op.o[0]); f.pc++; break;
    case Instruction::ExtractElement: { const Val &v = gv(f, op.o[0]); const Val &i = gv(f, op.o[1]); if (!i.conc()) unsup("extractelement"); f.r[op.dst] = Val(v.v->l.at(i.c)); f.pc++; break; }
    case Instruction::InsertElement: { Val v = gv(f, op.o[0]); const Val &i = gv(f, op.o[2]); if (!i.conc()) unsup("insertelement"); std::vector<Val> l = v.v->l; l.at(i.c) = gv(f, op.o[1]); f.r[op.dst] = Val::V(std::move(l)); f.pc++; break; }
    case Instruction::ShuffleVector: { const Val &x = gv(f, op.o[0]), &y = gv(f, op.o[1]); size_t n = x.v->l.size(); std::vector<Val> l; l.reserve(op.mask.size()); for (int m : op.mask) l.push_back(m < 0 ? undefOf(op.I->getType()->getScalarType()) : (size_t)m < n ? x.v->l[m] : y.v->l[m - n]); f.r[op.dst] = Val::V(std::move(l)); f.pc++; break; }
    case Instruction::ExtractValue: { Val v = gv(f, op.o[0]); for (unsigned i : cast<ExtractValueInst>(op.I)->indices()) { Val t = v.v->l[i]; v = t; } f.r[op.dst] = v; f.pc++; break; }
    case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(op.I); std::function<Val(const Val &, unsigned)> ins = [&](const Val &v, unsigned d) -> Val { if (d == iv->getNumIndices()) return gv(f, op.o[1]); std::vector<Val> l = v.v->l; l[iv->getIndices()[d]] = ins(l[iv->getIndices()[d]], d + 1); return Val::V(std::move(l)); }; f.r[op.dst] = ins(gv(f, op.o[0]), 0); f.pc++; break; }
    case Instruction::Call: {
      std::vector<Val> a; auto *cb = cast<CallInst>(op.I); unsigned na = cb->arg_size(); for (unsigned i = 0; i < na; i++) a.push_back(gv(f, op.o[i])); Function *F = op.cf;
      if (!F) { if (cb->isInlineAsm()) unsup("inline assembly"); Val t = gv(f, op.o[na]); if (t.k != V_FN) unsup("indirect call"); F = FNIDX[t.c]; if (F->getFunctionType() != cb->getFunctionType()) unsup("signature mismatch calling " + F->getName().str()); }
      Val res; 
      if (NOEQ && S.real && f.f->spec && F->getName().starts_with("sp_")) { if (op.dst >= 0) { Type *rt = F->getReturnType(); f.r[op.dst] = Val::T(mkC(rt->getIntegerBitWidth(), 0)); } f.pc++; break; }
      if (!f.f->spec && !F->isIntrinsic()) { std::string nm = F->getName().str(); if (REPL.count(nm)) { Function *C = MOD->getFunction("ct_" + nm); if (C && !C->isDeclaration() && C->getFunctionType() == F->getFunctionType()) { usedRepl.insert(nm); OBLINC("call-contract"); pushFrame(S, getFn(C), std::move(a)); break; } } }
      if (F->isDeclaration()) { State *SP = &S; (void)SP; if (!builtin(S, f, op, F, a, res)) unsup("call to unknown function " + F->getName().str()); if (res.k == V_NONE && res.w == 77) return S_DEAD; if (S.fr.empty()) return S_DONE; Frame &g = S.fr.back(); if (op.dst >= 0) g.r[op.dst] = res; g.pc++; break; }
      if (S.fr.size() > 2000) unsup("recursion depth"); pushFrame(S, getFn(F), std::move(a)); break; }
    default:
      if (op.I->isBinaryOp()) { f.r[op.dst] = binop(op.opc, gv(f, op.o[0]), gv(f, op.o[1]), op.w, op.I); f.pc++; break; }
      unsup(std::string("instruction ") + op.I->getOpcodeName());
    }
  }
}

static std::set<std::string> USED; static std::vector<u64> PARAMS;
#include "builtin.inc"

// ---------------------------------------------------------------- main
static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::set<Function *> FNSPEC; static std::string OUT, ENTRY, PASSES = "function(mem2reg)"; static std::vector<std::string> repoF, specF;
static std::string STATUS = "ok", REASON;
static std::string EMIT, HLIST; static bool HASHONLY = false, HAVOC = true;
// static storage of the code under verification that anything may write: its contents on entry are arbitrary (any call history)
static bool isWritten(const GlobalVariable &G) {
  std::vector<const Value *> w{&G}; std::set<const Value *> seen; while (!w.empty()) { const Value *v = w.back(); w.pop_back(); if (!seen.insert(v).second) continue; for (const User *u : v->users()) {
      if (auto *si = dyn_cast<StoreInst>(u)) { if (si->getPointerOperand() == v || si->getValueOperand() == v) return true; } else if (isa<LoadInst>(u) || isa<ICmpInst>(u)) continue; else if (auto *cb = dyn_cast<CallBase>(u)) { if (auto *mi = dyn_cast<MemTransferInst>(cb)) { if (mi->getRawDest() == v) return true; continue; } for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->getArgOperand(i) == v && !cb->onlyReadsMemory(i) ) { Function *cf = cb->getCalledFunction(); if (!cf || cf->isDeclaration()) return true; w.push_back(cf->getArg(i)); } } else w.push_back(u); } } return false; }
static bool HSTRIP = false;
static void hashModule(Function *E) { // canonical text of everything reachable from the entry under the chosen contracts
  if (!HSTRIP) { HSTRIP = true; StripDebugInfo(*MOD); for (auto &F : *MOD) { F.setAttributes(AttributeList()); for (auto &B : F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) cb->setAttributes(AttributeList()); } } std::vector<GlobalValue *> q{E}; std::set<GlobalValue *> seen{E}; std::string txt = MOD->getTargetTriple() + MOD->getDataLayoutStr(); raw_string_ostream os(txt);
  for (size_t i = 0; i < q.size(); i++) { GlobalValue *g = q[i]; std::vector<const Value *> w; auto add = [&](GlobalValue *x) { if (seen.insert(x).second) q.push_back(x); };
    std::function<void(const Value *, bool)> ref = [&](const Value *v, bool repo) { if (auto *gv = dyn_cast<GlobalValue>(v)) { GlobalValue *x = const_cast<GlobalValue *>(gv); if (repo && isa<Function>(x) && REPL.count(x->getName().str())) if (auto *c = MOD->getFunction("ct_" + x->getName().str())) x = c; add(x); } else if (auto *c = dyn_cast<Constant>(v)) for (auto &o : c->operands()) ref(o.get(), repo); };
    if (auto *F = dyn_cast<Function>(g)) { bool repo = !FNSPEC.count(F); F->print(os); os << repo; for (auto &B : *F) for (auto &I : B) for (auto &o : I.operands()) ref(o.get(), repo); } else if (auto *V = dyn_cast<GlobalVariable>(g)) { V->clearMetadata(); V->print(os); if (V->hasInitializer()) ref(V->getInitializer(), false); } }
  os.flush(); { std::string c; c.reserve(txt.size()); std::map<std::string, int> nm; for (size_t i = 0; i < txt.size();) { if (txt[i] != '@') { c.push_back(txt[i++]); continue; } size_t j = i + 1; while (j < txt.size() && (isalnum((unsigned char)txt[j]) || strchr("._$-", txt[j]))) j++; std::string id = txt.substr(i + 1, j - i - 1); auto *gv = dyn_cast_or_null<GlobalVariable>(MOD->getNamedValue(id)); if (gv && gv->hasPrivateLinkage()) { auto it = nm.emplace(id, (int)nm.size()).first; c += "@$" + std::to_string(it->second); } else c.append(txt, i, j - i); i = j; } txt.swap(c); }
  u64 h1 = xxh3_64bits(ArrayRef<uint8_t>((const uint8_t *)txt.data(), txt.size())), h2 = xxHash64(txt); char b[40]; snprintf(b, 40, "%016lx%016lx", (unsigned long)h1, (unsigned long)h2); if (getenv("FVHASHDUMP")) fputs(txt.c_str(), stderr); printf("%s", b);
  for (auto &r : REPL) { Function *F = MOD->getFunction(r), *C = MOD->getFunction("ct_" + r); const char *st = !F ? "missing" : !C || C->isDeclaration() ? "nocontract" : C->getFunctionType() != F->getFunctionType() ? "mismatch" : F->isDeclaration() ? "external" : "ok"; printf(" %s=%s", r.c_str(), st); }
  std::set<std::string> bad; for (GlobalValue *g : q) if (auto *F = dyn_cast<Function>(g)) if (FNSPEC.count(F)) for (auto &B : *F) for (auto &I : B) if (auto *cb = dyn_cast<CallBase>(&I)) { auto *T = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (!T || T->isIntrinsic()) continue; StringRef n = T->getName(); if (T->getFunctionType() != cb->getFunctionType()) bad.insert(n.str() + ":mismatch"); else if (T->isDeclaration() && !n.starts_with("fv_") && n != "memcpy" && n != "memset" && n != "memcmp" && n != "memmove" && n != "malloc" && n != "free") bad.insert(n.str() + ":missing"); }
  for (auto &x : bad) printf(" !%s", x.c_str()); printf("\n"); }
static void body() {
  auto runPasses = [&](Module &m, const std::string &pl) { LoopAnalysisManager L; FunctionAnalysisManager FA; CGSCCAnalysisManager C; ModuleAnalysisManager MA; PassBuilder PB; PB.registerModuleAnalyses(MA); PB.registerCGSCCAnalyses(C); PB.registerFunctionAnalyses(FA); PB.registerLoopAnalyses(L); PB.crossRegisterProxies(L, FA, C, MA); ModulePassManager MPM; if (auto e = PB.parsePassPipeline(MPM, pl)) { fprintf(stderr, "bad pipeline\n"); exit(3); } MPM.run(m, MA); };
  auto load = [&](const std::string &fn, const char *org) -> std::unique_ptr<Module> { SMDiagnostic e; auto m = parseIRFile(fn, e, CTX); if (!m) { fprintf(stderr, "cannot read %s: %s\n", fn.c_str(), e.getMessage().str().c_str()); exit(3); } for (auto &F : *m) if (!F.isDeclaration()) F.addFnAttr("fv-origin", org); for (auto &G : m->globals()) if (!G.isDeclaration()) { LLVMContext &C = CTX; G.setMetadata("fvo", MDNode::get(C, MDString::get(C, org))); } runPasses(*m, !strcmp(org, "spec") ? std::string("function(sroa,instcombine,simplifycfg)") : PASSES); return m; };
  std::unique_ptr<Module> M; std::set<std::string> defined;
  for (auto &s : repoF) { auto m = load(s, "repo"); // static functions become linkable when their name is unique
    for (auto &F : *m) if (!F.isDeclaration()) { std::string n = F.getName().str(); if (F.hasLocalLinkage()) { if (!defined.count(n)) { F.setLinkage(GlobalValue::ExternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility); } } else if (F.hasLinkOnceLinkage() || F.hasAvailableExternallyLinkage() || F.hasWeakLinkage()) F.setLinkage(GlobalValue::ExternalLinkage); defined.insert(n); }
    if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { STATUS = "unknown"; REASON = "link failure"; return; } }
  for (auto &s : specF) { auto m = load(s, "spec"); if (!M) M = std::move(m); else if (Linker::linkModules(*M, std::move(m))) { STATUS = "unknown"; REASON = "link failure"; return; } }
  MOD = M.release();
  DLp = &MOD->getDataLayout(); BE = DLp->isBigEndian(); PW = DLp->getPointerSizeInBits(); STACK0 = PW == 32 ? 0x40000000 : 0x100000000000ull; OI.push_back({0, 0, 1, O_GLOBAL, true, true, false, false, "null", nullptr});
  Function *E = MOD->getFunction(ENTRY); if (EMIT.empty() && HLIST.empty() && (!E || E->isDeclaration())) { STATUS = "inapplicable"; REASON = "no entry " + ENTRY; return; }
  if (!EMIT.empty()) { // linked program for native replay; --replace here redirects repository calls to the contract function
    for (auto &F : *MOD) if (F.getFnAttribute("fv-origin").getValueAsString() == "spec") FNSPEC.insert(&F);
    for (auto &r : REPL) { Function *F = MOD->getFunction(r), *C = MOD->getFunction("ct_" + r); if (!F || !C || C->isDeclaration()) continue; F->replaceUsesWithIf(C, [&](Use &u) { auto *I = dyn_cast<Instruction>(u.getUser()); return I && !FNSPEC.count(I->getFunction()) && I->getFunction() != C; }); }
    std::error_code ec; raw_fd_ostream os(EMIT, ec); WriteBitcodeToFile(*MOD, os); return; }
  if (HASHONLY) { for (auto &F : *MOD) if (F.getFnAttribute("fv-origin").getValueAsString() == "spec") FNSPEC.insert(&F); if (HLIST.empty()) { hashModule(E); return; }
    std::ifstream hl(HLIST); std::string ln; while (std::getline(hl, ln)) { std::stringstream ss(ln); std::string e, r; ss >> e >> r; REPL.clear(); std::stringstream rs(r); std::string t; while (std::getline(rs, t, ',')) if (!t.empty() && t != "-") REPL.insert(t); Function *X = MOD->getFunction(e); if (!X || X->isDeclaration()) printf("noentry\n"); else hashModule(X); } return; }
  State S; S.sp = STACK0; S.mem.resize(1);
  try {
    for (auto &G : MOD->globals()) { u64 sz = DLp->getTypeAllocSize(G.getValueType()); bool spec = false; if (auto *md = G.getMetadata("fvo")) spec = cast<MDString>(md->getOperand(0))->getString() == "spec"; u32 o = newObj(S, sz, G.getAlign() ? G.getAlign()->value() : DLp->getPreferredAlign(&G).value(), 0, O_GLOBAL, G.getName().str(), spec); OI[o].ro = G.isConstant(); OI[o].tls = G.isThreadLocal(); GVOBJ[&G] = o; if (G.isDeclaration()) OI[o].ro = false; }
    for (auto &G : MOD->globals()) if (G.hasInitializer()) initCells(*S.mem[GVOBJ[&G]], 0, G.getInitializer(), S);
    if (HAVOC) for (auto &G : MOD->globals()) { u32 o = GVOBJ[&G]; if (OI[o].spec || OI[o].ro || G.isDeclaration() || G.getValueType()->isPointerTy() || !isWritten(G)) continue; OBLINC("arbitrary-static-state"); Cells &m = *S.mem[o]; for (u64 i = 0; i < m.size(); i++) putTerm(m, i, DB.abstract ? mkAnyFull(8, 0) : mkVar(8, "__static_" + OI[o].name, i, 0), 1); }
    for (auto &G : MOD->globals()) if (G.isDeclaration() && G.getValueType()->isPointerTy() && !G.getName().starts_with("llvm.")) { u32 o = newObj(S, 256, 16, 0, O_GLOBAL, "*" + G.getName().str(), true); storeTy(*S.mem[GVOBJ[&G]], 0, G.getValueType(), Val::P(o, 0)); }   // e.g. stderr: an opaque external object
    INIT0.clear(); for (auto &m : S.mem) INIT0.push_back({m, m && m->size() > 64 ? hashCells(*m) : 0}); for (auto &e : INIT0) if (!e.second) e.first.reset();
    pushFrame(S, getFn(E), {}); WORK.push_back(S); S = State();
    while (!WORK.empty()) { State X = std::move(WORK.back()); WORK.pop_back(); npaths++; Stop st = run(X, 0, -1); (void)st; }
  } catch (Unsupported &u) { STATUS = "unknown"; REASON = u.s; if (curOp && curOp->I) { std::string s; raw_string_ostream os(s); curOp->I->print(os); REASON += " @ " + (curFn ? curFn->name : "") + (curOp->I->getDebugLoc() ? ":" + std::to_string(curOp->I->getDebugLoc().getLine()) : "") + " " + os.str(); } }
}
static void emit() {
  std::ostringstream o; rusage ru; getrusage(RUSAGE_SELF, &ru);
  if (STATUS == "ok" && nfail) STATUS = "fail"; if (STATUS == "ok" && nunk) STATUS = "unknown", REASON = "undecided equalities"; if (nfail) STATUS = "fail";
  o << "{\"entry\":\"" << ENTRY << "\",\"status\":\"" << STATUS << "\",\"reason\":\"" << jesc(REASON) << "\",\"proved\":" << nproved << ",\"failed\":" << nfail << ",\"undecided\":" << nunk << ",\"steps\":" << STEPS << ",\"paths\":" << npaths << ",\"choices\":" << nchoose << ",\"pruned\":" << npruned << ",\"time\":" << nowd() - T0 << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024 << ",\"terms\":" << DB.byid.size();
  o << ",\"solver\":{\"identical\":" << SS.t0 << ",\"normal_form\":" << SS.nf << ",\"bit_canonical\":" << SS.bits << ",\"sweep\":" << SS.sweep << ",\"alpha_memo\":" << SS.memo << ",\"exhaustive\":" << SS.exh << ",\"smt\":" << SS.smt << ",\"smt_s\":" << SS.smt_s << ",\"exhaustive_s\":" << SS.exh_s << "}";
  o << ",\"obligations\":{"; bool fi = true; for (auto &k : OBL) { o << (fi ? "" : ",") << "\"" << k.first << "\":" << k.second; fi = false; } o << "}";
  o << ",\"contracts_used\":["; fi = true; for (auto &k : usedRepl) { o << (fi ? "" : ",") << "\"" << k << "\""; fi = false; } o << "],\"instances\":["; fi = true; for (auto &k : USED) { o << (fi ? "" : ",") << "\"" << k << "\""; fi = false; } o << "],\"executed\":["; fi = true; for (auto &k : execRepo) { o << (fi ? "" : ",") << "\"" << jesc(k) << "\""; fi = false; } o << "]";
  o << ",\"events\":["; fi = true; for (auto &k : EVorder) { Ev &e = EV[k]; o << (fi ? "" : ",") << "{\"kind\":\"" << e.kind << "\",\"fn\":\"" << jesc(e.fn) << "\",\"file\":\"" << jesc(e.file) << "\",\"line\":" << e.line << ",\"count\":" << e.count << ",\"msg\":\"" << jesc(e.msg) << "\"}"; fi = false; } o << "]";
  o << ",\"fails\":["; fi = true; for (auto &f : FAILS) { o << (fi ? "" : ",") << "{\"what\":\"" << jesc(f.what) << "\",\"undecided\":" << (f.unk ? "true" : "false") << ",\"detail\":\"" << jesc(f.detail.substr(0, 1500)) << "\",\"cex\":{"; fi = true; std::map<std::string, std::map<u64, u64>> g; for (auto &v : f.cex.vals) g[DB.vars[v.first].name][DB.vars[v.first].idx] = v.second; for (auto &n : g) { o << (fi ? "" : ",") << "\"" << jesc(n.first) << "\":{"; fi = false; bool f2 = true; for (auto &q : n.second) { o << (f2 ? "" : ",") << "\"" << q.first << "\":" << q.second; f2 = false; } o << "}"; } o << "}}"; fi = false; } o << "]}\n";
  if (OUT.empty()) fputs(o.str().c_str(), stdout); else { FILE *f = fopen(OUT.c_str(), "w"); fputs(o.str().c_str(), f); fclose(f); }
}
static void *thr(void *) { body(); if (!EMIT.empty()) return nullptr; if (HASHONLY) { if (STATUS != "ok") printf("%s\n", STATUS.c_str()); return nullptr; } emit(); return nullptr; }
int main(int argc, char **argv) {
  T0 = nowd();
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    auto split = [](const std::string &s, std::set<std::string> &o) { std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) o.insert(t); };
    if (a == "--repo") repoF.push_back(nx()); else if (a == "--spec") specF.push_back(nx()); else if (a == "--entry") ENTRY = nx(); else if (a == "--param") { std::set<std::string> dummy; std::stringstream ss(nx()); std::string t; while (std::getline(ss, t, ',')) PARAMS.push_back(strtoull(t.c_str(), 0, 0)); } else if (a == "--replace") split(nx(), REPL); else if (a == "--opaque") split(nx(), OPAQUE); else if (a == "--abstract") DB.abstract = true; else if (a == "--hash") HASHONLY = true; else if (a == "--emit") EMIT = nx(); else if (a == "--hash-list") { HASHONLY = true; HLIST = nx(); } else if (a == "--nohavoc") HAVOC = false; else if (a == "--nosafe") SAFE = false; else if (a == "--noeq") NOEQ = true; else if (a == "--passes") PASSES = nx(); else if (a == "--out") OUT = nx(); else if (a == "--seed") g_seed = atoll(nx().c_str()); else if (a == "--residual") RESIDFN = "1"; else if (a == "--tlim") TLIM = atof(nx().c_str()); else if (a == "--smt") g_smt_timeout = atoi(nx().c_str()); else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; } }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30); pthread_t t; if (pthread_create(&t, &at, thr, nullptr)) { pthread_attr_setstacksize(&at, 1ull << 30); pthread_create(&t, &at, thr, nullptr); } pthread_join(t, nullptr);
  fflush(stdout); _exit(0);
}
