// symx: a small symbolic executor for LLVM IR (KLEE-style), used by /verif's checks.
//   symx MODULE.ll --harness NAME [--out FILE] [--max-insts N] [--max-paths N] [--timeout S]
//        [--solver-ms N] [--alloc-limit N] [--input FILE (concrete run)] [--trace]
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/resource.h>
#include <chrono>
#include <cmath>
#include <functional>
#include <pthread.h>
#include <sys/resource.h>
#include <unordered_set>

using namespace llvm;
static const unsigned OBJ_SHIFT = 26;              // 64 MiB per object id
static const uint64_t OFF_MASK = (1ull << OBJ_SHIFT) - 1;
static const uint64_t FUNC_BASE = 0x7f0000000000ull;

struct Val { Expr *e; u128 c; };
static inline Val CV(u128 c) { return Val{nullptr, c}; }
static inline Expr *EX(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val VE(Expr *e) { return e->op == OConst ? CV(e->c) : Val{e, 0}; }

static Val vbin(Op op, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) return CV(foldBin(op, a.c, b.c, w));
  return VE(mkBin(op, EX(a, w), EX(b, w)));
}
static Val vnot1(const Val &a) { return a.e ? VE(mkNot(a.e)) : CV(!a.c); }
static Val vite(const Val &c, const Val &a, const Val &b, unsigned w) {
  if (!c.e) return c.c ? a : b;
  if (!a.e && !b.e && a.c == b.c) return a;
  return VE(mkIte(c.e, EX(a, w), EX(b, w)));
}
static Val vext(const Val &a, unsigned lo, unsigned w) { return a.e ? VE(mkExtract(a.e, lo, w)) : CV((a.c >> lo) & maskw(w)); }
static Val vzext(const Val &a, unsigned w) { return a.e ? VE(mkZExt(a.e, w)) : a; }
static Val vsext(const Val &a, unsigned from, unsigned w) { return a.e ? VE(mkSExt(a.e, w)) : CV((u128)sxt(a.c, from) & maskw(w)); }
static Val vconcat(const Val &h, unsigned hw, const Val &l, unsigned lw) {
  if (!h.e && !l.e) return CV((h.c << lw) | l.c);
  return VE(mkConcat(EX(h, hw), EX(l, lw)));
}

struct FlatEl { uint64_t off; unsigned w; };
struct Opd { int base; int n; };
struct PhiMove { int dst; int n; int src; };
struct Edge { int target; std::vector<PhiMove> phis; };
struct FuncInfo;
struct GepIdx { Opd o; int64_t scale; unsigned w; };
struct DInst {
  Instruction *I; unsigned opc; int dst = 0, ndst = 0;
  std::vector<Opd> ops;
  unsigned w = 0, w2 = 0; int sub = 0;
  int64_t off = 0; std::vector<GepIdx> gep;
  const std::vector<FlatEl> *mem = nullptr;
  std::vector<Edge> edges;
  std::vector<u128> cases;
  FuncInfo *callee = nullptr; std::string special;
  std::vector<int> idx;
};
enum FKind { FK_BODY, FK_EXT, FK_INTRIN, FK_PANIC, FK_STUB };
struct FuncInfo {
  Function *F; std::string name, dem; FKind kind; bool decoded = false; int ext = -1;
  bool executed = false; bool fmtstub = false;
  std::vector<DInst> code; std::vector<Val> consts; int nregs = 0; std::vector<int> argSlots; uint64_t addr;
  uint64_t forks = 0, insts = 0;
};
struct Obj {
  uint64_t size; bool ro = false, heap = false; const char *what = "";
  std::vector<uint8_t> c; std::vector<Expr *> s; Expr *symSize = nullptr;
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { ObjP o[64]; };
typedef std::shared_ptr<Chunk> ChunkP;
struct Frame { FuncInfo *f; int pc; std::vector<Val> regs; std::vector<uint64_t> allocas; };
struct SymRec { uint32_t first; uint32_t n; };
struct State {
  std::vector<Frame> st; std::vector<ChunkP> mem; uint64_t nextId;
  std::vector<Expr *> cs; std::unordered_set<Expr *> dummy; ModelP model; uint64_t gen;
  std::vector<SymRec> syms; uint32_t nsyms = 0;
  bool panicOk = false, stubFmt = true; bool allocOk = false; bool assumeAlloc = false; uint64_t insts = 0; int forks = 0; uint64_t nallocs = 0;
  std::map<uint64_t, int> tags;
  std::vector<int16_t> fixed; uint32_t nfixed = 0;  // input bytes the path condition pins to one value
};
struct PathEnd { std::string kind, msg; };

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout *DL;
static Solver *SV;
static std::unordered_map<Function *, FuncInfo *> funcs; static std::vector<FuncInfo *> funcList;
static std::unordered_map<const GlobalVariable *, uint64_t> gaddr; static std::vector<const GlobalVariable *> gById; static std::vector<ObjP> gObjs;
static uint64_t firstDynId; static uint64_t genCounter = 1;
static std::vector<std::unique_ptr<State>> work;
static uint64_t optMaxInsts = 2000000000ull, optMaxPaths = 1000000, optPathInsts = 200000000ull; static double optTimeout = 800; static uint64_t optAllocLimit = 1 << 20;
static bool optTrace = false; static uint64_t totInsts, totPaths, totForks; static std::map<std::string, uint64_t> endKinds; static std::map<uint64_t, uint64_t> covers, checksSeen, checksSolved; static uint64_t nAssumes;
static bool concreteMode = false; static std::vector<uint8_t> concreteInput; static size_t concretePos;
static int optMaxViol = 8;
struct Viol { std::string key, kind, msg, loc; std::vector<std::string> trace; std::vector<uint8_t> input; };
static std::vector<Viol> viols; static std::set<std::string> violKeys; static std::vector<std::string> incomplete; static std::vector<std::vector<uint8_t>> samples;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

[[noreturn]] static void unsupported(const std::string &m) { throw PathEnd{"unsupported", m}; }

// ---------- types / constants
static std::map<Type *, std::vector<FlatEl>> flatCache;
static void flatRec(Type *t, uint64_t off, std::vector<FlatEl> &out) {
  if (auto *it = dyn_cast<IntegerType>(t)) out.push_back({off, it->getBitWidth()});
  else if (t->isPointerTy()) out.push_back({off, 64});
  else if (t->isDoubleTy()) out.push_back({off, 64});
  else if (t->isFloatTy()) out.push_back({off, 32});
  else if (t->isHalfTy()) out.push_back({off, 16});
  else if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) flatRec(st->getElementType(i), off + sl->getElementOffset(i), out); }
  else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) flatRec(at->getElementType(), off + i * es, out); }
  else if (auto *vt = dyn_cast<FixedVectorType>(t)) {
    unsigned eb = vt->getElementType()->isPointerTy() ? 64 : vt->getElementType()->getPrimitiveSizeInBits();
    for (unsigned i = 0; i < vt->getNumElements(); i++) out.push_back({off + (uint64_t)i * ((eb + 7) / 8), eb});
  } else if (t->isVoidTy() || t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) {}
  else { out.push_back({off, 999}); }
}
static const std::vector<FlatEl> &flat(Type *t) {
  auto it = flatCache.find(t); if (it != flatCache.end()) return it->second;
  std::vector<FlatEl> v; flatRec(t, 0, v); return flatCache[t] = v;
}
static FuncInfo *getFunc(Function *F);
static uint64_t globalAddr(const GlobalVariable *g) {
  auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
  uint64_t id = gById.size(); gById.push_back(g); gObjs.push_back(nullptr);
  if (id >= firstDynId) { fprintf(stderr, "too many globals\n"); abort(); }
  uint64_t a = id << OBJ_SHIFT; gaddr[g] = a; return a;
}
static void constVals(Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth(); u128 v = ci->getValue().getRawData()[0];
    if (w > 64) v |= (u128)ci->getValue().getRawData()[1] << 64;
    out.push_back(CV(v & maskw(w))); return; }
  if (isa<ConstantPointerNull>(c)) { out.push_back(CV(0)); return; }
  if (auto *cf = dyn_cast<ConstantFP>(c)) { APInt b = cf->getValueAPF().bitcastToAPInt(); out.push_back(CV(b.getZExtValue())); return; }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0; i < flat(t).size(); i++) out.push_back(CV(0)); return; }
  if (auto *gv = dyn_cast<GlobalVariable>(c)) { out.push_back(CV(globalAddr(gv))); return; }
  if (auto *f = dyn_cast<Function>(c)) { out.push_back(CV(getFunc(f)->addr)); return; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) { constVals(ga->getAliasee(), out); return; }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constVals(cd->getElementAsConstant(i), out); return; }
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) constVals(ca->getOperand(i), out); return; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    auto get = [&](unsigned i) { std::vector<Val> v; constVals(ce->getOperand(i), v); return v[0]; };
    unsigned w = flat(t).empty() ? 0 : flat(t)[0].w;
    switch (ce->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: out.push_back(CV(get(0).c & maskw(w))); return;
    case Instruction::BitCast: case Instruction::ZExt: constVals(ce->getOperand(0), out); return;
    case Instruction::GetElementPtr: {
      auto *g = cast<GEPOperator>(ce); APInt off(64, 0);
      if (!g->accumulateConstantOffset(*DL, off)) unsupported("const gep");
      out.push_back(CV((get(0).c + off.getZExtValue()) & maskw(64))); return; }
    case Instruction::Add: out.push_back(CV((get(0).c + get(1).c) & maskw(w))); return;
    case Instruction::Sub: out.push_back(CV((get(0).c - get(1).c) & maskw(w))); return;
    case Instruction::And: out.push_back(CV(get(0).c & get(1).c)); return;
    case Instruction::Xor: out.push_back(CV(get(0).c ^ get(1).c)); return;
    case Instruction::Or: out.push_back(CV(get(0).c | get(1).c)); return;
    case Instruction::ICmp: {
      auto p = (CmpInst::Predicate)ce->getPredicate(); u128 a = get(0).c, b = get(1).c; bool r;
      switch (p) { case CmpInst::ICMP_EQ: r = a == b; break; case CmpInst::ICMP_NE: r = a != b; break; case CmpInst::ICMP_ULT: r = a < b; break; case CmpInst::ICMP_UGT: r = a > b; break; default: unsupported("const icmp"); }
      out.push_back(CV(r)); return; }
    case Instruction::Select: { constVals(ce->getOperand(get(0).c ? 1 : 2), out); return; }
    default: unsupported(std::string("const expr ") + ce->getOpcodeName());
    }
  }
  unsupported("constant kind");
}
static void initBytes(Constant *c, std::vector<uint8_t> &b, uint64_t off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef s = cd->getRawDataValues(); memcpy(&b[off], s.data(), s.size()); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), b, off + sl->getElementOffset(i)); return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), b, off + i * es); return; }
  std::vector<Val> v; constVals(c, v); auto &f = flat(t);
  for (size_t i = 0; i < f.size(); i++) for (unsigned k = 0; k < (f[i].w + 7) / 8; k++) b[off + f[i].off + k] = (uint8_t)(v[i].c >> (8 * k));
}
static ObjP globalObj(uint64_t id) {
  if (id >= gById.size() || !gById[id]) return nullptr;
  if (gObjs[id]) return gObjs[id];
  auto *g = gById[id]; auto o = std::make_shared<Obj>();
  o->size = DL->getTypeAllocSize(g->getValueType()); o->ro = g->isConstant(); o->what = "global"; o->c.assign(o->size, 0);
  if (g->hasInitializer()) initBytes(const_cast<Constant *>(g->getInitializer()), o->c, 0);
  return gObjs[id] = o;
}

// ---------- decode
static bool startsWith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static std::string stripHash(const std::string &d) {
  auto p = d.rfind("::h"); if (p != std::string::npos && d.size() - p == 19) return d.substr(0, p); return d;
}
static FuncInfo *getFunc(Function *F) {
  auto it = funcs.find(F); if (it != funcs.end()) return it->second;
  auto *fi = new FuncInfo(); fi->F = F; fi->name = F->getName().str(); fi->dem = stripHash(demangle(fi->name));
  fi->addr = FUNC_BASE + 16 * (funcList.size() + 1); funcs[F] = fi; funcList.push_back(fi);
  const std::string &d = fi->dem;
  if (F->isIntrinsic()) fi->kind = FK_INTRIN;
  else if (startsWith(d, "core::panicking::") || startsWith(d, "std::panicking::begin_panic") || startsWith(d, "std::panicking::rust_panic") ||
           fi->name == "rust_begin_unwind" || startsWith(d, "alloc::alloc::handle_alloc_error") || startsWith(d, "alloc::raw_vec::capacity_overflow") || startsWith(d, "alloc::raw_vec::handle_reserve::") ||
           startsWith(d, "core::result::unwrap_failed") || startsWith(d, "core::option::expect_failed") || startsWith(d, "std::process::abort") || startsWith(d, "core::intrinsics::abort") || startsWith(d, "std::rt::abort"))
    fi->kind = FK_PANIC;
  else if (d.find("hashmap_random_keys") != std::string::npos || d.find("std_detect::detect::cache::detect_and_initialize") != std::string::npos) fi->kind = FK_STUB;
  else if (F->isDeclaration() || startsWith(fi->name, "sym_")) fi->kind = FK_EXT;
  else fi->kind = FK_BODY;
  if (fi->kind == FK_BODY) {
    if (startsWith(d, "core::fmt::write") && d.size() == strlen("core::fmt::write")) fi->fmtstub = true;
    if (startsWith(d, "core::fmt::num::") && d.size() > 5 && d.compare(d.size() - 5, 5, "::fmt") == 0) fi->fmtstub = true;
    if (startsWith(d, "core::fmt::float::") && d.size() > 5 && d.compare(d.size() - 5, 5, "::fmt") == 0) fi->fmtstub = true;
    // integer Debug/Display impls are spelled "core::fmt::num::<impl core::fmt::Debug for u32>::fmt" or "<.. as core::fmt::Display>::fmt"
  }
  if (fi->kind == FK_PANIC && startsWith(d, "alloc::raw_vec::handle_reserve")) fi->kind = FK_BODY;
  return fi;
}
static void decode(FuncInfo *fi) {
  if (fi->decoded) return; fi->decoded = true;
  Function *F = fi->F;
  std::unordered_map<const Value *, int> slot; int n = 0;
  for (auto &a : F->args()) { slot[&a] = n; fi->argSlots.push_back(n); n += flat(a.getType()).size(); }
  for (auto &bb : *F) for (auto &I : bb) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += flat(I.getType()).size(); }
  fi->nregs = n;
  std::unordered_map<const Value *, int> cslot;
  auto opd = [&](Value *v) -> Opd {
    if (auto *c = dyn_cast<Constant>(v)) {
      int cnt = flat(c->getType()).size();
      auto it = cslot.find(v); if (it != cslot.end()) return {it->second, cnt};
      int b = -(int)fi->consts.size() - 1; std::vector<Val> vs;
      constVals(c, vs);
      for (auto &x : vs) fi->consts.push_back(x);
      cslot[v] = b; return {b, cnt};
    }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return {0, 0};
    return {slot.at(v), (int)flat(v->getType()).size()};
  };
  std::unordered_map<const BasicBlock *, int> bbpc; int pc = 0;
  for (auto &bb : *F) { bbpc[&bb] = pc; for (auto &I : bb) { if (isa<PHINode>(I)) continue; if (auto *ci = dyn_cast<CallInst>(&I)) if (auto *cf = ci->getCalledFunction()) if (cf->isIntrinsic() && (startsWith(cf->getName().str(), "llvm.dbg") || startsWith(cf->getName().str(), "llvm.lifetime") || startsWith(cf->getName().str(), "llvm.experimental.noalias"))) continue; pc++; } }
  for (auto &bb : *F) for (auto &I : bb) {
    if (isa<PHINode>(I)) continue;
    if (auto *ci = dyn_cast<CallInst>(&I)) if (auto *cf = ci->getCalledFunction()) if (cf->isIntrinsic() && (startsWith(cf->getName().str(), "llvm.dbg") || startsWith(cf->getName().str(), "llvm.lifetime") || startsWith(cf->getName().str(), "llvm.experimental.noalias"))) continue;
    DInst d; d.I = &I; d.opc = I.getOpcode();
    if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; d.ndst = flat(I.getType()).size(); }
    auto edge = [&](BasicBlock *to) { Edge e; e.target = bbpc[to]; for (auto &ph : to->phis()) { Opd o = opd(ph.getIncomingValueForBlock(&bb)); e.phis.push_back({slot[&ph], o.n, o.base}); } return e; };
    auto ew = [&](Type *t) { auto &f = flat(t); return f.empty() ? 0u : f[0].w; };
    try {
      switch (d.opc) {
      case Instruction::Br: {
        auto *b = cast<BranchInst>(&I); if (b->isConditional()) d.ops.push_back(opd(b->getCondition()));
        for (unsigned i = 0; i < b->getNumSuccessors(); i++) d.edges.push_back(edge(b->getSuccessor(i))); break; }
      case Instruction::Switch: {
        auto *s = cast<SwitchInst>(&I); d.ops.push_back(opd(s->getCondition())); d.w = ew(s->getCondition()->getType());
        d.edges.push_back(edge(s->getDefaultDest()));
        for (auto &c : s->cases()) { std::vector<Val> v; constVals(c.getCaseValue(), v); d.cases.push_back(v[0].c); d.edges.push_back(edge(c.getCaseSuccessor())); }
        break; }
      case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(&I); d.ops.push_back(opd(g->getPointerOperand()));
        if (g->getType()->isVectorTy()) d.sub = 1;
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value *ix = gti.getOperand();
          if (auto *st = gti.getStructTypeOrNull()) { d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { int64_t sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) d.off += ci->getSExtValue() * sc; else d.gep.push_back({opd(ix), sc, ew(ix->getType())}); }
        }
        break; }
      case Instruction::Load: d.ops.push_back(opd(cast<LoadInst>(&I)->getPointerOperand())); d.mem = &flat(I.getType()); break;
      case Instruction::Store: d.ops.push_back(opd(cast<StoreInst>(&I)->getValueOperand())); d.ops.push_back(opd(cast<StoreInst>(&I)->getPointerOperand())); d.mem = &flat(cast<StoreInst>(&I)->getValueOperand()->getType()); break;
      case Instruction::Alloca: { auto *a = cast<AllocaInst>(&I); d.ops.push_back(opd(a->getArraySize())); d.off = DL->getTypeAllocSize(a->getAllocatedType()); break; }
      case Instruction::Call: case Instruction::Invoke: {
        auto *c = cast<CallBase>(&I);
        for (auto &a : c->args()) d.ops.push_back(opd(a.get()));
        if (auto *iv = dyn_cast<InvokeInst>(&I)) { d.edges.push_back(edge(iv->getNormalDest())); }
        if (c->isInlineAsm()) { d.special = "asm"; d.sub = 99; }
        else if (auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) d.callee = getFunc(cf);
        else d.ops.push_back(opd(c->getCalledOperand()));
        if (c->arg_size()) { d.w = ew(c->getArgOperand(0)->getType()); }
        break; }
      case Instruction::ExtractValue: {
        auto *x = cast<ExtractValueInst>(&I); d.ops.push_back(opd(x->getAggregateOperand())); Type *t = x->getAggregateOperand()->getType(); int o = 0;
        for (unsigned ix : x->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) o += flat(st->getElementType(k)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); o += ix * flat(t).size(); } }
        d.off = o; break; }
      case Instruction::InsertValue: {
        auto *x = cast<InsertValueInst>(&I); d.ops.push_back(opd(x->getAggregateOperand())); d.ops.push_back(opd(x->getInsertedValueOperand())); Type *t = x->getType(); int o = 0;
        for (unsigned ix : x->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < ix; k++) o += flat(st->getElementType(k)).size(); t = st->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); o += ix * flat(t).size(); } }
        d.off = o; break; }
      case Instruction::ShuffleVector: { auto *s = cast<ShuffleVectorInst>(&I); d.ops.push_back(opd(s->getOperand(0))); d.ops.push_back(opd(s->getOperand(1))); for (int m : s->getShuffleMask()) d.idx.push_back(m); break; }
      case Instruction::LandingPad: case Instruction::Resume: break;
      case Instruction::AtomicRMW: { auto *a = cast<AtomicRMWInst>(&I); d.ops.push_back(opd(a->getPointerOperand())); d.ops.push_back(opd(a->getValOperand())); d.sub = a->getOperation(); d.mem = &flat(a->getValOperand()->getType()); break; }
      case Instruction::AtomicCmpXchg: { auto *a = cast<AtomicCmpXchgInst>(&I); d.ops.push_back(opd(a->getPointerOperand())); d.ops.push_back(opd(a->getCompareOperand())); d.ops.push_back(opd(a->getNewValOperand())); d.mem = &flat(a->getNewValOperand()->getType()); break; }
      default:
        for (auto &o : I.operands()) d.ops.push_back(opd(o.get()));
        if (I.getNumOperands()) d.w = ew(I.getOperand(0)->getType());
        if (!I.getType()->isVoidTy()) d.w2 = ew(I.getType());
        if (auto *c = dyn_cast<CmpInst>(&I)) d.sub = c->getPredicate();
      }
    } catch (PathEnd &p) { d.special = p.msg; d.sub = 98; }
    fi->code.push_back(std::move(d));
  }
}

// ---------- memory
static Obj *objRO(State &S, uint64_t id) {
  uint64_t ci = id >> 6; if (ci < S.mem.size() && S.mem[ci]) { Obj *o = S.mem[ci]->o[id & 63].get(); if (o) return o; }
  if (id < firstDynId) { ObjP g = globalObj(id); return g.get(); }
  return nullptr;
}
static ObjP &objSlot(State &S, uint64_t id) {
  uint64_t ci = id >> 6; if (ci >= S.mem.size()) S.mem.resize(ci + 1);
  if (!S.mem[ci]) S.mem[ci] = std::make_shared<Chunk>();
  else if (S.mem[ci].use_count() > 1) S.mem[ci] = std::make_shared<Chunk>(*S.mem[ci]);
  return S.mem[ci]->o[id & 63];
}
static Obj *objRW(State &S, uint64_t id) {
  if (id < firstDynId) {
    ObjP &s = objSlot(S, id);
    if (!s) { ObjP g = globalObj(id); if (!g) return nullptr; if (g->ro) throw PathEnd{"fault", "write to constant"}; s = std::make_shared<Obj>(*g); }
    else if (s.use_count() > 1) s = std::make_shared<Obj>(*s);
    return s.get();
  }
  uint64_t ci = id >> 6; if (ci >= S.mem.size() || !S.mem[ci] || !S.mem[ci]->o[id & 63]) return nullptr;
  ObjP &s = objSlot(S, id);
  if (s.use_count() > 1) s = std::make_shared<Obj>(*s);
  return s.get();
}
static std::string harnessName;
static uint64_t allocObj(State &S, uint64_t size, bool heap, const char *what) {
  if (size >= (1ull << OBJ_SHIFT) - 64) throw PathEnd{"huge_alloc", "allocation of " + std::to_string(size) + " bytes"};
  uint64_t id = S.nextId++; auto o = std::make_shared<Obj>(); o->size = size; o->heap = heap; o->what = what; o->c.assign(size, 0);
  objSlot(S, id) = o; S.nallocs++;
  return id << OBJ_SHIFT;
}
static void freeObj(State &S, uint64_t id) {
  ObjP &s = objSlot(S, id); s.reset();
  auto &ch = S.mem[id >> 6]; bool any = false; for (auto &o : ch->o) if (o) { any = true; break; }
  if (!any && (id >> 6) != ((S.nextId) >> 6) && (id >> 6) > (firstDynId >> 6)) ch.reset();
}

// ---------- solver helpers
static bool touchesFixed(State &S, Expr *e) { if (!S.nfixed || !e->syms) return false; for (uint32_t i : *e->syms) if (i < S.fixed.size() && S.fixed[i] >= 0) return true; return false; }
static Expr *substE(State &S, Expr *e, std::unordered_map<Expr *, Expr *> &memo) {
  if (e->op == OConst || !touchesFixed(S, e)) return e;
  if (e->op == OSym) return mkConst((u128)S.fixed[(*e->syms)[0]], 8);
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  Expr *r; Expr *a = substE(S, e->k[0], memo);
  switch (e->op) {
  case OExtract: r = mkExtract(a, e->lo, e->w); break;
  case OZExt: r = mkZExt(a, e->w); break;
  case OSExt: r = mkSExt(a, e->w); break;
  case OConcat: r = mkConcat(a, substE(S, e->k[1], memo)); break;
  case OIte: r = a->op == OConst ? substE(S, a->c ? e->k[1] : e->k[2], memo) : mkIte(a, substE(S, e->k[1], memo), substE(S, e->k[2], memo)); break;
  default: r = mkBin(e->op, a, substE(S, e->k[1], memo));
  }
  memo[e] = r; return r;
}
static Val subst(State &S, const Val &v) {
  if (!v.e || !touchesFixed(S, v.e)) return v;
  std::unordered_map<Expr *, Expr *> memo; Expr *r = substE(S, v.e, memo); if (r->op == OConst) return CV(r->c); return VE(r);
}
static void fixE(State &S, Expr *x, u128 c) {
  switch (x->op) {
  case OSym: { uint32_t i = (*x->syms)[0]; if (S.fixed.size() <= i) S.fixed.resize(i + 1, -1); if (S.fixed[i] < 0) { S.fixed[i] = (int16_t)(c & 0xff); S.nfixed++; } break; }
  case OZExt: case OSExt: fixE(S, x->k[0], c & maskw(x->k[0]->w)); break;
  case OConcat: fixE(S, x->k[1], c & maskw(x->k[1]->w)); fixE(S, x->k[0], c >> x->k[1]->w); break;
  default: break;
  }
}
static void addConstraint(State &S, Expr *e) {
  if (e->op == OConst) return;
  if (e->op == OAnd && e->w == 1) { addConstraint(S, e->k[0]); addConstraint(S, e->k[1]); return; }
  if (e->op == OXor && e->w == 1 && e->k[1]->op == OConst && e->k[0]->op == OOr) { addConstraint(S, mkNot(e->k[0]->k[0])); addConstraint(S, mkNot(e->k[0]->k[1])); return; }
  for (size_t i = S.cs.size(); i-- > 0;) if (S.cs[i] == e) return;
  S.cs.push_back(e);
  if (e->op == OEq) { if (e->k[1]->op == OConst) fixE(S, e->k[0], e->k[1]->c); else if (e->k[0]->op == OConst) fixE(S, e->k[1], e->k[0]->c); }
}
static bool modelVal(State &S, Expr *e) { return evalExpr(e, *S.model, S.gen) != 0; }
static void setModel(State &S, const ModelP &m) { S.model = m; S.gen = ++genCounter; }
static int known(State &S, Expr *c) {  // syntactic check
  Expr *n = mkNot(c);
  for (size_t i = S.cs.size(); i-- > 0;) { if (S.cs[i] == c) return 1; if (S.cs[i] == n) return 0; }
  return -1;
}
static bool feasible(State &S, Expr *c, ModelP &m) {
  if (c->op == OConst) { if (c->c) m = S.model; return c->c; }
  if (modelVal(S, c)) { m = S.model; SV->st.modelHits++; return true; }
  SRes r = SV->check(S.cs, c, S.model, m);
  if (r == S_UNKNOWN) throw PathEnd{"unknown", "solver timeout"};
  return r == S_SAT;
}
// Decide cond for the current state. If both sides are feasible, a clone (same pc) following the other side is queued.
// onClone may adjust the clone (e.g. move pc).
static bool decide(State &S, const Val &cond0, std::function<void(State &, bool)> onClone = nullptr) {
  if (!cond0.e) return cond0.c & 1;
  Val cond = subst(S, cond0); if (!cond.e) return cond.c & 1;
  Expr *c = cond.e; int k = known(S, c); if (k >= 0) return k;
  bool v = modelVal(S, c); Expr *other = v ? mkNot(c) : c; ModelP m;
  SRes r = SV->check(S.cs, other, S.model, m);
  if (r == S_UNKNOWN) throw PathEnd{"unknown", "solver timeout at branch"};
  if (r == S_SAT) {
    auto n = std::make_unique<State>(S); addConstraint(*n, other); setModel(*n, m); n->forks++; totForks++; S.st.back().f->forks++;
    if (onClone) onClone(*n, !v);
    work.push_back(std::move(n));
    addConstraint(S, v ? c : mkNot(c)); S.forks++;
  }
  return v;
}
static u128 concretize(State &S, const Val &v0, unsigned w) {
  if (!v0.e) return v0.c;
  Val v = subst(S, v0); if (!v.e) return v.c;
  for (;;) {
    u128 x = evalExpr(v.e, *S.model, S.gen);
    decide(S, VE(mkBin(OEq, v.e, mkConst(x, w))));
    return x;
  }
}
// Float arithmetic is not encoded: an operand takes a few telling values, one path each, and the exploration is
// marked incomplete. A counterexample found this way is still one; a pass is no longer possible.
static void noteIncomplete(const std::string &m);
static u128 fsample(State &S, const Val &v0, unsigned w) {
  if (!v0.e) return v0.c;
  Val v = subst(S, v0); if (!v.e) return v.c;
  u128 x0 = evalExpr(v.e, *S.model, S.gen); ModelP m;
  if (!feasible(S, mkNot(mkBin(OEq, v.e, mkConst(x0, w))), m)) return x0;
  noteIncomplete("sampled: symbolic float arithmetic");
  static const uint64_t sp64[] = {0x8000000000000000ull, 0x3fb999999999999aull, 0x7ff8000000000000ull, 0x7ff4000000000001ull, 0x7ff0000000000000ull, 0x7fefffffffffffffull, 1ull, 0xc05edd2f1a9fbe77ull};
  static const uint64_t sp32[] = {0x80000000u, 0x3dcccccdu, 0x7fc00000u, 0x7fa00001u, 0x7f800000u, 0x7f7fffffu, 1u, 0xc2f6e979u};
  for (int i = 0; i < 8; i++) {
    Expr *c = mkBin(OEq, v.e, mkConst(w == 64 ? sp64[i] : sp32[i], w)); ModelP k;
    if (!feasible(S, c, k)) continue;
    auto n = std::make_unique<State>(S); addConstraint(*n, c); setModel(*n, k); n->forks++; totForks++; work.push_back(std::move(n));
  }
  addConstraint(S, mkBin(OEq, v.e, mkConst(x0, w)));
  return x0;
}
static u128 maxValue(State &S, Expr *e, u128 hint) {  // smallest proven upper bound, by binary search
  u128 lo = evalExpr(e, *S.model, S.gen), hi = std::min(e->mx, hint);
  while (lo < hi) {
    u128 mid = lo + (hi - lo) / 2; ModelP m;
    SRes r = SV->check(S.cs, mkBin(OUlt, mkConst(mid, e->w), e), S.model, m);
    if (r == S_UNKNOWN) throw PathEnd{"unknown", "solver timeout"};
    if (r == S_SAT) lo = std::max((u128)(mid + 1), evalExpr(e, *m, ++genCounter)); else hi = mid;
  }
  S.gen = ++genCounter;
  return hi;
}

// ---------- loads/stores
static Val byteAt(Obj *o, uint64_t i) { if (!o->s.empty() && o->s[i]) return Val{o->s[i], 0}; return CV(o->c[i]); }
static void setByte(Obj *o, uint64_t i, const Val &v) {
  if (v.e) { if (o->s.empty()) o->s.assign(o->c.size(), nullptr); o->s[i] = v.e; }
  else { if (!o->s.empty()) o->s[i] = nullptr; o->c[i] = (uint8_t)v.c; }
}
static Val readObj(Obj *o, uint64_t off, unsigned w) {
  unsigned nb = (w + 7) / 8; if (w > 128) unsupported("wide load");
  bool sym = false; if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) { u128 v = 0; memcpy(&v, &o->c[off], nb); return CV(v & maskw(w)); }
  Expr *r = EX(byteAt(o, off), 8);
  for (unsigned i = 1; i < nb; i++) r = mkConcat(EX(byteAt(o, off + i), 8), r);
  if (w < nb * 8) r = mkExtract(r, 0, w);
  return VE(r);
}
static void writeObj(Obj *o, uint64_t off, const Val &v, unsigned w) {
  unsigned nb = (w + 7) / 8; if (w > 128) unsupported("wide store");
  if (!v.e) { u128 c = v.c; memcpy(&o->c[off], &c, nb); if (!o->s.empty()) for (unsigned i = 0; i < nb; i++) o->s[off + i] = nullptr; return; }
  Expr *e = v.e; if (w < nb * 8) e = mkZExt(e, nb * 8);
  for (unsigned i = 0; i < nb; i++) setByte(o, off + i, VE(mkExtract(e, 8 * i, 8)));
}
static std::string hex(u128 v) { char b[64]; snprintf(b, 64, "0x%llx", (unsigned long long)v); return b; }
// resolve symbolic address to an object; afterwards the offset is constrained to be in bounds for n bytes
static uint64_t resolve(State &S, const Val &addr0, uint64_t n, Val &off) {
  Val addr = subst(S, addr0);
  uint64_t a = addr.e ? (uint64_t)evalExpr(addr.e, *S.model, S.gen) : (uint64_t)addr.c;
  uint64_t id = a >> OBJ_SHIFT; Obj *o = objRO(S, id);
  if (!addr.e) { if (!o || (a & OFF_MASK) + n > o->size) throw PathEnd{"fault", "bad access at " + hex(a) + " size " + std::to_string(n) + (o ? std::string(" obj ") + o->what + " size " + std::to_string(o->size) : " no object")}; off = CV(a & OFF_MASK); return id; }
  if (!o || o->size < n) throw PathEnd{"fault", "bad symbolic access"};
  Expr *oe = mkBin(OSub, addr.e, mkConst(id << OBJ_SHIFT, 64));
  Val inb = VE(mkBin(OUlt, oe, mkConst(o->size - n + 1, 64)));
  if (!decide(S, inb)) throw PathEnd{"fault", "out of bounds symbolic access (" + std::string(o->what) + " size " + std::to_string(o->size) + ")"};
  off = VE(oe); return id;
}
// does any candidate slot hold a pointer? Then one path per slot is far cheaper than an ITE of pointers.
static bool holdsPointer(State &S, Obj *o, const std::vector<uint64_t> &cand, uint64_t n) {
  for (uint64_t k : cand) for (uint64_t j = (k + 7) & ~7ull; j + 8 <= k + n; j += 8) {
    if (!o->s.empty() && o->s[j]) continue;
    uint64_t v; memcpy(&v, &o->c[j], 8); if ((v >> OBJ_SHIFT) != 0 && (v >> 48) == 0 && objRO(S, v >> OBJ_SHIFT)) return true;
  }
  return false;
}
static unsigned tz(Expr *e) {
  switch (e->op) {
  case OConst: { if (!e->c) return e->w; unsigned n = 0; u128 c = e->c; while (!(c & 1)) { c >>= 1; n++; } return n; }
  case OConcat: { unsigned t = tz(e->k[1]); return t == e->k[1]->w ? t + tz(e->k[0]) : t; }
  case OZExt: case OSExt: { unsigned t = tz(e->k[0]); return t == e->k[0]->w ? e->w : t; }
  case OAdd: case OSub: case OOr: return std::min(tz(e->k[0]), tz(e->k[1]));
  case OMul: return std::min((unsigned)e->w, tz(e->k[0]) + tz(e->k[1]));
  case OIte: return std::min(tz(e->k[1]), tz(e->k[2]));
  default: return 0;
  }
}
static void candidates(State &S, Expr *off, uint64_t size, uint64_t n, std::vector<uint64_t> &out) {
  uint64_t stride = 1ull << std::min(tz(off), 12u);
  uint64_t lo = (uint64_t)off->mn, hi = (uint64_t)std::min(off->mx, (u128)(size - n));
  if ((hi - lo) / stride > 64) { hi = (uint64_t)maxValue(S, off, hi); }
  for (uint64_t o = (lo + stride - 1) / stride * stride; o <= hi; o += stride) out.push_back(o);
  if (out.size() > 4096) unsupported("symbolic index over " + std::to_string(out.size()) + " slots");
}
static void memRead(State &S, const Val &addr, const std::vector<FlatEl> &els, uint64_t n, Val *dst) {
  Val off; uint64_t id = resolve(S, addr, n, off); Obj *o = objRO(S, id);
  if (!off.e) { for (size_t i = 0; i < els.size(); i++) dst[i] = subst(S, readObj(o, (uint64_t)off.c + els[i].off, els[i].w)); return; }
  std::vector<uint64_t> cand; candidates(S, off.e, o->size, n, cand);
  if (cand.size() <= 256 && n >= 8 && holdsPointer(S, o, cand, n)) {
    uint64_t k = (uint64_t)concretize(S, off, 64); o = objRO(S, id);
    for (size_t i = 0; i < els.size(); i++) dst[i] = readObj(o, k + els[i].off, els[i].w);
    return;
  }
  for (size_t i = 0; i < els.size(); i++) {
    Expr *r = nullptr;
    for (size_t k = cand.size(); k-- > 0;) { Expr *v = EX(readObj(o, cand[k] + els[i].off, els[i].w), els[i].w); r = r ? mkIte(mkBin(OEq, off.e, mkConst(cand[k], 64)), v, r) : v; }
    dst[i] = VE(r);
  }
}
static void memWrite(State &S, const Val &addr, const std::vector<FlatEl> &els, uint64_t n, const Val *src) {
  Val off; uint64_t id = resolve(S, addr, n, off); Obj *o = objRW(S, id);
  if (!off.e) { for (size_t i = 0; i < els.size(); i++) writeObj(o, (uint64_t)off.c + els[i].off, src[i], els[i].w); return; }
  std::vector<uint64_t> cand; candidates(S, off.e, o->size, n, cand); o = objRW(S, id);
  for (size_t i = 0; i < els.size(); i++) for (uint64_t k : cand) {
    Val old = readObj(o, k + els[i].off, els[i].w);
    writeObj(o, k + els[i].off, VE(mkIte(mkBin(OEq, off.e, mkConst(k, 64)), EX(src[i], els[i].w), EX(old, els[i].w))), els[i].w);
  }
}
static uint64_t storeSize(const std::vector<FlatEl> &e) { uint64_t n = 0; for (auto &x : e) n = std::max<uint64_t>(n, x.off + (x.w + 7) / 8); return n; }

static Val readByteAny(State &S, const Val &base, uint64_t i) {
  static const std::vector<FlatEl> b8 = {{0, 8}}; Val v; memRead(S, vbin(OAdd, base, CV(i), 64), b8, 1, &v); return v;
}
static void writeByteAny(State &S, const Val &base, uint64_t i, const Val &v) {
  static const std::vector<FlatEl> b8 = {{0, 8}}; memWrite(S, vbin(OAdd, base, CV(i), 64), b8, 1, &v);
}
static void doMemcpy(State &S, const Val &d0, const Val &s0, const Val &n0) {
  Val d = subst(S, d0), s = subst(S, s0), n = subst(S, n0);
  if (!n.e && n.c == 0) return;
  if (!n.e && !d.e && !s.e) {
    Val od, os; uint64_t N = (uint64_t)n.c; uint64_t is = resolve(S, s, N, os), id = resolve(S, d, N, od);
    Obj *dst = objRW(S, id); Obj *src = objRO(S, is); uint64_t a = (uint64_t)od.c, b = (uint64_t)os.c;
    memmove(&dst->c[a], &src->c[b], N);
    if (!src->s.empty()) { if (dst->s.empty()) dst->s.assign(dst->c.size(), nullptr); memmove(&dst->s[a], &src->s[b], N * sizeof(Expr *)); }
    else if (!dst->s.empty()) std::fill(dst->s.begin() + a, dst->s.begin() + a + N, nullptr);
    return;
  }
  if (!n.e) {
    uint64_t N = (uint64_t)n.c; std::vector<Val> tmp; if (N > 4096) unsupported("large memcpy at symbolic address");
    Val o1; uint64_t is = resolve(S, s, N, o1);   // forks happen here, before any effect
    if (o1.e && N >= 8) { std::vector<uint64_t> cand; candidates(S, o1.e, objRO(S, is)->size, N, cand); if (cand.size() <= 256 && holdsPointer(S, objRO(S, is), cand, N)) { concretize(S, s, 64); doMemcpy(S, d, CV(evalExpr(s.e, *S.model, S.gen)), n); return; } }
    resolve(S, d, N, o1);
    for (uint64_t i = 0; i < N; i++) tmp.push_back(readByteAny(S, s, i));
    for (uint64_t i = 0; i < N; i++) writeByteAny(S, d, i, tmp[i]);
    return;
  }
  if (d.e || s.e) { concretize(S, n, 64); Val nn = CV(evalExpr(n.e, *S.model, S.gen)); doMemcpy(S, d, s, nn); return; }
  Val os, od; 
  // symbolic length: bound it by object sizes
  uint64_t is = (uint64_t)s.c >> OBJ_SHIFT, id = (uint64_t)d.c >> OBJ_SHIFT; Obj *so = objRO(S, is), *dob = objRO(S, id);
  if (!so || !dob) { if (decide(S, VE(mkBin(OEq, n.e, mkConst(0, 64))))) return; throw PathEnd{"fault", "memcpy bad pointer"}; }
  uint64_t room = std::min(so->size - ((uint64_t)s.c & OFF_MASK), dob->size - ((uint64_t)d.c & OFF_MASK));
  if (!decide(S, VE(mkBin(OUlt, n.e, mkConst(room + 1, 64))))) throw PathEnd{"fault", "memcpy out of bounds"};
  uint64_t mx = room; if (mx > 8) mx = (uint64_t)maxValue(S, n.e, room);
  if (mx > 65536) unsupported("symbolic memcpy of up to " + std::to_string(mx));
  std::vector<Val> tmp; so = objRO(S, is); for (uint64_t i = 0; i < mx; i++) tmp.push_back(byteAt(so, ((uint64_t)s.c & OFF_MASK) + i));
  dob = objRW(S, id);
  for (uint64_t i = 0; i < mx; i++) { uint64_t p = ((uint64_t)d.c & OFF_MASK) + i; Val old = byteAt(dob, p); setByte(dob, p, VE(mkIte(mkBin(OUlt, mkConst(i, 64), n.e), EX(tmp[i], 8), EX(old, 8)))); }
}
static void doMemset(State &S, const Val &d, const Val &v, const Val &n) {
  if (!n.e && n.c == 0) return;
  if (!n.e && !d.e) {
    Val od; uint64_t N = (uint64_t)n.c; uint64_t id = resolve(S, d, N, od); Obj *o = objRW(S, id);
    if (!v.e) { memset(&o->c[(uint64_t)od.c], (int)v.c, N); if (!o->s.empty()) std::fill(o->s.begin() + (uint64_t)od.c, o->s.begin() + (uint64_t)od.c + N, nullptr); }
    else for (uint64_t i = 0; i < N; i++) setByte(o, (uint64_t)od.c + i, v);
    return;
  }
  if (d.e) { uint64_t N = (uint64_t)concretize(S, n, 64); Val o1; resolve(S, d, N, o1); for (uint64_t i = 0; i < N; i++) writeByteAny(S, d, i, v); return; }
  uint64_t id = (uint64_t)d.c >> OBJ_SHIFT; Obj *o = objRO(S, id); if (!o) throw PathEnd{"fault", "memset bad pointer"};
  uint64_t room = o->size - ((uint64_t)d.c & OFF_MASK);
  if (!decide(S, VE(mkBin(OUlt, n.e, mkConst(room + 1, 64))))) throw PathEnd{"fault", "memset out of bounds"};
  uint64_t mx = (uint64_t)maxValue(S, n.e, room); if (mx > 65536) unsupported("symbolic memset");
  o = objRW(S, id);
  for (uint64_t i = 0; i < mx; i++) { uint64_t p = ((uint64_t)d.c & OFF_MASK) + i; Val old = byteAt(o, p); setByte(o, p, VE(mkIte(mkBin(OUlt, mkConst(i, 64), n.e), EX(v, 8), EX(old, 8)))); }
}
static std::string readStr(State &S, uint64_t p, uint64_t n) {
  Obj *o = objRO(S, p >> OBJ_SHIFT); if (!o || (p & OFF_MASK) + n > o->size || n > 400) return "?";
  std::string r; for (uint64_t i = 0; i < n; i++) r += (char)o->c[(p & OFF_MASK) + i]; return r;
}
static std::vector<uint8_t> inputOf(State &S) { std::vector<uint8_t> r; for (uint32_t i = 0; i < S.nsyms; i++) r.push_back(i < S.model->size() ? (*S.model)[i] : 0); return r; }
static void recordViol(State &S, const std::string &kind, const std::string &msg, const std::string &loc) {
  std::string key = kind + "|" + loc + "|" + (kind == "check" ? "" : S.st.back().f->dem);
  if (kind == "check") key = kind + "|" + msg;
  if (!violKeys.insert(key).second) return;
  Viol v; v.key = key; v.kind = kind; v.msg = msg; v.loc = loc; v.input = inputOf(S);
  for (size_t i = S.st.size(); i-- > 0 && v.trace.size() < 40;) v.trace.push_back(S.st[i].f->dem);
  viols.push_back(v);
}

// ---------- externals
static void allocSized(State &S, const Val &size, uint64_t &addr) {
  if (!size.e) {
    if (size.c > optAllocLimit) throw PathEnd{"huge_alloc", "allocation of " + std::to_string((uint64_t)size.c) + " bytes"};
    addr = allocObj(S, (uint64_t)size.c, true, "heap"); return;
  }
  if (!decide(S, VE(mkBin(OUlt, size.e, mkConst(optAllocLimit + 1, 64))))) throw PathEnd{"huge_alloc", "allocation whose size is controlled by the input can exceed " + std::to_string(optAllocLimit) + " bytes"};
  uint64_t caps[] = {64, 512, 8192, optAllocLimit};
  uint64_t cap = optAllocLimit;
  for (uint64_t c : caps) { if (c >= optAllocLimit) break; if (decide(S, VE(mkBin(OUlt, size.e, mkConst(c + 1, 64))))) { cap = c; break; } }
  addr = allocObj(S, cap, true, "heap");
  objRW(S, addr >> OBJ_SHIFT)->symSize = size.e;
}
static void freePtr(State &S, const Val &p) {
  uint64_t a = (uint64_t)concretize(S, p, 64); if (!a) return;
  Obj *o = objRO(S, a >> OBJ_SHIFT); if (!o || !o->heap || (a & OFF_MASK)) throw PathEnd{"fault", "invalid free of " + hex(a)};
  freeObj(S, a >> OBJ_SHIFT);
}
static Val memcmpVal(State &S, const Val &a, const Val &b, uint64_t n, bool eqOnly) {
  Val o; if (n) { resolve(S, a, n, o); resolve(S, b, n, o); }
  if (eqOnly) {
    Val eq = CV(1);
    for (uint64_t i = 0; i < n; i++) { eq = vbin(OAnd, eq, vbin(OEq, readByteAny(S, a, i), readByteAny(S, b, i), 8), 1); if (!eq.e && !eq.c) break; }
    return vite(eq, CV(0), CV(1), 32);
  }
  Val r = CV(0);
  for (uint64_t i = n; i-- > 0;) {
    Val x = readByteAny(S, a, i), y = readByteAny(S, b, i);
    Val d = vite(vbin(OUlt, x, y, 8), CV(0xffffffff), CV(1), 32);
    r = vite(vbin(OEq, x, y, 8), r, d, 32);
  }
  return r;
}
static bool callExternal(State &S, FuncInfo *f, DInst &d, std::vector<Val> &a, Val *ret) {
  const std::string &n = f->name;
  auto conc = [&](int i, unsigned w = 64) { return concretize(S, a[i], w); };
  if (n == "sym_bytes" && conc(1) == 0) return true;
  if (n == "sym_bytes") {
    uint64_t len = (uint64_t)conc(1); Val off; uint64_t id = resolve(S, a[0], len, off); Obj *o = objRW(S, id);
    if (concreteMode) { for (uint64_t i = 0; i < len; i++) { uint8_t b = concretePos < concreteInput.size() ? concreteInput[concretePos] : 0; concretePos++; setByte(o, (uint64_t)off.c + i, CV(b)); } S.nsyms += len; return true; }
    S.syms.push_back({S.nsyms, (uint32_t)len});
    for (uint64_t i = 0; i < len; i++) setByte(o, (uint64_t)off.c + i, VE(mkSym(S.nsyms + i, 8)));
    S.nsyms += len; return true;
  }
  if (n == "sym_assume") {
    nAssumes++;
    if (!a[0].e) { if (!(a[0].c & 1)) throw PathEnd{"assume", ""}; return true; }
    Expr *c = a[0].e->w == 1 ? a[0].e : mkExtract(a[0].e, 0, 1); ModelP m;
    if (!feasible(S, c, m)) throw PathEnd{"assume", ""};
    addConstraint(S, c); if (m != S.model) setModel(S, m);
    return true;
  }
  if (n == "sym_check") {
    uint64_t id = (uint64_t)conc(1, 32); checksSeen[id]++;
    if (!a[0].e) { if (!(a[0].c & 1)) { recordViol(S, "check", "check " + std::to_string(id), ""); throw PathEnd{"check", "check " + std::to_string(id)}; } return true; }
    Expr *c = a[0].e->w == 1 ? a[0].e : mkExtract(a[0].e, 0, 1); checksSolved[id]++;
    ModelP m; Expr *nc = mkNot(c);
    if (nc->op != OConst ? feasible(S, nc, m) : nc->c != 0) {
      State t(S); if (m) setModel(t, m); recordViol(t, "check", "check " + std::to_string(id), "");
      ModelP m2; if (!feasible(S, c, m2)) throw PathEnd{"check", "check " + std::to_string(id)};
      addConstraint(S, c); if (m2 != S.model) setModel(S, m2);
    } else addConstraint(S, c);
    return true;
  }
  if (n == "sym_harness") { uint64_t cap = (uint64_t)conc(1); if (harnessName.size() > cap) throw PathEnd{"unsupported", "harness name"}; for (size_t i = 0; i < harnessName.size(); i++) writeByteAny(S, a[0], i, CV((uint8_t)harnessName[i])); ret[0] = CV(harnessName.size()); return true; }
  if (n == "sym_cover") { covers[(uint64_t)conc(0, 32)]++; return true; }
  if (n == "sym_concretize") { ret[0] = CV(conc(0)); return true; }
  if (n == "sym_panic_ok") { S.panicOk = conc(0, 1) & 1; return true; }
  if (n == "sym_stub_fmt") { S.stubFmt = conc(0, 1) & 1; return true; }
  if (n == "sym_alloc_ok") { S.allocOk = conc(0, 1) & 1; return true; }
  if (n == "sym_print") { fprintf(stderr, "sym_print: %s\n", a[0].e ? exprStr(a[0].e).c_str() : hex(a[0].c).c_str()); return true; }
  if (n == "sym_done") throw PathEnd{"ret", ""};
  if (n == "malloc") { uint64_t p; allocSized(S, a[0], p); ret[0] = CV(p); return true; }
  if (n == "calloc") {
    Val sz = vbin(OMul, a[0], a[1], 64); if (a[0].e || a[1].e) { Val ov = vext(vbin(OMul, vzext(a[0], 128), vzext(a[1], 128), 128), 64, 64); if (!decide(S, vbin(OEq, ov, CV(0), 64))) throw PathEnd{"huge_alloc", "calloc overflow"}; }
    uint64_t p; allocSized(S, sz, p); ret[0] = CV(p); return true; }
  if (n == "posix_memalign") { uint64_t p; allocSized(S, a[2], p); static const std::vector<FlatEl> e = {{0, 64}}; Val v = CV(p); memWrite(S, a[0], e, 8, &v); ret[0] = CV(0); return true; }
  if (n == "aligned_alloc" || n == "memalign") { uint64_t p; allocSized(S, a[1], p); ret[0] = CV(p); return true; }
  if (n == "realloc") {
    uint64_t old = (uint64_t)conc(0); Val sz = a[1]; uint64_t p; allocSized(S, sz, p);
    if (old) {
      Obj *o = objRO(S, old >> OBJ_SHIFT); if (!o || !o->heap) throw PathEnd{"fault", "bad realloc"};
      uint64_t nn = std::min(o->size, objRO(S, p >> OBJ_SHIFT)->size); doMemcpy(S, CV(p), CV(old), CV(nn)); freeObj(S, old >> OBJ_SHIFT);
    }
    ret[0] = CV(p); return true; }
  if (n == "free") { freePtr(S, a[0]); return true; }
  if (n == "memcpy" || n == "memmove") { doMemcpy(S, a[0], a[1], a[2]); if (ret) ret[0] = a[0]; return true; }
  if (n == "memset") { doMemset(S, a[0], vext(a[1], 0, 8), a[2]); if (ret) ret[0] = a[0]; return true; }
  if (n == "bcmp" || n == "memcmp") { uint64_t len = (uint64_t)conc(2); ret[0] = memcmpVal(S, a[0], a[1], len, n == "bcmp"); return true; }
  if (n == "strlen") { uint64_t i = 0; for (;; i++) { Val b = readByteAny(S, a[0], i); if (decide(S, vbin(OEq, b, CV(0), 8))) break; } ret[0] = CV(i); return true; }
  if (n == "memchr") { uint64_t len = (uint64_t)conc(2); for (uint64_t i = 0; i < len; i++) if (decide(S, vbin(OEq, readByteAny(S, a[0], i), vext(a[1], 0, 8), 8))) { ret[0] = vbin(OAdd, a[0], CV(i), 64); return true; } ret[0] = CV(0); return true; }
  if (n == "abort" || n == "exit" || n == "_exit") throw PathEnd{"abort", n};
  if (n == "write") { ret[0] = a[2]; return true; }
  if (n == "writev") { ret[0] = CV(1 << 20); return true; }
  if (n == "getenv") { ret[0] = CV(0); return true; }
  if (n == "syscall" || n == "getrandom") { for (int i = 0; i < d.ndst; i++) ret[i] = n == "syscall" ? a[2] : a[1]; return true; }
  if (n == "__errno_location") { ret[0] = CV(allocObj(S, 8, false, "errno")); return true; }
  if (n == "__cxa_thread_atexit_impl") { ret[0] = CV(0); return true; }
  if (n == "pthread_self") { ret[0] = CV(1); return true; }
  if (n == "log2" || n == "log" || n == "floor" || n == "ceil" || n == "pow" || n == "log10" || n == "exp2" || n == "round" || n == "trunc") {
    for (auto &x : a) if (x.e) x = CV(fsample(S, x, 64));
    auto D = [&](int i) { double v; uint64_t b = (uint64_t)a[i].c; memcpy(&v, &b, 8); return v; }; double r;
    if (n == "log2") r = log2(D(0)); else if (n == "log") r = log(D(0)); else if (n == "floor") r = floor(D(0)); else if (n == "ceil") r = ceil(D(0)); else if (n == "pow") r = pow(D(0), D(1)); else if (n == "log10") r = log10(D(0)); else if (n == "exp2") r = exp2(D(0)); else if (n == "round") r = round(D(0)); else r = trunc(D(0));
    uint64_t b; memcpy(&b, &r, 8); ret[0] = CV(b); return true; }
  unsupported("external " + n);
}
static Val ctlzV(const Val &x, unsigned w) { if (!x.e) { unsigned n = 0; while (n < w && !((x.c >> (w - 1 - n)) & 1)) n++; return CV(n); } Val r = CV(w); for (unsigned i = 0; i < w; i++) r = vite(vext(x, i, 1), CV(w - 1 - i), r, w); return r; }
static Val cttzV(const Val &x, unsigned w) { if (!x.e) { unsigned n = 0; while (n < w && !((x.c >> n) & 1)) n++; return CV(n); } Val r = CV(w); for (unsigned i = w; i-- > 0;) r = vite(vext(x, i, 1), CV(i), r, w); return r; }
static void callIntrinsic(State &S, FuncInfo *f, DInst &d, std::vector<Val> &a, Val *ret) {
  std::string n = f->name.substr(5); auto is = [&](const char *p) { return startsWith(n, p); };
  if (is("memcpy") || is("memmove")) { doMemcpy(S, a[0], a[1], a[2]); return; }
  if (is("memset")) { doMemset(S, a[0], a[1], a[2]); return; }
  if (is("assume") || is("prefetch") || is("x86.sse2.pause") || is("donothing") || is("va_") || is("stackrestore")) return;
  if (is("stacksave")) { ret[0] = CV(0); return; }
  if (is("trap") || is("debugtrap")) throw PathEnd{"abort", "trap"};
  if (is("expect") || is("threadlocal.address") || is("launder") || is("strip") || is("ssa.copy")) { for (int i = 0; i < d.ndst; i++) ret[i] = a[i]; return; }
  if (is("is.constant")) { ret[0] = CV(0); return; }
  if (is("ptrmask")) { ret[0] = vbin(OAnd, a[0], a[1], 64); return; }
  if (is("load.relative")) { Val p = vbin(OAdd, a[0], a[1], 64); static const std::vector<FlatEl> e = {{0, 32}}; Val v; memRead(S, p, e, 4, &v); ret[0] = vbin(OAdd, a[0], vsext(v, 32, 64), 64); return; }
  unsigned w = d.w; 
  if (n.find(".with.overflow") != std::string::npos) {
    int L = d.ndst / 2; bool sg = n[0] == 's'; char o = n[1]; Op op = o == 'a' ? OAdd : o == 's' ? OSub : OMul;
    for (int i = 0; i < L; i++) {
      Val x = a[i], y = a[L + i]; ret[i] = vbin(op, x, y, w); Val ov;
      if (op == OMul) {
        if (w > 64) { if (x.e || y.e) unsupported("128-bit symbolic mul overflow"); u128 p = ret[i].c; ov = CV(!sg ? (x.c && p / x.c != y.c) : 0); if (sg) unsupported("i128 smul"); }
        else { unsigned w2 = 2 * w; Val p = sg ? vbin(OMul, vsext(x, w, w2), vsext(y, w, w2), w2) : vbin(OMul, vzext(x, w2), vzext(y, w2), w2); Val ex = sg ? vsext(ret[i], w, w2) : vzext(ret[i], w2); 
          if (!sg) ov = vnot1(vbin(OEq, vext(p, w, w), CV(0), w)); else ov = vnot1(vbin(OEq, p, ex, w2)); }
      } else if (!sg) ov = op == OAdd ? vbin(OUlt, ret[i], x, w) : vbin(OUlt, x, y, w);
      else { Val sx = vext(x, w - 1, 1), sy = vext(y, w - 1, 1), sr = vext(ret[i], w - 1, 1); if (op == OAdd) ov = vbin(OAnd, vbin(OEq, sx, sy, 1), vnot1(vbin(OEq, sr, sx, 1)), 1); else ov = vbin(OAnd, vnot1(vbin(OEq, sx, sy, 1)), vnot1(vbin(OEq, sr, sx, 1)), 1); }
      ret[L + i] = ov;
    }
    return;
  }
  int L = d.ndst;
  auto arg = [&](int k, int i) { return a[k * L + i]; };
  if (is("uadd.sat")) { for (int i = 0; i < L; i++) { Val r = vbin(OAdd, arg(0, i), arg(1, i), w); ret[i] = vite(vbin(OUlt, r, arg(0, i), w), CV(maskw(w)), r, w); } return; }
  if (is("usub.sat")) { for (int i = 0; i < L; i++) ret[i] = vite(vbin(OUlt, arg(0, i), arg(1, i), w), CV(0), vbin(OSub, arg(0, i), arg(1, i), w), w); return; }
  if (is("sadd.sat") || is("ssub.sat")) { bool ad = is("sadd.sat"); if (w > 64) unsupported("sat128"); for (int i = 0; i < L; i++) { unsigned w2 = w + 1; Val r = vbin(ad ? OAdd : OSub, vsext(arg(0, i), w, w2), vsext(arg(1, i), w, w2), w2); u128 mx = maskw(w - 1), mnv = (u128)1 << (w - 1); Val hi = vbin(OSlt, CV(mx), r, w2), lo = vbin(OSlt, r, CV((u128)sxt(mnv, w) & maskw(w2)), w2); ret[i] = vite(hi, CV(mx), vite(lo, CV(mnv), vext(r, 0, w), w), w); } return; }
  if (is("umin")) { for (int i = 0; i < L; i++) ret[i] = vite(vbin(OUlt, arg(0, i), arg(1, i), w), arg(0, i), arg(1, i), w); return; }
  if (is("umax")) { for (int i = 0; i < L; i++) ret[i] = vite(vbin(OUlt, arg(0, i), arg(1, i), w), arg(1, i), arg(0, i), w); return; }
  if (is("smin")) { for (int i = 0; i < L; i++) ret[i] = vite(vbin(OSlt, arg(0, i), arg(1, i), w), arg(0, i), arg(1, i), w); return; }
  if (is("smax")) { for (int i = 0; i < L; i++) ret[i] = vite(vbin(OSlt, arg(0, i), arg(1, i), w), arg(1, i), arg(0, i), w); return; }
  if (is("abs")) { for (int i = 0; i < L; i++) ret[i] = vite(vext(a[i], w - 1, 1), vbin(OSub, CV(0), a[i], w), a[i], w); return; }
  if (is("ctlz")) { for (int i = 0; i < L; i++) ret[i] = ctlzV(a[i], w); return; }
  if (is("cttz")) { for (int i = 0; i < L; i++) ret[i] = cttzV(a[i], w); return; }
  if (is("ctpop")) { for (int i = 0; i < L; i++) { Val r = CV(0); for (unsigned b = 0; b < w; b++) r = vbin(OAdd, r, vzext(vext(a[i], b, 1), w), w); ret[i] = r; } return; }
  if (is("bswap")) { for (int i = 0; i < L; i++) { Val r = vext(a[i], 0, 8); for (unsigned b = 8; b < w; b += 8) r = vconcat(r, b, vext(a[i], b, 8), 8); ret[i] = r; } return; }
  if (is("bitreverse")) { for (int i = 0; i < L; i++) { Val r = vext(a[i], 0, 1); for (unsigned b = 1; b < w; b++) r = vconcat(r, b, vext(a[i], b, 1), 1); ret[i] = r; } return; }
  if (is("fshl") || is("fshr")) {
    for (int i = 0; i < L; i++) {
      Val s = vbin(OURem, arg(2, i), CV(w), w); Val x = arg(0, i), y = arg(1, i); bool l = is("fshl");
      if (!s.e) { unsigned k = (unsigned)s.c; if (k == 0) ret[i] = l ? x : y; else { if (!l) k = w - k; ret[i] = vconcat(vext(x, 0, w - k), w - k, vext(y, w - k, k), k); } }
      else { Val inv = vbin(OSub, CV(w), s, w); if (l) ret[i] = vite(vbin(OEq, s, CV(0), w), x, vbin(OOr, vbin(OShl, x, s, w), vbin(OLShr, y, inv, w), w), w); else ret[i] = vite(vbin(OEq, s, CV(0), w), y, vbin(OOr, vbin(OLShr, y, s, w), vbin(OShl, x, inv, w), w), w); }
    }
    return;
  }
  if (is("vector.reduce.")) {
    std::string o = n.substr(14); Val r = a[0];
    for (size_t i = 1; i < a.size(); i++) {
      if (startsWith(o, "add")) r = vbin(OAdd, r, a[i], w); else if (startsWith(o, "and")) r = vbin(OAnd, r, a[i], w); else if (startsWith(o, "or")) r = vbin(OOr, r, a[i], w); else if (startsWith(o, "xor")) r = vbin(OXor, r, a[i], w); else if (startsWith(o, "mul")) r = vbin(OMul, r, a[i], w);
      else if (startsWith(o, "umax")) r = vite(vbin(OUlt, r, a[i], w), a[i], r, w); else if (startsWith(o, "umin")) r = vite(vbin(OUlt, r, a[i], w), r, a[i], w); else unsupported("reduce " + o);
    }
    ret[0] = r; return;
  }
  if (is("x86.addcarry.64") || is("x86.addcarry.32") || is("x86.subborrow.64") || is("x86.subborrow.32")) {
    // (carry in, x, y) -> {carry out, sum}
    bool sub = is("x86.subborrow."); int k = n.substr(n.size() - 2) == "64" ? 64 : 32;
    Val c = vite(vbin(OEq, a[0], CV(0), 8), CV(0), CV(1), k), t, u;
    t = vbin(sub ? OSub : OAdd, a[1], a[2], k); u = vbin(sub ? OSub : OAdd, t, c, k);
    Val o1 = sub ? vbin(OUlt, a[1], a[2], k) : vbin(OUlt, t, a[1], k), o2 = sub ? vbin(OUlt, t, c, k) : vbin(OUlt, u, t, k);
    ret[0] = vzext(vbin(OOr, o1, o2, 1), 8); ret[1] = u; return;
  }
  if (is("x86.sse2.pmovmskb") || is("x86.avx2.pmovmskb")) { Val r = CV(0); for (size_t i = 0; i < a.size(); i++) r = vbin(OOr, r, vbin(OShl, vzext(vext(a[i], 7, 1), 32), CV(i), 32), 32); ret[0] = r; return; }
  if (is("floor.f64") || is("ceil.f64") || is("log2.f64") || is("log.f64") || is("trunc.f64") || is("round.f64") || is("fabs.f64") || is("sqrt.f64") || is("pow.f64") || is("log10.f64") || is("exp2.f64") || is("rint.f64") || is("powi.f64")) {
    for (auto &x : a) if (x.e) x = CV(fsample(S, x, 64));
    auto D = [&](int i) { double v; uint64_t b = (uint64_t)a[i].c; memcpy(&v, &b, 8); return v; }; double r = 0;
    if (is("floor")) r = floor(D(0)); else if (is("ceil")) r = ceil(D(0)); else if (is("log2")) r = log2(D(0)); else if (is("log10")) r = log10(D(0)); else if (is("log")) r = log(D(0)); else if (is("trunc")) r = trunc(D(0)); else if (is("round")) r = round(D(0)); else if (is("fabs")) r = fabs(D(0)); else if (is("sqrt")) r = sqrt(D(0)); else if (is("powi")) r = pow(D(0), (double)(int32_t)a[1].c); else if (is("pow")) r = pow(D(0), D(1)); else if (is("exp2")) r = exp2(D(0)); else if (is("rint")) r = rint(D(0));
    uint64_t b; memcpy(&b, &r, 8); ret[0] = CV(b); return;
  }
  if (is("fptoui.sat") || is("fptosi.sat")) {
    if (a[0].e) a[0] = CV(fsample(S, a[0], w));
    double v; if (w == 64) { uint64_t b = (uint64_t)a[0].c; memcpy(&v, &b, 8); } else { float fv; uint32_t b = (uint32_t)a[0].c; memcpy(&fv, &b, 4); v = fv; }
    unsigned rw = flat(d.I->getType())[0].w; 
    if (v != v) { ret[0] = CV(0); return; }
    if (is("fptoui.sat")) { if (v <= 0) ret[0] = CV(0); else if (v >= ldexp(1.0, rw)) ret[0] = CV(maskw(rw)); else ret[0] = CV((u128)v); }
    else { if (v >= ldexp(1.0, rw - 1)) ret[0] = CV(maskw(rw - 1)); else if (v <= -ldexp(1.0, rw - 1)) ret[0] = CV((u128)1 << (rw - 1)); else ret[0] = CV((u128)(i128)v & maskw(rw)); }
    return;
  }
  unsupported("intrinsic " + f->name);
}
static double asD(u128 c, unsigned w) { if (w == 64) { double v; uint64_t b = (uint64_t)c; memcpy(&v, &b, 8); return v; } float v; uint32_t b = (uint32_t)c; memcpy(&v, &b, 4); return v; }
static u128 fromD(double v, unsigned w) { if (w == 64) { uint64_t b; memcpy(&b, &v, 8); return b; } float f = (float)v; uint32_t b; memcpy(&b, &f, 4); return b; }

static void takeEdge(Frame &F, const Edge &e) {
  F.pc = e.target; if (e.phis.empty()) return;
  auto get = [&](int s) -> const Val & { return s >= 0 ? F.regs[s] : F.f->consts[-s - 1]; };
  auto src = [&](const PhiMove &p, int k) -> const Val & { return p.src >= 0 ? F.regs[p.src + k] : F.f->consts[-p.src - 1 + k]; };
  (void)get;
  if (e.phis.size() == 1 && e.phis[0].n == 1) { Val v = src(e.phis[0], 0); F.regs[e.phis[0].dst] = v; return; }
  static thread_local std::vector<Val> tmp; tmp.clear();
  for (auto &p : e.phis) for (int k = 0; k < p.n; k++) tmp.push_back(src(p, k));
  size_t i = 0; for (auto &p : e.phis) for (int k = 0; k < p.n; k++) F.regs[p.dst + k] = tmp[i++];
}
static void popFrame(State &S) { for (auto id : S.st.back().allocas) freeObj(S, id); S.st.pop_back(); }

static std::string panicLoc(State &S, std::vector<Val> &args, std::string &msg, FuncInfo *f) {
  std::string loc;
  for (size_t i = args.size(); i-- > 0;) {
    if (args[i].e) continue; uint64_t p = (uint64_t)args[i].c; Obj *o = objRO(S, p >> OBJ_SHIFT);
    if (o && o->ro && (p & OFF_MASK) == 0 && o->size == 24) {
      uint64_t sp = (uint64_t)readObj(o, 0, 64).c, sl = (uint64_t)readObj(o, 8, 64).c, ln = (uint64_t)readObj(o, 16, 32).c;
      std::string s = readStr(S, sp, sl); if (s != "?") { loc = s + ":" + std::to_string(ln); break; }
    }
  }
  if (f->dem == "core::panicking::panic" || f->dem == "core::result::unwrap_failed" || f->dem == "core::option::expect_failed") if (args.size() >= 2 && !args[0].e && !args[1].e) msg += ": " + readStr(S, (uint64_t)args[0].c, (uint64_t)args[1].c);
  return loc;
}

static void runState(State &S) {
  for (;;) {
    Frame &F = S.st.back(); DInst &d = F.f->code[F.pc];
    totInsts++; S.insts++;
    if ((totInsts & 0xffff) == 0) { if (totInsts > optMaxInsts) throw PathEnd{"limit", "instruction budget"}; if (now() > optTimeout) throw PathEnd{"limit", "time budget"}; if (S.insts > optPathInsts) throw PathEnd{"hang", "path instruction budget"}; }
    auto R = [&](const Opd &o, int k = 0) -> const Val & { return o.base >= 0 ? F.regs[o.base + k] : F.f->consts[-o.base - 1 + k]; };
    Val *D = F.regs.data() + d.dst;
    if (d.sub >= 98 && !d.special.empty()) {
      if (d.special == "asm") { auto *ia = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand()); if (ia->getAsmString().empty() || d.ndst == 0) { for (int i = 0; i < d.ndst; i++) D[i] = CV(0); F.pc++; continue; } unsupported("inline asm " + ia->getAsmString()); }
      unsupported(d.special);
    }
    switch (d.opc) {
#define BINOP(LL, OP) case Instruction::LL: for (int i = 0; i < d.ndst; i++) D[i] = vbin(OP, R(d.ops[0], i), R(d.ops[1], i), d.w2); F.pc++; break;
    BINOP(Add, OAdd) BINOP(Sub, OSub) BINOP(Mul, OMul) BINOP(UDiv, OUDiv) BINOP(SDiv, OSDiv) BINOP(URem, OURem) BINOP(SRem, OSRem) BINOP(And, OAnd) BINOP(Or, OOr) BINOP(Xor, OXor) BINOP(Shl, OShl) BINOP(LShr, OLShr) BINOP(AShr, OAShr)
    case Instruction::ICmp:
      for (int i = 0; i < d.ndst; i++) {
        const Val &a = R(d.ops[0], i), &b = R(d.ops[1], i); unsigned w = d.w; Val r;
        switch (d.sub) {
        case CmpInst::ICMP_EQ: r = vbin(OEq, a, b, w); break; case CmpInst::ICMP_NE: r = vnot1(vbin(OEq, a, b, w)); break;
        case CmpInst::ICMP_ULT: r = vbin(OUlt, a, b, w); break; case CmpInst::ICMP_UGT: r = vbin(OUlt, b, a, w); break;
        case CmpInst::ICMP_ULE: r = vnot1(vbin(OUlt, b, a, w)); break; case CmpInst::ICMP_UGE: r = vnot1(vbin(OUlt, a, b, w)); break;
        case CmpInst::ICMP_SLT: r = vbin(OSlt, a, b, w); break; case CmpInst::ICMP_SGT: r = vbin(OSlt, b, a, w); break;
        case CmpInst::ICMP_SLE: r = vnot1(vbin(OSlt, b, a, w)); break; case CmpInst::ICMP_SGE: r = vnot1(vbin(OSlt, a, b, w)); break;
        default: unsupported("icmp pred");
        }
        D[i] = r;
      }
      F.pc++; break;
    case Instruction::Trunc: for (int i = 0; i < d.ndst; i++) D[i] = vext(R(d.ops[0], i), 0, d.w2); F.pc++; break;
    case Instruction::ZExt: for (int i = 0; i < d.ndst; i++) D[i] = vzext(R(d.ops[0], i), d.w2); F.pc++; break;
    case Instruction::SExt: for (int i = 0; i < d.ndst; i++) D[i] = vsext(R(d.ops[0], i), d.w, d.w2); F.pc++; break;
    case Instruction::PtrToInt: case Instruction::IntToPtr:
      for (int i = 0; i < d.ndst; i++) { const Val &v = R(d.ops[0], i); D[i] = d.w2 < d.w ? vext(v, 0, d.w2) : vzext(v, d.w2); } F.pc++; break;
    case Instruction::Freeze: case Instruction::AddrSpaceCast: for (int i = 0; i < d.ndst; i++) D[i] = R(d.ops[0], i); F.pc++; break;
    case Instruction::BitCast: {
      if (d.ops[0].n == d.ndst) { for (int i = 0; i < d.ndst; i++) D[i] = R(d.ops[0], i); F.pc++; break; }
      unsigned sw = d.w, dw = d.w2; unsigned tot = sw * d.ops[0].n;
      if (dw > sw) { unsigned per = dw / sw; if (dw > 128) unsupported("wide bitcast"); for (int i = 0; i < d.ndst; i++) { Val r = R(d.ops[0], i * per); for (unsigned k = 1; k < per; k++) r = vconcat(R(d.ops[0], i * per + k), sw, r, k * sw); D[i] = r; } }
      else { unsigned per = sw / dw; for (int i = 0; i < d.ndst; i++) D[i] = vext(R(d.ops[0], i / per), (i % per) * dw, dw); }
      (void)tot; F.pc++; break; }
    case Instruction::Select: {
      const Opd &c = d.ops[0]; for (int i = 0; i < d.ndst; i++) D[i] = vite(R(c, c.n > 1 ? i : 0), R(d.ops[1], i), R(d.ops[2], i), flat(d.I->getType())[i].w); F.pc++; break; }
    case Instruction::GetElementPtr: {
      if (d.sub == 1) unsupported("vector gep");
      Val a = R(d.ops[0]); if (d.off) a = vbin(OAdd, a, CV((u128)(uint64_t)d.off), 64);
      for (auto &g : d.gep) { Val ix = R(g.o); if (g.w < 64) ix = vsext(ix, g.w, 64); else if (g.w > 64) ix = vext(ix, 0, 64); a = vbin(OAdd, a, vbin(OMul, ix, CV((u128)(uint64_t)g.scale), 64), 64); }
      D[0] = a; F.pc++; break; }
    case Instruction::Load: memRead(S, R(d.ops[0]), *d.mem, storeSize(*d.mem), D); F.pc++; break;
    case Instruction::Store: { static thread_local std::vector<Val> t; t.clear(); for (int i = 0; i < d.ops[0].n; i++) t.push_back(R(d.ops[0], i)); memWrite(S, R(d.ops[1]), *d.mem, storeSize(*d.mem), t.data()); F.pc++; break; }
    case Instruction::Alloca: { u128 n = concretize(S, R(d.ops[0]), 64); uint64_t a = allocObj(S, d.off * (uint64_t)n, false, "stack"); Frame &G = S.st.back(); G.allocas.push_back(a >> OBJ_SHIFT); G.regs[d.dst] = CV(a); G.pc++; break; }
    case Instruction::ExtractValue: for (int i = 0; i < d.ndst; i++) D[i] = R(d.ops[0], d.off + i); F.pc++; break;
    case Instruction::InsertValue: { for (int i = 0; i < d.ndst; i++) D[i] = R(d.ops[0], i); for (int i = 0; i < d.ops[1].n; i++) D[d.off + i] = R(d.ops[1], i); F.pc++; break; }
    case Instruction::ExtractElement: { u128 ix = concretize(S, R(d.ops[1]), flat(d.I->getOperand(1)->getType())[0].w); D[0] = R(d.ops[0], (int)ix); F.pc++; break; }
    case Instruction::InsertElement: { u128 ix = concretize(S, R(d.ops[2]), flat(d.I->getOperand(2)->getType())[0].w); for (int i = 0; i < d.ndst; i++) D[i] = R(d.ops[0], i); D[(int)ix] = R(d.ops[1]); F.pc++; break; }
    case Instruction::ShuffleVector: { std::vector<Val> t; for (size_t i = 0; i < d.idx.size(); i++) { int m = d.idx[i]; t.push_back(m < 0 ? CV(0) : m < d.ops[0].n ? R(d.ops[0], m) : R(d.ops[1], m - d.ops[0].n)); } for (size_t i = 0; i < t.size(); i++) D[i] = t[i]; F.pc++; break; }
    case Instruction::Br:
      if (d.edges.size() == 1) { takeEdge(F, d.edges[0]); break; }
      else { bool v = decide(S, R(d.ops[0]), [&](State &n, bool taken) { takeEdge(n.st.back(), d.edges[taken ? 0 : 1]); }); takeEdge(S.st.back(), d.edges[v ? 0 : 1]); break; }
    case Instruction::Switch: {
      const Val &v = R(d.ops[0]);
      if (!v.e) { size_t t = 0; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == v.c) { t = i + 1; break; } takeEdge(F, d.edges[t]); break; }
      Val v1 = subst(S, v); if (!v1.e) { size_t t = 0; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == v1.c) { t = i + 1; break; } takeEdge(F, d.edges[t]); break; }
      Expr *e = v1.e; bool done = false;
      // group by successor so that cases sharing a target do not fork
      std::map<int, std::vector<size_t>> groups; for (size_t i = 0; i < d.cases.size(); i++) groups[d.edges[i + 1].phis.empty() ? d.edges[i + 1].target : -(int)i - 1].push_back(i);
      for (auto &g : groups) {
        Expr *c = mkConst(0, 1); for (size_t i : g.second) c = mkBin(OOr, c, mkBin(OEq, e, mkConst(d.cases[i], d.w)));
        size_t ci = g.second[0];
        if (c->op == OConst) { if (c->c) { takeEdge(S.st.back(), d.edges[ci + 1]); done = true; break; } continue; }
        // clone re-executes the switch when it does not take this group
        bool t = decide(S, VE(c), [&](State &n, bool taken) { if (taken) takeEdge(n.st.back(), d.edges[ci + 1]); });
        if (t) { takeEdge(S.st.back(), d.edges[ci + 1]); done = true; break; }
      }
      if (!done) takeEdge(S.st.back(), d.edges[0]);
      break; }
    case Instruction::Unreachable: throw PathEnd{"unreachable", "reached unreachable"};
    case Instruction::Ret: {
      std::vector<Val> rv; if (!d.ops.empty()) for (int i = 0; i < d.ops[0].n; i++) rv.push_back(R(d.ops[0], i));
      popFrame(S); if (S.st.empty()) throw PathEnd{"ret", ""};
      Frame &C = S.st.back(); DInst &cd = C.f->code[C.pc];
      for (size_t i = 0; i < rv.size() && (int)i < cd.ndst; i++) C.regs[cd.dst + i] = rv[i];
      if (cd.opc == Instruction::Invoke) takeEdge(C, cd.edges[0]); else C.pc++;
      break; }
    case Instruction::Call: case Instruction::Invoke: {
      FuncInfo *cf = d.callee; size_t nargs = d.ops.size();
      if (!cf) {
        nargs--; u128 a = concretize(S, R(d.ops[nargs]), 64); uint64_t ix = ((uint64_t)a - FUNC_BASE) / 16;
        if ((uint64_t)a < FUNC_BASE || ix == 0 || ix > funcList.size()) throw PathEnd{"fault", "bad function pointer " + hex(a)};
        cf = funcList[ix - 1];
      }
      std::vector<Val> args; for (size_t i = 0; i < nargs; i++) for (int k = 0; k < d.ops[i].n; k++) args.push_back(R(d.ops[i], k));
      if (cf->kind == FK_PANIC) {
        std::string msg = cf->dem, loc = panicLoc(S, args, msg, cf); cf->executed = true;
        throw PathEnd{startsWith(cf->dem, "alloc::") ? "alloc_panic" : "panic", msg + "@" + loc};
      }
      bool handled = false;
      if (cf->kind == FK_STUB) {
        if (cf->dem.find("hashmap_random_keys") != std::string::npos) { if (d.ndst == 2) { D[0] = CV(0x0123456789abcdefull); D[1] = CV(0xfedcba9876543210ull); } else unsupported("hashmap_random_keys shape"); }
        else for (int i = 0; i < d.ndst; i++) D[i] = CV((u128)1 << 63);
        handled = true;
      } else if (cf->kind == FK_BODY && cf->fmtstub && S.stubFmt && d.ndst == 1) { D[0] = CV(0); handled = true; }
      else if (cf->kind == FK_INTRIN) { std::vector<Val> rv(std::max(1, d.ndst)); callIntrinsic(S, cf, d, args, rv.data()); Frame &C = S.st.back(); for (int i = 0; i < d.ndst; i++) C.regs[d.dst + i] = rv[i]; handled = true; }
      else if (cf->kind == FK_EXT) { std::vector<Val> rv(std::max(1, d.ndst)); callExternal(S, cf, d, args, rv.data()); Frame &C = S.st.back(); for (int i = 0; i < d.ndst; i++) C.regs[d.dst + i] = rv[i]; handled = true; }
      if (handled) { Frame &C = S.st.back(); if (d.opc == Instruction::Invoke) takeEdge(C, d.edges[0]); else C.pc++; break; }
      decode(cf); cf->executed = true;
      if (S.st.size() > 4000) throw PathEnd{"stack_overflow", "call depth"};
      if (optTrace) fprintf(stderr, "%*s-> %s\n", (int)S.st.size(), "", cf->dem.c_str());
      S.st.emplace_back(); Frame &N = S.st.back(); N.f = cf; N.pc = 0; N.regs.resize(cf->nregs); 
      if (args.size() < (size_t)0) abort();
      size_t want = 0; for (auto &a : cf->F->args()) want += flat(a.getType()).size();
      for (size_t i = 0; i < want && i < args.size(); i++) N.regs[i] = args[i];
      break; }
    case Instruction::AtomicRMW: {
      Val p = R(d.ops[0]), v = R(d.ops[1]), old; unsigned w = (*d.mem)[0].w; memRead(S, p, *d.mem, storeSize(*d.mem), &old); Val nv;
      switch (d.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = vbin(OAdd, old, v, w); break; case AtomicRMWInst::Sub: nv = vbin(OSub, old, v, w); break; case AtomicRMWInst::And: nv = vbin(OAnd, old, v, w); break; case AtomicRMWInst::Or: nv = vbin(OOr, old, v, w); break; case AtomicRMWInst::Xor: nv = vbin(OXor, old, v, w); break; default: unsupported("atomicrmw"); }
      memWrite(S, p, *d.mem, storeSize(*d.mem), &nv); Frame &G = S.st.back(); G.regs[d.dst] = old; G.pc++; break; }
    case Instruction::AtomicCmpXchg: {
      Val p = R(d.ops[0]), c = R(d.ops[1]), nv = R(d.ops[2]), old; unsigned w = (*d.mem)[0].w; memRead(S, p, *d.mem, storeSize(*d.mem), &old);
      Val eq = vbin(OEq, old, c, w); Val st = vite(eq, nv, old, w); memWrite(S, p, *d.mem, storeSize(*d.mem), &st); Frame &G = S.st.back(); G.regs[d.dst] = old; G.regs[d.dst + 1] = eq; G.pc++; break; }
    case Instruction::Fence: F.pc++; break;
    case Instruction::FNeg: for (int i = 0; i < d.ndst; i++) D[i] = vbin(OXor, R(d.ops[0], i), CV((u128)1 << (d.w - 1)), d.w); F.pc++; break;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
      for (int i = 0; i < d.ndst; i++) {
        Val a = CV(fsample(S, R(d.ops[0], i), d.w)), b = CV(fsample(S, R(d.ops[1], i), d.w));
        double x = asD(a.c, d.w), y = asD(b.c, d.w), r;
        if (d.w == 32) { float fx = x, fy = y, fr; fr = d.opc == Instruction::FAdd ? fx + fy : d.opc == Instruction::FSub ? fx - fy : d.opc == Instruction::FMul ? fx * fy : d.opc == Instruction::FDiv ? fx / fy : fmodf(fx, fy); r = fr; }
        else r = d.opc == Instruction::FAdd ? x + y : d.opc == Instruction::FSub ? x - y : d.opc == Instruction::FMul ? x * y : d.opc == Instruction::FDiv ? x / y : fmod(x, y);
        D[i] = CV(fromD(r, d.w));
      }
      F.pc++; break;
    case Instruction::FCmp:
      for (int i = 0; i < d.ndst; i++) {
        const Val &a = R(d.ops[0], i), &b = R(d.ops[1], i);
        unsigned w = d.w, mb = w == 64 ? 52 : 23; u128 expm = (w == 64 ? (u128)0x7ff : (u128)0xff) << mb;
        // exact bit-level comparison of IEEE values
        auto isnan = [&](const Val &x) { Val ab = vbin(OAnd, x, CV(maskw(w - 1)), w); return vbin(OUlt, CV(expm), ab, w); };
        Val un = vbin(OOr, isnan(a), isnan(b), 1); Val or_ = vnot1(un);
        auto zero = [&](const Val &x) { return vbin(OEq, vbin(OAnd, x, CV(maskw(w - 1)), w), CV(0), w); };
        Val eq = vbin(OOr, vbin(OEq, a, b, w), vbin(OAnd, zero(a), zero(b), 1), 1);
        auto ltf = [&](const Val &x, const Val &y) { Val sx = vext(x, w - 1, 1), sy = vext(y, w - 1, 1); Val neq = vnot1(eq);
          Val lt = vite(sx, vite(sy, vbin(OUlt, y, x, w), CV(1), 1), vite(sy, CV(0), vbin(OUlt, x, y, w), 1), 1); return vbin(OAnd, neq, lt, 1); };
        Val r; 
        switch (d.sub) {
        case CmpInst::FCMP_OEQ: r = vbin(OAnd, or_, eq, 1); break; case CmpInst::FCMP_UNE: r = vbin(OOr, un, vnot1(eq), 1); break; case CmpInst::FCMP_ONE: r = vbin(OAnd, or_, vnot1(eq), 1); break; case CmpInst::FCMP_UEQ: r = vbin(OOr, un, eq, 1); break;
        case CmpInst::FCMP_OLT: r = vbin(OAnd, or_, ltf(a, b), 1); break; case CmpInst::FCMP_OGT: r = vbin(OAnd, or_, ltf(b, a), 1); break;
        case CmpInst::FCMP_OLE: r = vbin(OAnd, or_, vbin(OOr, eq, ltf(a, b), 1), 1); break; case CmpInst::FCMP_OGE: r = vbin(OAnd, or_, vbin(OOr, eq, ltf(b, a), 1), 1); break;
        case CmpInst::FCMP_ULT: r = vbin(OOr, un, ltf(a, b), 1); break; case CmpInst::FCMP_UGT: r = vbin(OOr, un, ltf(b, a), 1); break;
        case CmpInst::FCMP_ULE: r = vbin(OOr, un, vbin(OOr, eq, ltf(a, b), 1), 1); break; case CmpInst::FCMP_UGE: r = vbin(OOr, un, vbin(OOr, eq, ltf(b, a), 1), 1); break;
        case CmpInst::FCMP_ORD: r = or_; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = CV(1); break; default: r = CV(0);
        }
        D[i] = r;
      }
      F.pc++; break;
    case Instruction::FPToUI: case Instruction::FPToSI: for (int i = 0; i < d.ndst; i++) { Val a = CV(fsample(S, R(d.ops[0], i), d.w)); double x = asD(a.c, d.w); D[i] = CV((d.opc == Instruction::FPToUI ? (u128)x : (u128)(i128)x) & maskw(d.w2)); } F.pc++; break;
    case Instruction::UIToFP: case Instruction::SIToFP: for (int i = 0; i < d.ndst; i++) { const Val &a = R(d.ops[0], i); 
        u128 c; if (a.e) { c = concretize(S, a, d.w); } else c = a.c;
        if (d.w2 == 32) { float f = d.opc == Instruction::UIToFP ? (float)c : (float)sxt(c, d.w); D[i] = CV(fromD(f, 32)); } else D[i] = CV(fromD(d.opc == Instruction::UIToFP ? (double)c : (double)sxt(c, d.w), 64)); } F.pc++; break;
    case Instruction::FPExt: case Instruction::FPTrunc: for (int i = 0; i < d.ndst; i++) { Val a = CV(fsample(S, R(d.ops[0], i), d.w)); D[i] = CV(fromD(asD(a.c, d.w), d.w2)); } F.pc++; break;
    default: unsupported(std::string("opcode ") + d.I->getOpcodeName());
    }
  }
}
static std::string jesc(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string hexs(const std::vector<uint8_t> &v) { std::string r; char b[4]; for (auto x : v) { snprintf(b, 4, "%02x", x); r += b; } return r; }

static void noteIncomplete(const std::string &m) { if (incomplete.size() < 20 && std::find(incomplete.begin(), incomplete.end(), m) == incomplete.end()) incomplete.push_back(m); }
struct Args { int argc; char **argv; int rc; };
static void *mainThread(void *p) {
  Args *A = (Args *)p; std::string mod, harness, out, inputFile; std::string ret; SV = new Solver();
  for (int i = 1; i < A->argc; i++) {
    std::string a = A->argv[i]; auto nx = [&]() { return std::string(A->argv[++i]); };
    if (a == "--harness") harness = nx(); else if (a == "--out") out = nx(); else if (a == "--max-insts") optMaxInsts = std::stoull(nx()); else if (a == "--max-paths") optMaxPaths = std::stoull(nx()); else if (a == "--timeout") optTimeout = std::stod(nx());
    else if (a == "--path-insts") optPathInsts = std::stoull(nx()); else if (a == "--solver-ms") SV->timeoutMs = std::stoul(nx()); else if (a == "--alloc-limit") optAllocLimit = std::stoull(nx()); else if (a == "--trace") optTrace = true; else if (a == "--max-viol") optMaxViol = std::stoi(nx());
    else if (a == "--dump-smt") { SV->dumpDir = nx(); SV->dumpMax = 200; } else if (a == "--dump-max") SV->dumpMax = std::stoul(nx());
    else if (a == "--input") { inputFile = nx(); concreteMode = true; FILE *f = fopen(inputFile.c_str(), "rb"); if (!f) { A->rc = 2; return nullptr; } int c; while ((c = fgetc(f)) != EOF) concreteInput.push_back((uint8_t)c); fclose(f); }
    else mod = a;
  }
  { uint64_t mb = 8192; if (const char *m = getenv("SYMX_MEM_MB")) mb = std::stoull(m); struct rlimit rl = {mb << 20, mb << 20}; setrlimit(RLIMIT_AS, &rl); }
  T0 = std::chrono::steady_clock::now();
  SMDiagnostic err; M = parseIRFile(mod, err, LC); if (!M) { err.print("symx", errs()); A->rc = 2; return nullptr; }
  DL = &M->getDataLayout(); firstDynId = 64 * 1024; gById.push_back(nullptr); gObjs.push_back(nullptr);
  double tparse = now();
  harnessName = harness; Function *F = M->getFunction("symx_entry"); if (!F || F->isDeclaration()) { fprintf(stderr, "no harness %s\n", harness.c_str()); A->rc = 2; return nullptr; }
  FuncInfo *fi = getFunc(F); decode(fi); fi->executed = true;
  auto s0 = std::make_unique<State>(); s0->nextId = firstDynId; s0->model = std::make_shared<std::vector<uint8_t>>(); s0->gen = ++genCounter;
  s0->st.emplace_back(); s0->st.back().f = fi; s0->st.back().pc = 0; s0->st.back().regs.resize(fi->nregs);
  work.push_back(std::move(s0));
  uint64_t maxDepthForks = 0;
  while (!work.empty()) {
    auto s = std::move(work.back()); work.pop_back();
    PathEnd pe;
    try { runState(*s); } catch (PathEnd &e) { pe = e; }
    maxDepthForks = std::max<uint64_t>(maxDepthForks, s->forks);
    std::string kind = pe.kind;
    if (kind == "panic" || kind == "alloc_panic" || kind == "abort" || kind == "fault" || kind == "unreachable" || kind == "huge_alloc" || kind == "stack_overflow" || kind == "hang") {
      bool ok = (kind == "panic" && s->panicOk) || ((kind == "huge_alloc" || kind == "alloc_panic") && s->allocOk);
      if (!ok) { auto at = pe.msg.find('@'); std::string loc = at == std::string::npos ? "" : pe.msg.substr(at + 1); recordViol(*s, kind, pe.msg, loc); } else kind += "_ok";
    } else if (kind == "unsupported" || kind == "limit" || kind == "unknown") {
      std::string m = kind + ": " + pe.msg + " in " + (s->st.empty() ? "" : s->st.back().f->dem);
      if (incomplete.size() < 20 && std::find(incomplete.begin(), incomplete.end(), m) == incomplete.end()) { incomplete.push_back(m); if (optTrace || getenv("SYMX_BT")) { fprintf(stderr, "%s\n", m.c_str()); for (size_t i = s->st.size(); i-- > 0;) fprintf(stderr, "   %s\n", s->st[i].f->dem.c_str()); } }
    }
    endKinds[kind]++; totPaths++;
    if (kind == "ret" && samples.size() < 6) samples.push_back(inputOf(*s));
    if (getenv("SYMX_PATHS")) fprintf(stderr, "path %llu: %s %s input=%s\n", (unsigned long long)totPaths, kind.c_str(), pe.msg.c_str(), hexs(inputOf(*s)).c_str());
    if (kind == "limit") break;
    if (kind == "hang" && endKinds[kind] >= 4) { incomplete.push_back("limit: four paths beyond the instruction budget"); break; }
    if (totPaths >= optMaxPaths && !work.empty()) { incomplete.push_back("limit: path budget"); break; }
    if ((int)viols.size() >= optMaxViol) break;
  }
  std::string j = "{\n"; auto kv = [&](const std::string &k, const std::string &v, bool last = false) { j += "  " + jesc(k) + ": " + v + (last ? "\n" : ",\n"); };
  kv("harness", jesc(harness)); kv("paths", std::to_string(totPaths)); kv("forks", std::to_string(totForks)); kv("instructions", std::to_string(totInsts)); kv("max_forks_on_a_path", std::to_string(maxDepthForks));
  kv("pending_states", std::to_string(work.size()));
  auto m2j = [&](auto &m) { std::string r = "{"; bool f = true; for (auto &x : m) { if (!f) r += ", "; f = false; if constexpr (std::is_same_v<std::decay_t<decltype(x.first)>, std::string>) r += jesc(x.first); else r += jesc(std::to_string(x.first)); r += ": " + std::to_string(x.second); } return r + "}"; };
  kv("ends", m2j(endKinds)); kv("checks", m2j(checksSeen)); kv("checks_symbolic", m2j(checksSolved)); kv("covers", m2j(covers)); kv("assumes", std::to_string(nAssumes));
  auto &q = SV->st; char tb[64]; snprintf(tb, 64, "%.3f", q.time);
  kv("queries", std::to_string(q.queries)); kv("queries_sat", std::to_string(q.sat)); kv("queries_unsat", std::to_string(q.unsat)); kv("queries_unknown", std::to_string(q.unknown)); kv("query_cache_hits", std::to_string(q.cacheHits)); kv("solver_s", tb);
  snprintf(tb, 64, "%.3f", q.maxTime); kv("solver_max_s", tb); snprintf(tb, 64, "%.3f", now()); kv("wall_s", tb); snprintf(tb, 64, "%.3f", tparse); kv("parse_s", tb); kv("exprs", std::to_string(exprCount()));
  { std::string r = "["; bool f = true; for (auto *x : funcList) if (x->executed) { if (!f) r += ", "; f = false; r += jesc(x->dem); } kv("functions", r + "]"); }
  { std::string r = "["; std::vector<FuncInfo *> v; for (auto *x : funcList) if (x->forks) v.push_back(x); std::sort(v.begin(), v.end(), [](auto a, auto b) { return a->forks > b->forks; }); for (size_t i = 0; i < v.size() && i < 12; i++) r += (i ? ", " : "") + jesc(v[i]->dem + " x" + std::to_string(v[i]->forks)); kv("fork_sites", r + "]"); }
  { std::string r = "["; for (size_t i = 0; i < samples.size(); i++) r += (i ? ", " : "") + jesc(hexs(samples[i])); kv("samples", r + "]"); }
  { std::string r = "["; for (size_t i = 0; i < incomplete.size(); i++) r += (i ? ", " : "") + jesc(incomplete[i]); kv("incomplete", r + "]"); }
  { std::string r = "["; for (size_t i = 0; i < viols.size(); i++) { auto &v = viols[i]; r += std::string(i ? ",\n    " : "\n    ") + "{\"key\": " + jesc(v.key) + ", \"kind\": " + jesc(v.kind) + ", \"msg\": " + jesc(v.msg) + ", \"loc\": " + jesc(v.loc) + ", \"input\": " + jesc(hexs(v.input)) + ", \"trace\": ["; for (size_t k = 0; k < v.trace.size(); k++) r += (k ? ", " : "") + jesc(v.trace[k]); r += "]}"; } kv("violations", r + "]", true); }
  j += "}\n";
  if (!out.empty()) { FILE *f = fopen(out.c_str(), "w"); fputs(j.c_str(), f); fclose(f); } else fputs(j.c_str(), stdout);
  A->rc = !viols.empty() ? 1 : !incomplete.empty() ? 3 : 0;
  fflush(stdout); _Exit(A->rc);
  return nullptr;
}
int main(int argc, char **argv) {
  Args a{argc, argv, 2}; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4ull << 30); pthread_t t;
  if (pthread_create(&t, &at, mainThread, &a)) { perror("thread"); return 2; }
  pthread_join(t, nullptr); return a.rc;
}
