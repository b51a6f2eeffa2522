// LLVM IR -> interpreter code.
#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/IR/Operator.h>
using namespace llvm;
// atomics of the run-time model are no scheduling points: the real ones sit in uninstrumented libraries
static bool inShim(const Instruction &i) {
  auto *sp = i.getFunction()->getSubprogram();
  return sp && sp->getFilename().contains("shim/rt");
}

Program P;

// direct uses of thread-local globals (compilers emit them for their own guards) become the copy of the running thread
void lowerThreadLocals(Module &m) {
  for (auto &g : m.globals()) {
    if (!g.isThreadLocal()) continue;
    convertUsersOfConstantsToInstructions({&g});
    std::vector<Use *> uses;
    for (auto &u : g.uses())
      if (auto *i = dyn_cast<Instruction>(u.getUser())) {
        auto *ii = dyn_cast<IntrinsicInst>(i);
        if (!ii || (ii->getIntrinsicID() != Intrinsic::threadlocal_address && !isa<DbgInfoIntrinsic>(ii))) uses.push_back(&u);
      }
    for (auto *u : uses) {
      auto *i = cast<Instruction>(u->getUser());
      Instruction *at = i;
      if (auto *p = dyn_cast<PHINode>(i)) at = p->getIncomingBlock(*u)->getTerminator();
      auto *f = Intrinsic::getDeclaration(&m, Intrinsic::threadlocal_address, {g.getType()});
      u->set(CallInst::Create(f, {&g}, "", at));
    }
  }
}

[[noreturn]] static void bad(const std::string &m, const Value *v = nullptr) {
  std::string s;
  raw_string_ostream os(s);
  if (v) v->print(os);

  throw std::string("cannot encode " + m + " " + s);
}

static unsigned widthOf(Type *t) {
  if (t->isPointerTy()) return 64;
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 64; // only passed around, never computed with
  return 0;
}
void flat(Type *t, std::vector<Piece> &out, uint32_t off) {
  if (t->isVoidTy()) return;
  if (auto *st = dyn_cast<StructType>(t)) {
    auto *sl = P.dl->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); i++) flat(st->getElementType(i), out, off + sl->getElementOffset(i));
    return;
  }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    uint64_t es = P.dl->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); i++) flat(at->getElementType(), out, off + i * es);
    return;
  }
  unsigned w = widthOf(t);
  if (!w) { out.push_back({-1, off, 0}); return; }
  if (w > 64) { out.push_back({-1, off, 0}); return; }
  out.push_back({-1, off, (uint8_t)w});
}
static unsigned nflat(Type *t) { std::vector<Piece> p; flat(t, p); return p.size(); }

uint64_t addrOf(const GlobalValue *g) {
  if (auto *a = dyn_cast<GlobalAlias>(g)) {
    uint64_t v;
    if (constScalar(a->getAliasee(), v)) return v;
    bad("alias", g);
  }
  auto it = P.gaddr.find(g);
  if (it == P.gaddr.end()) bad("no address", g);
  return it->second;
}

bool constScalar(const Constant *c, uint64_t &v) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return false;
    v = ci->getZExtValue();
    return true;
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    APInt b = cf->getValueAPF().bitcastToAPInt();
    v = b.getRawData()[0];
    return true;
  }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { v = 0; return true; }
  if (auto *g = dyn_cast<GlobalValue>(c)) { v = addrOf(g); return true; }
  if (isa<ConstantAggregateZero>(c)) { v = 0; return true; }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    uint64_t a, b;
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      if (!constScalar(cast<Constant>(gep->getPointerOperand()), a)) return false;
      APInt off(64, 0);
      if (!gep->accumulateConstantOffset(*P.dl, off)) return false;
      v = a + off.getSExtValue();
      return true;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
      if (!constScalar(ce->getOperand(0), a)) return false;
      v = a;
      return true;
    case Instruction::Trunc: case Instruction::ZExt:
      if (!constScalar(ce->getOperand(0), a)) return false;
      v = a & maskw(widthOf(ce->getType()));
      return true;
    case Instruction::Sub: case Instruction::Add: case Instruction::And: case Instruction::Xor: case Instruction::Mul:
      if (!constScalar(ce->getOperand(0), a) || !constScalar(ce->getOperand(1), b)) return false;
      switch (ce->getOpcode()) {
      case Instruction::Sub: v = a - b; break;
      case Instruction::Add: v = a + b; break;
      case Instruction::And: v = a & b; break;
      case Instruction::Xor: v = a ^ b; break;
      default: v = a * b;
      }
      v &= maskw(widthOf(ce->getType()));
      return true;
    case Instruction::ICmp: {
      auto p = (CmpInst::Predicate)ce->getPredicate();
      if (!constScalar(ce->getOperand(0), a) || !constScalar(ce->getOperand(1), b)) return false;
      if (p == CmpInst::ICMP_EQ) { v = a == b; return true; }
      if (p == CmpInst::ICMP_NE) { v = a != b; return true; }
      return false;
    }
    default: return false;
    }
  }
  return false;
}
static int32_t pool(uint64_t v) {
  auto it = P.poolIdx.find(v);
  if (it != P.poolIdx.end()) return it->second;
  P.pool.push_back(Val{v, nullptr});
  int32_t i = -(int32_t)P.pool.size();
  P.poolIdx[v] = i;
  return i;
}
static void constOps(const Constant *c, Type *t, std::vector<int32_t> &out) {
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) {
      Constant *e = c->getAggregateElement(i);
      Type *et = t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType();
      constOps(e ? e : Constant::getNullValue(et), et, out);
    }
    return;
  }
  uint64_t v = 0;
  if (!constScalar(c, v)) bad("constant", c);
  out.push_back(pool(v));
}

// ---- global initialisers
void writeInit(const Constant *c, uint8_t *dst) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef s = cd->getRawDataValues();
    memcpy(dst, s.data(), s.size());
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
    for (unsigned i = 0; i < c->getNumOperands(); i++) {
      uint64_t off;
      if (auto *st = dyn_cast<StructType>(t)) off = P.dl->getStructLayout(st)->getElementOffset(i);
      else off = i * P.dl->getTypeAllocSize(t->getArrayElementType());
      writeInit(cast<Constant>(c->getOperand(i)), dst + off);
    }
    return;
  }
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) { for (unsigned i = 0; i < ci->getBitWidth() / 8; i++) dst[i] = ci->getValue().extractBitsAsZExtValue(8, i * 8); return; }
  }
  uint64_t v;
  if (!constScalar(c, v)) bad("initialiser", c);
  memcpy(dst, &v, P.dl->getTypeStoreSize(t));
}

namespace {
struct Comp {
  Func &F;
  const Function &f;
  std::unordered_map<const Value *, uint32_t> slot;
  std::unordered_map<const BasicBlock *, uint32_t> bidx;
  Comp(Func &F) : F(F), f(*F.f) {}
  void ops(const Value *v, std::vector<int32_t> &out) {
    if (auto *c = dyn_cast<Constant>(v)) { constOps(c, v->getType(), out); return; }
    if (isa<MetadataAsValue>(v)) { out.push_back(pool(0)); return; }
    auto it = slot.find(v);
    if (it == slot.end()) bad("operand", v);
    unsigned n = nflat(v->getType());
    for (unsigned i = 0; i < n; i++) out.push_back(it->second + i);
  }
  int32_t op1(const Value *v) {
    std::vector<int32_t> o;
    ops(v, o);
    if (o.size() != 1) bad("scalar operand expected", v);
    return o[0];
  }
  void alloc(const Value *v) {
    unsigned n = nflat(v->getType());
    if (!n) return;
    slot[v] = F.nslots;
    F.nslots += n;
  }
  Edge edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e;
    e.block = bidx[to];
    e.target = -1;
    for (auto &phi : to->phis()) {
      std::vector<int32_t> s;
      ops(phi.getIncomingValueForBlock(from), s);
      for (unsigned i = 0; i < s.size(); i++) e.moves.push_back({(int32_t)(slot[&phi] + i), s[i]});
    }
    return e;
  }
  static bool skipIntr(Intrinsic::ID id) {
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_assign: case Intrinsic::dbg_label:
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end:
    case Intrinsic::vaend: case Intrinsic::prefetch: case Intrinsic::donothing:
      return true;
    default: return false;
    }
  }
  void run() {
    for (auto &a : f.args()) {
      std::vector<Piece> p;
      flat(a.getType(), p);
      F.argn.push_back(p.size());
      F.argbyval.push_back(a.hasByValAttr() ? P.dl->getTypeAllocSize(a.getParamByValType()) : 0);
      for (auto &x : p) { F.argw.push_back(x.w); F.argfp.push_back(a.getType()->isFloatingPointTy()); }
      alloc(&a);
    }
    F.nargs = F.argw.size();
    uint32_t bi = 0;
    for (auto &b : f) bidx[&b] = bi++;
    for (auto &b : f) for (auto &i : b) if (!i.getType()->isVoidTy()) alloc(&i);
    F.blockStart.resize(bi);
    for (auto &b : f) {
      F.blockStart[bidx[&b]] = F.code.size();
      for (auto &i : b) {
        if (isa<PHINode>(i)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
          if (skipIntr(ii->getIntrinsicID())) continue;
          if (ii->getIntrinsicID() == Intrinsic::invariant_start) {
            // result is only used by invariant_end
            continue;
          }
        }
        F.code.push_back(one(i, b));
      }
    }
    for (auto &in : F.code)
      if (in.aux) for (auto &e : in.aux->edges) e.target = F.blockStart[e.block];
  }
  Inst one(const Instruction &i, const BasicBlock &b) {
    Inst r;
    memset(&r, 0, sizeof r);
    r.src = &i;
    r.block = bidx[&b];
    r.dst = -1;
    auto it = slot.find(&i);
    if (it != slot.end()) r.dst = it->second;
    unsigned w = widthOf(i.getType());
    r.w = w;
    auto mkaux = [&]() { if (!r.aux) r.aux = new Aux; return r.aux; };
    if (i.getType()->isVectorTy()) bad("vector type", &i);
    if (auto *bo = dyn_cast<BinaryOperator>(&i)) {
      r.a = op1(bo->getOperand(0));
      r.b = op1(bo->getOperand(1));
      if (w > 64) bad("wide integer", &i);
      switch (bo->getOpcode()) {
      case Instruction::Add: r.sub = (int)Op::Add; break;
      case Instruction::Sub: r.sub = (int)Op::Sub; break;
      case Instruction::Mul: r.sub = (int)Op::Mul; break;
      case Instruction::UDiv: r.sub = (int)Op::UDiv; break;
      case Instruction::SDiv: r.sub = (int)Op::SDiv; break;
      case Instruction::URem: r.sub = (int)Op::URem; break;
      case Instruction::SRem: r.sub = (int)Op::SRem; break;
      case Instruction::And: r.sub = (int)Op::And; break;
      case Instruction::Or: r.sub = (int)Op::Or; break;
      case Instruction::Xor: r.sub = (int)Op::Xor; break;
      case Instruction::Shl: r.sub = (int)Op::Shl; break;
      case Instruction::LShr: r.sub = (int)Op::LShr; break;
      case Instruction::AShr: r.sub = (int)Op::AShr; break;
      default: r.op = I::FBin; r.sub = bo->getOpcode(); return r;
      }
      r.op = I::Bin;
      return r;
    }
    switch (i.getOpcode()) {
    case Instruction::ICmp: {
      auto &c = cast<ICmpInst>(i);
      r.op = I::ICmp;
      r.sub = c.getPredicate();
      r.w = widthOf(c.getOperand(0)->getType());
      r.a = op1(c.getOperand(0));
      r.b = op1(c.getOperand(1));
      return r;
    }
    case Instruction::FCmp: {
      auto &c = cast<FCmpInst>(i);
      r.op = I::FCmp; r.sub = c.getPredicate(); r.w = widthOf(c.getOperand(0)->getType());
      r.a = op1(c.getOperand(0)); r.b = op1(c.getOperand(1));
      return r;
    }
    case Instruction::FNeg: r.op = I::FNeg; r.a = op1(i.getOperand(0)); return r;
    case Instruction::Load: {
      auto &l = cast<LoadInst>(i);
      r.op = I::Load;
      r.a = op1(l.getPointerOperand());
      r.imm = l.isAtomic();
      flat(i.getType(), mkaux()->pieces);
      for (unsigned k = 0; k < r.aux->pieces.size(); k++) {
        r.aux->pieces[k].slot = r.dst + k;
        if (!r.aux->pieces[k].w) bad("load type", &i);
      }
      return r;
    }
    case Instruction::Store: {
      auto &s = cast<StoreInst>(i);
      r.op = I::Store;
      r.a = op1(s.getPointerOperand());
      r.imm = s.isAtomic();
      flat(s.getValueOperand()->getType(), mkaux()->pieces);
      std::vector<int32_t> o;
      ops(s.getValueOperand(), o);
      for (unsigned k = 0; k < o.size(); k++) { r.aux->pieces[k].slot = o[k]; if (!r.aux->pieces[k].w) bad("store type", &i); }
      return r;
    }
    case Instruction::GetElementPtr: {
      auto &g = cast<GetElementPtrInst>(i);
      r.op = I::Gep;
      r.a = op1(g.getPointerOperand());
      int64_t off = 0;
      for (auto gti = gep_type_begin(&g), e = gep_type_end(&g); gti != e; ++gti) {
        Value *ix = gti.getOperand();
        if (auto *st = gti.getStructTypeOrNull()) {
          off += P.dl->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          continue;
        }
        int64_t sc = P.dl->getTypeAllocSize(gti.getIndexedType());
        if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += sc * ci->getSExtValue(); continue; }
        mkaux()->idx.push_back({op1(ix), (uint8_t)widthOf(ix->getType()), sc});
      }
      r.imm = off;
      return r;
    }
    case Instruction::Alloca: {
      auto &a = cast<AllocaInst>(i);
      r.op = I::Alloca;
      r.imm = P.dl->getTypeAllocSize(a.getAllocatedType());
      r.a = op1(a.getArraySize());
      return r;
    }
    case Instruction::Br: {
      auto &br = cast<BranchInst>(i);
      mkaux();
      if (br.isConditional()) { r.op = I::CondBr; r.a = op1(br.getCondition()); r.aux->edges.push_back(edge(&b, br.getSuccessor(0))); r.aux->edges.push_back(edge(&b, br.getSuccessor(1))); }
      else { r.op = I::Br; r.aux->edges.push_back(edge(&b, br.getSuccessor(0))); }
      return r;
    }
    case Instruction::Switch: {
      auto &s = cast<SwitchInst>(i);
      r.op = I::Switch;
      r.a = op1(s.getCondition());
      r.w = widthOf(s.getCondition()->getType());
      mkaux()->edges.push_back(edge(&b, s.getDefaultDest()));
      for (auto &c : s.cases()) { r.aux->cases.push_back(c.getCaseValue()->getZExtValue()); r.aux->edges.push_back(edge(&b, c.getCaseSuccessor())); }
      return r;
    }
    case Instruction::Ret: {
      r.op = I::Ret;
      mkaux();
      if (auto *v = cast<ReturnInst>(i).getReturnValue()) ops(v, r.aux->srcs);
      return r;
    }
    case Instruction::Select: {
      auto &s = cast<SelectInst>(i);
      r.op = I::Select;
      r.a = op1(s.getCondition());
      mkaux();
      ops(s.getTrueValue(), r.aux->srcs);
      ops(s.getFalseValue(), r.aux->srcs2);
      flat(i.getType(), r.aux->pieces);
      r.imm = i.getType()->isPointerTy();
      return r;
    }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::FPExt: case Instruction::FPTrunc:
    case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
      r.a = op1(i.getOperand(0));
      r.w2 = widthOf(i.getOperand(0)->getType());
      switch (i.getOpcode()) {
      case Instruction::ZExt: r.op = I::ZExt; break;
      case Instruction::SExt: r.op = I::SExt; break;
      case Instruction::Trunc: r.op = I::Trunc; break;
      case Instruction::FPExt: r.op = I::FPExt; break;
      case Instruction::FPTrunc: r.op = I::FPTrunc; break;
      case Instruction::SIToFP: r.op = I::SIToFP; break;
      case Instruction::UIToFP: r.op = I::UIToFP; break;
      case Instruction::FPToSI: r.op = I::FPToSI; break;
      default: r.op = I::FPToUI; break;
      }
      if (w > 64 || r.w2 > 64) { r.op = I::Unreachable; r.imm = 1; }
      return r;
    case Instruction::PtrToInt: {
      r.a = op1(i.getOperand(0)); r.w2 = 64;
      r.op = w < 64 ? I::Trunc : I::ZExt;
      return r;
    }
    case Instruction::IntToPtr:
      r.a = op1(i.getOperand(0)); r.w2 = widthOf(i.getOperand(0)->getType()); r.op = I::ZExt;
      return r;
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast:
      r.op = I::Move;
      ops(i.getOperand(0), mkaux()->srcs);
      return r;
    case Instruction::ExtractValue: {
      auto &e = cast<ExtractValueInst>(i);
      r.op = I::Move;
      std::vector<int32_t> o;
      ops(e.getAggregateOperand(), o);
      unsigned k = linear(e.getAggregateOperand()->getType(), e.getIndices()), n = nflat(i.getType());
      mkaux()->srcs.assign(o.begin() + k, o.begin() + k + n);
      return r;
    }
    case Instruction::InsertValue: {
      auto &e = cast<InsertValueInst>(i);
      r.op = I::Move;
      std::vector<int32_t> o, v;
      ops(e.getAggregateOperand(), o);
      ops(e.getInsertedValueOperand(), v);
      unsigned k = linear(i.getType(), e.getIndices());
      for (unsigned j = 0; j < v.size(); j++) o[k + j] = v[j];
      mkaux()->srcs = o;
      return r;
    }
    case Instruction::LandingPad: {
      auto &l = cast<LandingPadInst>(i);
      r.op = I::LandingPad;
      mkaux()->cleanup = l.isCleanup();
      for (unsigned k = 0; k < l.getNumClauses(); k++) {
        if (!l.isCatch(k)) { r.aux->cleanup = true; continue; }
        uint64_t v;
        if (!constScalar(l.getClause(k), v)) bad("clause", &i);
        r.aux->catches.push_back(v);
      }
      return r;
    }
    case Instruction::Resume: {
      r.op = I::Resume;
      ops(i.getOperand(0), mkaux()->srcs);
      return r;
    }
    case Instruction::Unreachable: r.op = I::Unreachable; return r;
    case Instruction::Fence: r.op = I::Nop; return r;
    case Instruction::AtomicRMW: {
      auto &a = cast<AtomicRMWInst>(i);
      r.op = I::AtomicRMW;
      r.imm = inShim(i);
      r.sub = a.getOperation();
      r.a = op1(a.getPointerOperand());
      r.b = op1(a.getValOperand());
      return r;
    }
    case Instruction::AtomicCmpXchg: {
      auto &a = cast<AtomicCmpXchgInst>(i);
      r.op = I::CmpXchg;
      r.imm = inShim(i);
      r.w = widthOf(a.getCompareOperand()->getType());
      r.a = op1(a.getPointerOperand());
      r.b = op1(a.getCompareOperand());
      r.c = op1(a.getNewValOperand());
      return r;
    }
    case Instruction::Call: case Instruction::Invoke: {
      auto &c = cast<CallBase>(i);
      r.op = I::Call;
      mkaux()->cb = &c;
      for (unsigned k = 0; k < c.arg_size(); k++) {
        const Value *av = c.getArgOperand(k);
        size_t before = r.aux->args.size();
        if (av->getType()->isMetadataTy()) { r.aux->args.push_back(pool(0)); r.aux->argw.push_back(64); r.aux->argfp.push_back(0); }
        else {
          ops(av, r.aux->args);
          std::vector<Piece> p;
          flat(av->getType(), p);
          for (auto &x : p) { r.aux->argw.push_back(x.w); r.aux->argfp.push_back(av->getType()->isFloatingPointTy()); }
        }
        r.aux->argn.push_back(r.aux->args.size() - before);
        r.aux->argbyval.push_back(c.isByValArgument(k) ? P.dl->getTypeAllocSize(c.getParamByValType(k)) : 0);
      }
      if (c.isInlineAsm()) { r.imm = 2; }
      else if (auto *cf = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts())) r.callee = P.fn(cf);
      else if (auto *ga = dyn_cast<GlobalAlias>(c.getCalledOperand()); ga && isa<Function>(ga->getAliaseeObject())) r.callee = P.fn(cast<Function>(ga->getAliaseeObject()));
      else r.a = op1(c.getCalledOperand());
      if (!i.getType()->isVoidTy()) flat(i.getType(), r.aux->pieces);
      if (auto *inv = dyn_cast<InvokeInst>(&i)) {
        r.aux->invoke = true;
        r.aux->edges.push_back(edge(&b, inv->getNormalDest()));
        r.aux->edges.push_back(edge(&b, inv->getUnwindDest()));
      }
      return r;
    }
    default: bad("instruction", &i);
    }
  }
  unsigned linear(Type *t, ArrayRef<unsigned> ix) {
    unsigned k = 0;
    for (unsigned x : ix) {
      if (auto *st = dyn_cast<StructType>(t)) {
        for (unsigned j = 0; j < x; j++) k += nflat(st->getElementType(j));
        t = st->getElementType(x);
      } else {
        t = t->getArrayElementType();
        k += x * nflat(t);
      }
    }
    return k;
  }
};
} // namespace

Func *Program::fn(const Function *f) {
  auto it = funcs.find(f);
  if (it != funcs.end()) return it->second;
  Func *F = new Func;
  F->f = f;
  F->name = f->getName().str();
  F->vararg = f->isVarArg();
  F->intr = f->getIntrinsicID();
  F->addr = FUNC_BASE + 16 * funcs.size();
  F->builtin = builtinIndex(F->name);
  F->defined = !f->isDeclaration();
  funcs[f] = F;
  byAddr.push_back(F);
  return F;
}

void compileFunc(Func *F) {
  if (F->compiled) return;
  F->compiled = true;
  Comp c(*F);
  c.run();
  F->blockBase = P.nblocks;
  P.nblocks += F->blockStart.size();
  P.compiledOrder.push_back(F);
}
