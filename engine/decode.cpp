// LLVM IR -> compact IR.  The only translation unit that sees LLVM headers.
#include "ir.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;

static LLVMContext* ctx;
static std::unique_ptr<llvm::Module> LM;
static const DataLayout* DL;
static std::map<Type*, Ty*> tys;
static std::unordered_map<const llvm::Function*, Func*> fmap;
static std::unordered_map<const GlobalVariable*, Global*> gmap;
static std::unordered_map<std::string, u32> fileIds;

std::string demangle(const std::string& s) { return llvm::demangle(s); }

static Ty* conv(Type* t) {
  auto it = tys.find(t);
  if (it != tys.end()) return it->second;
  Ty* r = new Ty;
  tys[t] = r;
  if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) { r->k = Ty::VOID; return r; }
  if (auto* it2 = dyn_cast<IntegerType>(t)) { r->k = Ty::INT; r->bits = it2->getBitWidth(); }
  else if (t->isPointerTy()) { r->k = Ty::PTR; r->bits = 64; }
  else if (t->isFloatTy()) { r->k = Ty::FP; r->bits = 32; }
  else if (t->isDoubleTy()) { r->k = Ty::FP; r->bits = 64; }
  else if (t->isX86_FP80Ty()) { r->k = Ty::FP; r->bits = 80; }
  else if (auto* v = dyn_cast<FixedVectorType>(t)) { r->k = Ty::VEC; r->el = conv(v->getElementType()); r->n = v->getNumElements(); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { r->k = Ty::ARR; r->el = conv(a->getElementType()); r->n = a->getNumElements(); }
  else if (auto* s = dyn_cast<StructType>(t)) {
    r->k = Ty::STRUCT;
    if (s->isSized()) {
      auto* sl = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++) { r->f.push_back(conv(s->getElementType(i))); r->off.push_back(sl->getElementOffset(i)); }
    }
  } else { errs() << "engine: unsupported type " << *t << "\n"; r->k = Ty::VOID; return r; }
  if (t->isSized()) { r->size = DL->getTypeAllocSize(t); r->align = DL->getABITypeAlign(t).value(); r->store = DL->getTypeStoreSize(t); }
  return r;
}

static Val constVal(const Constant* c);
static Val zeroOf(Ty* t, bool undef = false) {
  switch (t->k) {
    case Ty::INT: case Ty::PTR: case Ty::FP:
      return Val(C(undef ? 0xAAAAAAAAAAAAAAAAull : 0, t->bits > 64 ? 64 : t->bits));
    case Ty::VEC: case Ty::ARR: { Agg a(t->n, zeroOf(t->el, undef)); return Val(std::move(a)); }
    case Ty::STRUCT: { Agg a; for (auto* f : t->f) a.push_back(zeroOf(f, undef)); return Val(std::move(a)); }
    default: return Val();
  }
}
static Val constVal(const Constant* c) {
  Ty* t = conv(c->getType());
  if (isa<UndefValue>(c)) return zeroOf(t, true);
  if (isa<ConstantPointerNull>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* i = dyn_cast<ConstantInt>(c)) {
    if (i->getBitWidth() > 64) {  // only small wide constants occur
      return Val(C(i->getValue().extractBitsAsZExtValue(64, 0), 64));
    }
    return Val(C(i->getZExtValue(), i->getBitWidth()));
  }
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    APInt b = f->getValueAPF().bitcastToAPInt();
    if (b.getBitWidth() > 64) return Val(C(0, 64));
    return Val(C(b.getZExtValue(), b.getBitWidth()));
  }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    Agg a;
    for (unsigned i = 0; i < d->getNumElements(); i++) a.push_back(constVal(d->getElementAsConstant(i)));
    return Val(std::move(a));
  }
  if (auto* d = dyn_cast<ConstantAggregate>(c)) {
    Agg a;
    for (unsigned i = 0; i < d->getNumOperands(); i++) a.push_back(constVal(d->getOperand(i)));
    return Val(std::move(a));
  }
  if (auto* f = dyn_cast<llvm::Function>(c)) return Val(C(fmap.at(f)->addr, 64));
  if (auto* g = dyn_cast<GlobalVariable>(c)) return Val(C(gmap.at(g)->addr, 64));
  if (auto* al = dyn_cast<GlobalAlias>(c)) return constVal(al->getAliasee());
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        auto* gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(*DL, off)) return Val(mkAdd(constVal(gep->getPointerOperand() ? cast<Constant>(gep->getPointerOperand()) : nullptr).e, C(off.getZExtValue(), 64)));
        break;
      }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
        Val v = constVal(ce->getOperand(0));
        if (v.e && v.e->w != t->bits) { if (v.e->w > t->bits) return Val(mkExtract(v.e, t->bits - 1, 0)); return Val(mkZext(v.e, t->bits)); }
        return v;
      }
      case Instruction::Add: return Val(mkAdd(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e));
      case Instruction::Sub: return Val(mkSub(constVal(ce->getOperand(0)).e, constVal(ce->getOperand(1)).e));
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); os << *c;
  fprintf(stderr, "engine: unsupported constant %s\n", s.c_str());
  return zeroOf(t);
}

static void flatten(u64 off, const Val& v, Ty* t, Global* g) {
  if (v.e) { g->init.push_back({off, v}); return; }
  if (!v.g) return;
  for (size_t i = 0; i < v.g->size(); i++) {
    if (t->k == Ty::STRUCT) flatten(off + t->off[i], (*v.g)[i], t->f[i], g);
    else flatten(off + i * t->el->size, (*v.g)[i], t->el, g);
  }
}
void decodeGlobal(::Module*, Global* g) {
  if (g->initDone) return;
  g->initDone = true;
  auto* gv = (GlobalVariable*)g->llvm;
  if (!gv->hasInitializer()) return;
  flatten(0, constVal(gv->getInitializer()), conv(gv->getValueType()), g);
}

::Module* loadModule(const std::string& path) {
  ctx = new LLVMContext;
  SMDiagnostic err;
  LM = parseIRFile(path, err, *ctx);
  if (!LM) { err.print("engine", errs()); return nullptr; }
  DL = &LM->getDataLayout();
  auto* M = new ::Module;
  M->files.push_back("?");
  u64 i = 0;
  for (auto& f : *LM) {
    Func* F = new Func;
    F->name = f.getName().str();
    F->decl = f.isDeclaration();
    F->addr = FN_BASE + 16 * i++;
    F->llvm = &f;
    F->nargs = f.arg_size();
    F->ret = conv(f.getReturnType());
    F->vararg = f.isVarArg();
    F->id = M->funcs.size();
    fmap[&f] = F;
    M->funcs.push_back(F);
    M->fn[F->name] = F;
  }
  i = 0;
  for (auto& g : LM->globals()) {
    Global* G = new Global;
    G->name = g.getName().str();
    G->decl = g.isDeclaration();
    G->constant = g.isConstant();
    G->size = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 8;
    if (G->decl && G->size < 64) G->size = 64;
    G->align = std::max<u64>(16, g.getAlign() ? g.getAlign()->value() : 16);
    G->addr = GL_BASE + i++ * SLOT + 0x1000;
    G->llvm = &g;
    gmap[&g] = G;
    M->globals.push_back(G);
    M->gl[G->name] = G;
  }
  if (auto* gc = LM->getGlobalVariable("llvm.global_ctors"))
    if (gc->hasInitializer())
      if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
        for (auto& o : ca->operands())
          if (auto* fn = dyn_cast<llvm::Function>(cast<ConstantStruct>(o)->getOperand(1))) M->ctors.push_back(fmap.at(fn));
  return M;
}

static Opc bail(Inst& I, const Instruction& in) {
  raw_string_ostream os(I.text);
  os << in;
  return I_UNSUPPORTED;
}

void decodeFunc(::Module* M, Func* F) {
  if (F->decoded) return;
  F->decoded = true;
  auto& f = *(llvm::Function*)F->llvm;
  F->nice = llvm::demangle(F->name);
  F->cov = F->nice.find("fast_containers::") != std::string::npos;
  std::unordered_map<const Value*, int> reg;
  std::unordered_map<const BasicBlock*, int> bbi;
  int nr = 0;
  for (auto& a : f.args()) { reg[&a] = nr++; F->argTy.push_back(conv(a.getType())); F->byval.push_back(a.hasByValAttr() ? (u64)DL->getTypeAllocSize(a.getParamByValType()) : 0); }
  int nb = 0;
  for (auto& b : f) { bbi[&b] = nb++; for (auto& in : b) if (!in.getType()->isVoidTy()) reg[&in] = nr++; }
  F->nregs = nr;
  F->bb.resize(nb);
  F->hit.assign(nb, 0);
  auto opnd = [&](const Value* v) {
    Operand o;
    if (auto it = reg.find(v); it != reg.end()) o.reg = it->second;
    else if (auto* c = dyn_cast<Constant>(v)) o.c = constVal(c);
    return o;
  };
  for (auto& b : f) {
    Block& B = F->bb[bbi[&b]];
    std::vector<const BasicBlock*> preds(pred_begin(&b), pred_end(&b));
    {  // dedupe
      std::vector<const BasicBlock*> u;
      for (auto* p : preds) if (std::find(u.begin(), u.end(), p) == u.end()) u.push_back(p);
      preds = u;
    }
    for (auto* p : preds) B.preds.push_back(bbi[p]);
    B.phiIn.resize(preds.size());
    for (auto& phi : b.phis()) {
      B.phiDst.push_back(reg[&phi]);
      for (size_t i = 0; i < preds.size(); i++) B.phiIn[i].push_back(opnd(phi.getIncomingValueForBlock(preds[i])));
    }
    for (auto& in : b) {
      if (isa<PHINode>(in)) continue;
      if (isa<DbgInfoIntrinsic>(in)) continue;
      Inst I;
      if (!in.getType()->isVoidTy()) I.dst = reg[&in];
      if (auto& dl = in.getDebugLoc()) {
        I.line = dl.getLine();
        std::string fn = dl->getFilename().str();
        auto it = fileIds.find(fn);
        if (it == fileIds.end()) { fileIds[fn] = M->files.size(); I.file = M->files.size(); M->files.push_back(fn); }
        else I.file = it->second;
      }
      I.ty = conv(in.getType());
      auto ops = [&] { for (auto& u : in.operands()) I.op.push_back(opnd(u)); };
      switch (in.getOpcode()) {
        case Instruction::Alloca: {
          auto& a = cast<AllocaInst>(in);
          I.opc = I_ALLOCA; I.imm = DL->getTypeAllocSize(a.getAllocatedType()); I.scale = {a.getAlign().value()};
          I.op.push_back(opnd(a.getArraySize()));
          break;
        }
        case Instruction::Load: I.opc = I_LOAD; I.imm = cast<LoadInst>(in).getAlign().value(); I.op.push_back(opnd(in.getOperand(0))); break;
        case Instruction::Store:
          I.opc = I_STORE; I.ty = conv(in.getOperand(0)->getType()); I.imm = cast<StoreInst>(in).getAlign().value(); ops(); break;
        case Instruction::GetElementPtr: {
          auto& g = cast<GetElementPtrInst>(in);
          if (in.getType()->isVectorTy()) { I.opc = bail(I, in); break; }
          I.opc = I_GEP; I.op.push_back(opnd(g.getPointerOperand()));
          u64 coff = 0;
          bool first = true;
          Type* prev = nullptr;
          for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            Value* idx = gi.getOperand();
            if (StructType* st = gi.getStructTypeOrNull()) {
              coff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
              u64 bnd = 0;
              if (!first) if (auto* at = dyn_cast<ArrayType>(prev)) bnd = at->getNumElements();
              if (auto* ci = dyn_cast<ConstantInt>(idx)) coff += sz * (u64)ci->getSExtValue();
              else { I.op.push_back(opnd(idx)); I.scale.push_back(sz); I.bound.push_back(bnd); }
            }
            first = false;
            prev = gi.getIndexedType();
          }
          I.imm = coff;
          break;
        }
        case Instruction::ICmp: {
          I.opc = I_ICMP; ops();
          switch (cast<ICmpInst>(in).getPredicate()) {
            case CmpInst::ICMP_EQ: I.sub = P_EQ; break; case CmpInst::ICMP_NE: I.sub = P_NE; break;
            case CmpInst::ICMP_UGT: I.sub = P_UGT; break; case CmpInst::ICMP_UGE: I.sub = P_UGE; break;
            case CmpInst::ICMP_ULT: I.sub = P_ULT; break; case CmpInst::ICMP_ULE: I.sub = P_ULE; break;
            case CmpInst::ICMP_SGT: I.sub = P_SGT; break; case CmpInst::ICMP_SGE: I.sub = P_SGE; break;
            case CmpInst::ICMP_SLT: I.sub = P_SLT; break; default: I.sub = P_SLE; break;
          }
          break;
        }
        case Instruction::FCmp: I.opc = I_FCMP; I.sub = cast<FCmpInst>(in).getPredicate(); ops(); break;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
          I.opc = I_BIN; ops();
          switch (in.getOpcode()) {
            case Instruction::Add: I.sub = ADD; break; case Instruction::Sub: I.sub = SUB; break; case Instruction::Mul: I.sub = MUL; break;
            case Instruction::UDiv: I.sub = UDIV; break; case Instruction::SDiv: I.sub = SDIV; break; case Instruction::URem: I.sub = UREM; break;
            case Instruction::SRem: I.sub = SREM; break; case Instruction::And: I.sub = AND; break; case Instruction::Or: I.sub = OR; break;
            case Instruction::Xor: I.sub = XOR; break; case Instruction::Shl: I.sub = SHL; break; case Instruction::LShr: I.sub = LSHR; break;
            default: I.sub = ASHR; break;
          }
          break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
          I.opc = I_FARITH; I.sub = in.getOpcode() == Instruction::FAdd ? 0 : in.getOpcode() == Instruction::FSub ? 1 : in.getOpcode() == Instruction::FMul ? 2 : 3; ops(); break;
        case Instruction::Select: I.opc = I_SELECT; ops(); break;
        case Instruction::Br: {
          auto& br = cast<BranchInst>(in);
          if (br.isConditional()) { I.opc = I_CONDBR; I.op.push_back(opnd(br.getCondition())); I.t1 = bbi[br.getSuccessor(0)]; I.t2 = bbi[br.getSuccessor(1)]; }
          else { I.opc = I_BR; I.t1 = bbi[br.getSuccessor(0)]; }
          break;
        }
        case Instruction::Switch: {
          auto& sw = cast<SwitchInst>(in);
          I.opc = I_SWITCH; I.op.push_back(opnd(sw.getCondition())); I.t1 = bbi[sw.getDefaultDest()];
          for (auto& c : sw.cases()) I.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
          break;
        }
        case Instruction::Ret: I.opc = I_RET; ops(); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto& cb = cast<CallBase>(in);
          if (isa<InvokeInst>(in)) { I.opc = I_INVOKE; I.t1 = bbi[cast<InvokeInst>(in).getNormalDest()]; I.t2 = bbi[cast<InvokeInst>(in).getUnwindDest()]; }
          else I.opc = I_CALL;
          if (cb.isInlineAsm()) { I.opc = cast<InlineAsm>(cb.getCalledOperand())->getAsmString().empty() ? I_NOP : bail(I, in); break; }
          for (auto& a : cb.args()) { if (a->getType()->isMetadataTy()) I.op.push_back(Operand{Val(C(0, 64))}); else I.op.push_back(opnd(a)); }
          const Value* cv = cb.getCalledOperand()->stripPointerCasts();
          if (auto* cf = dyn_cast<llvm::Function>(cv)) I.callee = fmap.at(cf);
          else I.op.push_back(opnd(cb.getCalledOperand()));  // last operand = pointer
          break;
        }
        case Instruction::LandingPad: {
          auto& lp = cast<LandingPadInst>(in);
          I.opc = I_LANDINGPAD; I.flag = lp.isCleanup();
          for (unsigned i = 0; i < lp.getNumClauses(); i++) I.clauses.push_back({lp.isFilter(i) ? 1 : 0, opnd(lp.getClause(i))});
          break;
        }
        case Instruction::Resume: I.opc = I_RESUME; ops(); break;
        case Instruction::Unreachable: I.opc = I_UNREACHABLE; break;
        case Instruction::ExtractValue: I.opc = I_EXTRACTVALUE; I.op.push_back(opnd(in.getOperand(0))); for (auto x : cast<ExtractValueInst>(in).indices()) I.scale.push_back(x); break;
        case Instruction::InsertValue: I.opc = I_INSERTVALUE; I.op.push_back(opnd(in.getOperand(0))); I.op.push_back(opnd(in.getOperand(1))); for (auto x : cast<InsertValueInst>(in).indices()) I.scale.push_back(x); break;
        case Instruction::ZExt: I.opc = I_ZEXT; ops(); break;
        case Instruction::SExt: I.opc = I_SEXT; ops(); break;
        case Instruction::Trunc: I.opc = I_TRUNC; ops(); break;
        case Instruction::BitCast: I.opc = I_BITCAST; ops(); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: I.opc = I_PTRINT; ops(); break;
        case Instruction::ExtractElement: I.opc = I_EXTRACTELT; ops(); break;
        case Instruction::InsertElement: I.opc = I_INSERTELT; ops(); break;
        case Instruction::ShuffleVector: {
          I.opc = I_SHUFFLE; I.op.push_back(opnd(in.getOperand(0))); I.op.push_back(opnd(in.getOperand(1)));
          for (int m : cast<ShuffleVectorInst>(in).getShuffleMask()) I.scale.push_back((u64)(int64_t)m);
          break;
        }
        case Instruction::Freeze: I.opc = I_FREEZE; ops(); break;
        case Instruction::Fence: I.opc = I_FENCE; break;
        case Instruction::AtomicRMW: {
          auto& r = cast<AtomicRMWInst>(in);
          I.opc = I_ATOMICRMW; ops(); I.sub = r.getOperation(); I.imm = 1; break;
        }
        case Instruction::AtomicCmpXchg: I.opc = I_CMPXCHG; ops(); break;
        case Instruction::FNeg: I.opc = I_FNEG; ops(); break;
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
          I.opc = I_FPCONV; ops();
          I.sub = in.getOpcode() == Instruction::FPExt ? 0 : in.getOpcode() == Instruction::FPTrunc ? 1 : in.getOpcode() == Instruction::SIToFP ? 2 : in.getOpcode() == Instruction::UIToFP ? 3 : in.getOpcode() == Instruction::FPToSI ? 4 : 5;
          I.imm = in.getOperand(0)->getType()->getScalarSizeInBits();
          break;
        default: I.opc = bail(I, in);
      }
      B.ins.push_back(std::move(I));
    }
  }
}
