#include "symx.h"

#include "llvm/IR/Constants.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"

using namespace llvm;

unsigned Exec::width(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isDoubleTy()) return 64;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}

Val Exec::mkAgg(std::vector<Val>&& vs) {
  Expr* e = pool.alloc();
  *e = Expr();
  e->op = Op::Agg;
  e->agg = new std::vector<Val>(std::move(vs));
  Val v;
  v.e = e;
  return v;
}

Val Exec::zeroOf(Type* t, bool undef) {
  if (auto* st = dyn_cast<StructType>(t)) {
    std::vector<Val> vs;
    for (auto* el : st->elements()) vs.push_back(zeroOf(el, undef));
    return mkAgg(std::move(vs));
  }
  if (auto* at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> vs(at->getNumElements(), zeroOf(at->getElementType(), undef));
    return mkAgg(std::move(vs));
  }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    std::vector<Val> vs(vt->getNumElements(), zeroOf(vt->getElementType(), undef));
    return mkAgg(std::move(vs));
  }
  unsigned w = width(t);
  if (w > 64) return val(mkConst(0, w));
  return Val();
}

Val Exec::constVal(const Constant* c) {
  Type* t = c->getType();
  Val v;
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) {
      v.c = ci->getZExtValue();
      return v;
    }
    if (ci->getBitWidth() <= 128) {
      u128 x = ci->getValue().getRawData()[0];
      if (ci->getValue().getNumWords() > 1)
        x |= (u128)ci->getValue().getRawData()[1] << 64;
      return val(mkConst(x, ci->getBitWidth()));
    }
    return v;
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    APInt bits = cf->getValueAPF().bitcastToAPInt();
    if (bits.getBitWidth() <= 64) {
      v.c = bits.getZExtValue();
      return v;
    }
    u128 x = bits.getRawData()[0];
    if (bits.getNumWords() > 1) x |= (u128)bits.getRawData()[1] << 64;
    return val(mkConst(x, bits.getBitWidth()));
  }
  if (isa<ConstantPointerNull>(c)) return v;
  if (isa<UndefValue>(c)) return zeroOf(t, true);
  if (isa<ConstantAggregateZero>(c)) return zeroOf(t, false);
  if (auto* gv = dyn_cast<GlobalValue>(c)) {
    if (auto* ga = dyn_cast<GlobalAlias>(gv))
      return constVal(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) {
      // created by a simplification pass
      if (auto* G = const_cast<GlobalVariable*>(dyn_cast<GlobalVariable>(gv))) {
        if (G->isConstant() && G->hasInitializer()) {
          uint64_t a = cmem.alloc(DL->getTypeAllocSize(G->getValueType()), 2, false,
                                  G->getAlign() ? G->getAlign()->value() : 16);
          gaddr[G] = a;
          writeConst(cmem, cmem.find(a), 0, G->getInitializer());
          v.c = a;
          return v;
        }
      }
      if (auto* Fn = const_cast<Function*>(dyn_cast<Function>(gv))) {
        uint64_t a = 0x10000 + 16 * fnAt.size();
        gaddr[Fn] = a;
        fnAt[a] = Fn;
        v.c = a;
        return v;
      }
      fprintf(stderr, "no address for global %s\n", gv->getName().str().c_str());
      abort();
    }
    v.c = it->second;
    return v;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    std::vector<Val> vs;
    for (unsigned i = 0; i < ca->getNumOperands(); i++)
      vs.push_back(constVal(ca->getOperand(i)));
    return mkAgg(std::move(vs));
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    std::vector<Val> vs;
    for (unsigned i = 0; i < cd->getNumElements(); i++)
      vs.push_back(constVal(cd->getElementAsConstant(i)));
    return mkAgg(std::move(vs));
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    unsigned w = width(t);
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        auto* gep = cast<GEPOperator>(ce);
        Val b = constVal(cast<Constant>(gep->getPointerOperand()));
        if (!gep->accumulateConstantOffset(*DL, off)) {
          fprintf(stderr, "constexpr gep\n");
          abort();
        }
        v.c = b.c + off.getSExtValue();
        return v;
      }
      case Instruction::BitCast:
      case Instruction::AddrSpaceCast:
      case Instruction::PtrToInt:
      case Instruction::IntToPtr: {
        Val b = constVal(ce->getOperand(0));
        if (!b.e) b.c &= mask64(w);
        return b;
      }
      case Instruction::Trunc: {
        Val b = constVal(ce->getOperand(0));
        return val(mkExtract(ex(b, width(ce->getOperand(0)->getType())), 0, w));
      }
      case Instruction::ZExt: {
        Val b = constVal(ce->getOperand(0));
        return val(mkZExt(ex(b, width(ce->getOperand(0)->getType())), w));
      }
      case Instruction::SExt: {
        Val b = constVal(ce->getOperand(0));
        return val(mkSExt(ex(b, width(ce->getOperand(0)->getType())), w));
      }
      case Instruction::Add:
      case Instruction::Sub:
      case Instruction::Mul:
      case Instruction::And:
      case Instruction::Or:
      case Instruction::Xor:
      case Instruction::Shl:
      case Instruction::LShr:
      case Instruction::AShr: {
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        Op op = Op::Add;
        switch (ce->getOpcode()) {
          case Instruction::Sub: op = Op::Sub; break;
          case Instruction::Mul: op = Op::Mul; break;
          case Instruction::And: op = Op::And; break;
          case Instruction::Or: op = Op::Or; break;
          case Instruction::Xor: op = Op::Xor; break;
          case Instruction::Shl: op = Op::Shl; break;
          case Instruction::LShr: op = Op::LShr; break;
          case Instruction::AShr: op = Op::AShr; break;
        }
        return val(mkBin(op, ex(a, w), ex(b, w)));
      }
      case Instruction::ICmp: {
        Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
        return icmp(ce->getPredicate(), a, b, width(ce->getOperand(0)->getType()));
      }
      case Instruction::Select: {
        Val a = constVal(ce->getOperand(0));
        return constVal(ce->getOperand(a.c ? 1 : 2));
      }
    }
  }
  std::string s;
  raw_string_ostream os(s);
  c->print(os);
  fprintf(stderr, "unsupported constant %s\n", os.str().c_str());
  abort();
}

void Exec::writeConst(Mem& m, Obj* o, uint64_t off, const Constant* c) {
  Type* t = c->getType();
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) ||
      isa<ConstantPointerNull>(c))
    return;
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    StringRef raw = cd->getRawDataValues();
    memcpy(o->data + off, raw.data(), raw.size());
    return;
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++)
      writeConst(m, o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
    Type* el = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType()
                                 : cast<VectorType>(t)->getElementType();
    uint64_t sz = DL->getTypeAllocSize(el);
    for (unsigned i = 0; i < c->getNumOperands(); i++)
      writeConst(m, o, off + i * sz, cast<Constant>(c->getOperand(i)));
    return;
  }
  Val v = constVal(c);
  unsigned n = DL->getTypeStoreSize(t);
  u128 x = v.e ? v.e->c : v.c;
  for (unsigned i = 0; i < n; i++) o->data[off + i] = (uint8_t)(x >> (8 * i));
}

void Exec::load(const std::string& file) {
  static LLVMContext ctx;
  SMDiagnostic err;
  auto mod = parseIRFile(file, err, ctx);
  if (!mod) {
    err.print("symx", errs());
    exit(3);
  }
  M = mod.release();
  DL = &M->getDataLayout();
}

void Exec::setupGlobals(State& s) {
  uint64_t fa = 0x10000;
  for (auto& F : *M) {
    gaddr[&F] = fa;
    fnAt[fa] = &F;
    fa += 16;
  }
  cmem.next = 0x10000000;
  s.mem.next = 0x40000000;
  std::vector<std::pair<GlobalVariable*, Obj*>> todo;
  for (auto& G : M->globals()) {
    Type* t = G.getValueType();
    uint64_t sz = t->isSized() ? (uint64_t)DL->getTypeAllocSize(t) : 64;
    if (!G.hasInitializer() && sz < 64) sz = 64;
    bool ro = G.isConstant() && G.hasInitializer();
    Mem& m = ro ? cmem : s.mem;
    uint64_t al = G.getAlign() ? G.getAlign()->value() : 16;
    uint64_t a = m.alloc(sz, 2, false, al);
    Obj* o = m.find(a);
    if (!o) o = m.objs.back().second.p;
    o->readonly = ro;
    gaddr[&G] = a;
    if (G.hasInitializer()) todo.push_back({&G, o});
  }
  s.mem.next = 0x100000000ull;
  for (auto& p : todo) {
    Mem& m = p.second->readonly ? cmem : s.mem;
    writeConst(m, p.second, 0, p.first->getInitializer());
  }
}

void simplifyFunction(Function* F);

Func* Exec::getFunc(Function* F) {
  auto it = funcs.find(F);
  if (it != funcs.end()) return it->second;
  simplifyFunction(F);
  Func* f = new Func;
  f->F = F;
  f->name = F->getName().str();
  funcs[F] = f;
  translate(f);
  return f;
}

static Op binOpOf(unsigned o) {
  switch (o) {
    case Instruction::Add: return Op::Add;
    case Instruction::Sub: return Op::Sub;
    case Instruction::Mul: return Op::Mul;
    case Instruction::UDiv: return Op::UDiv;
    case Instruction::SDiv: return Op::SDiv;
    case Instruction::URem: return Op::URem;
    case Instruction::SRem: return Op::SRem;
    case Instruction::And: return Op::And;
    case Instruction::Or: return Op::Or;
    case Instruction::Xor: return Op::Xor;
    case Instruction::Shl: return Op::Shl;
    case Instruction::LShr: return Op::LShr;
    case Instruction::AShr: return Op::AShr;
    case Instruction::FAdd: return Op::FAdd;
    case Instruction::FSub: return Op::FSub;
    case Instruction::FMul: return Op::FMul;
    case Instruction::FDiv: return Op::FDiv;
  }
  return Op::Agg;
}

void Exec::translate(Func* f) {
  Function* F = f->F;
  std::unordered_map<const Value*, int> slot;
  std::unordered_map<const Value*, int> constSlot;
  std::unordered_map<const BasicBlock*, uint32_t> bpc;
  int n = 0;
  for (auto& A : F->args()) slot[&A] = n++;
  f->nargs = n;
  f->vararg = F->isVarArg();
  uint32_t pc = 0;
  for (auto& B : *F) {
    bool first = true;
    for (auto& I : B) {
      if (!I.getType()->isVoidTy()) slot[&I] = n++;
      if (isa<PHINode>(I)) continue;
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (first) {
        bpc[&B] = pc;
        first = false;
      }
      pc++;
    }
  }
  f->nregs = n;
  f->code.reserve(pc);
  auto ref = [&](const Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) {
      auto it = constSlot.find(v);
      if (it != constSlot.end()) return it->second;
      f->consts.push_back(constVal(c));
      int r = ~(int)(f->consts.size() - 1);
      constSlot[v] = r;
      return r;
    }
    auto it = slot.find(v);
    if (it == slot.end()) {
      // metadata operands etc.
      f->consts.push_back(Val());
      return ~(int)(f->consts.size() - 1);
    }
    return it->second;
  };
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.pc = bpc[to];
    for (auto& P : to->phis())
      e.copies.push_back({slot[&P], ref(P.getIncomingValueForBlock(from))});
    return e;
  };
  for (auto& B : *F) {
    for (auto& I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      FInst in;
      in.I = &I;
      Type* t = I.getType();
      if (!t->isVoidTy()) {
        in.dst = slot[&I];
        in.w = width(t);
      }
      in.ty = t;
      switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
        case Instruction::SRem: case Instruction::And: case Instruction::Or:
        case Instruction::Xor: case Instruction::Shl: case Instruction::LShr:
        case Instruction::AShr:
          in.k = K::Bin;
          in.sub = (uint8_t)binOpOf(I.getOpcode());
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          in.vec = t->isVectorTy();
          if (in.vec) in.w = width(cast<VectorType>(t)->getElementType());
          break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul:
        case Instruction::FDiv: case Instruction::FRem:
          in.k = K::FBin;
          in.sub = (uint8_t)binOpOf(I.getOpcode());
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          in.vec = t->isVectorTy();
          if (in.vec) in.w = width(cast<VectorType>(t)->getElementType());
          break;
        case Instruction::FNeg:
          in.k = K::FNeg;
          in.a = ref(I.getOperand(0));
          in.vec = t->isVectorTy();
          if (in.vec) in.w = width(cast<VectorType>(t)->getElementType());
          break;
        case Instruction::ICmp:
        case Instruction::FCmp: {
          auto* c = cast<CmpInst>(&I);
          in.k = I.getOpcode() == Instruction::ICmp ? K::ICmp : K::FCmp;
          in.sub = c->getPredicate();
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          Type* ot = I.getOperand(0)->getType();
          in.vec = ot->isVectorTy();
          in.sw = width(in.vec ? cast<VectorType>(ot)->getElementType() : ot);
          break;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
        case Instruction::FPExt: case Instruction::FPTrunc:
        case Instruction::FPToUI: case Instruction::FPToSI:
        case Instruction::UIToFP: case Instruction::SIToFP:
        case Instruction::BitCast: case Instruction::PtrToInt:
        case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
          switch (I.getOpcode()) {
            case Instruction::Trunc: in.k = K::Trunc; break;
            case Instruction::ZExt: in.k = K::ZExt; break;
            case Instruction::SExt: in.k = K::SExt; break;
            case Instruction::FPExt: in.k = K::FPExt; break;
            case Instruction::FPTrunc: in.k = K::FPTrunc; break;
            case Instruction::FPToUI: in.k = K::FPToUI; break;
            case Instruction::FPToSI: in.k = K::FPToSI; break;
            case Instruction::UIToFP: in.k = K::UIToFP; break;
            case Instruction::SIToFP: in.k = K::SIToFP; break;
            default: in.k = K::Bitcast;
          }
          Type* ot = I.getOperand(0)->getType();
          in.a = ref(I.getOperand(0));
          in.vec = ot->isVectorTy() || t->isVectorTy();
          if (in.vec && in.k != K::Bitcast) {
            in.w = width(cast<VectorType>(t)->getElementType());
            in.sw = width(cast<VectorType>(ot)->getElementType());
          } else {
            in.sw = width(ot);
          }
          // ptrtoint/inttoptr may change width
          if (I.getOpcode() == Instruction::PtrToInt ||
              I.getOpcode() == Instruction::IntToPtr) {
            if (in.w < in.sw) in.k = K::Trunc;
            else if (in.w > in.sw) in.k = K::ZExt;
          }
          break;
        }
        case Instruction::Load:
          in.k = K::Load;
          in.a = ref(I.getOperand(0));
          in.imm = cast<LoadInst>(I).isAtomic();
          break;
        case Instruction::Store:
          in.k = K::Store;
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          in.ty = I.getOperand(0)->getType();
          in.w = width(in.ty);
          in.imm = cast<StoreInst>(I).isAtomic();
          break;
        case Instruction::GetElementPtr: {
          in.k = K::Gep;
          auto* g = cast<GetElementPtrInst>(&I);
          if (t->isVectorTy()) {
            in.vec = true;
            break;
          }
          in.a = ref(g->getPointerOperand());
          int64_t off = 0;
          for (auto ti = gep_type_begin(g), e = gep_type_end(g); ti != e; ++ti) {
            Value* op = ti.getOperand();
            if (StructType* st = ti.getStructTypeOrNull()) {
              off += DL->getStructLayout(st)->getElementOffset(
                  cast<ConstantInt>(op)->getZExtValue());
            } else {
              uint64_t sc = DL->getTypeAllocSize(ti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(op))
                off += ci->getSExtValue() * (int64_t)sc;
              else
                in.gep.push_back({ref(op), sc, (uint8_t)width(op->getType())});
            }
          }
          in.imm = (uint64_t)off;
          break;
        }
        case Instruction::Alloca: {
          auto* a = cast<AllocaInst>(&I);
          in.k = K::Alloca;
          in.imm = DL->getTypeAllocSize(a->getAllocatedType());
          in.a = ref(a->getArraySize());
          in.sw = width(a->getArraySize()->getType());
          in.sub = (uint8_t)std::min<uint64_t>(128, a->getAlign().value());
          break;
        }
        case Instruction::Br: {
          auto* b = cast<BranchInst>(&I);
          if (b->isUnconditional()) {
            in.k = K::Br;
            in.edges.push_back(edge(&B, b->getSuccessor(0)));
          } else {
            in.k = K::CBr;
            in.a = ref(b->getCondition());
            in.edges.push_back(edge(&B, b->getSuccessor(0)));
            in.edges.push_back(edge(&B, b->getSuccessor(1)));
          }
          break;
        }
        case Instruction::Switch: {
          auto* s = cast<SwitchInst>(&I);
          in.k = K::Switch;
          in.a = ref(s->getCondition());
          in.sw = width(s->getCondition()->getType());
          in.edges.push_back(edge(&B, s->getDefaultDest()));
          for (auto& c : s->cases()) {
            in.cases.push_back({c.getCaseValue()->getZExtValue(),
                                (int)in.edges.size()});
            in.edges.push_back(edge(&B, c.getCaseSuccessor()));
          }
          break;
        }
        case Instruction::Ret:
          in.k = K::Ret;
          if (I.getNumOperands()) {
            in.a = ref(I.getOperand(0));
            in.imm = 1;
          }
          break;
        case Instruction::Call:
        case Instruction::Invoke: {
          auto* cb = cast<CallBase>(&I);
          in.k = I.getOpcode() == Instruction::Call ? K::Call : K::Invoke;
          for (auto& a : cb->args()) in.ops.push_back(ref(a.get()));
          Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* ga = dyn_cast<GlobalAlias>(cv))
            cv = ga->getAliaseeObject();
          if (auto* cf = dyn_cast<Function>(cv)) in.callee = cf;
          else if (isa<InlineAsm>(cv)) {
            auto* ia = cast<InlineAsm>(cv);
            in.imm = ia->getAsmString().empty() ? 1 : 2;
          } else
            in.a = ref(cv);
          if (in.k == K::Invoke) {
            auto* iv = cast<InvokeInst>(&I);
            in.edges.push_back(edge(&B, iv->getNormalDest()));
            in.edges.push_back(edge(&B, iv->getUnwindDest()));
          }
          break;
        }
        case Instruction::Select:
          in.k = K::Select;
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          in.c = ref(I.getOperand(2));
          in.vec = I.getOperand(0)->getType()->isVectorTy();
          break;
        case Instruction::ExtractValue: {
          in.k = K::ExtractVal;
          in.a = ref(I.getOperand(0));
          auto ix = cast<ExtractValueInst>(&I)->getIndices();
          in.idx.assign(ix.begin(), ix.end());
          break;
        }
        case Instruction::InsertValue: {
          in.k = K::InsertVal;
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          auto ix = cast<InsertValueInst>(&I)->getIndices();
          in.idx.assign(ix.begin(), ix.end());
          break;
        }
        case Instruction::LandingPad: in.k = K::LandingPad; break;
        case Instruction::Resume:
          in.k = K::Resume;
          in.a = ref(I.getOperand(0));
          break;
        case Instruction::Unreachable: in.k = K::Unreachable; break;
        case Instruction::AtomicCmpXchg:
          in.k = K::CmpXchg;
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          in.c = ref(I.getOperand(2));
          in.sw = width(I.getOperand(1)->getType());
          break;
        case Instruction::AtomicRMW:
          in.k = K::AtomicRMW;
          in.sub = cast<AtomicRMWInst>(I).getOperation();
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          break;
        case Instruction::Fence: in.k = K::Fence; break;
        case Instruction::Freeze:
          in.k = K::Freeze;
          in.a = ref(I.getOperand(0));
          break;
        case Instruction::ExtractElement:
          in.k = K::ExtElt;
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          break;
        case Instruction::InsertElement:
          in.k = K::InsElt;
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          in.c = ref(I.getOperand(2));
          break;
        case Instruction::ShuffleVector: {
          in.k = K::Shuffle;
          in.a = ref(I.getOperand(0));
          in.b = ref(I.getOperand(1));
          for (int m : cast<ShuffleVectorInst>(I).getShuffleMask())
            in.idx.push_back((unsigned)m);
          break;
        }
        default:
          // executed as unsupported
          in.k = K::Unreachable;
          in.imm = 99;
          break;
      }
      f->code.push_back(std::move(in));
    }
  }
}
