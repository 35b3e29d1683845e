// irdump: dumps the functions of an LLVM bitcode module that are reachable from
// the given entry points as JSON, for the abstract interpreter in this directory.
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::set<const GlobalValue *> Seen;
static std::deque<const GlobalValue *> Queue;
static void need(const GlobalValue *G) {
  if (Seen.insert(G).second) Queue.push_back(G);
}

static std::string tyStr(Type *T) {
  if (T->isPointerTy()) return "p";
  if (T->isVoidTy()) return "v";
  if (auto *I = dyn_cast<IntegerType>(T)) return "i" + std::to_string(I->getBitWidth());
  if (T->isFloatTy()) return "f32";
  if (T->isDoubleTy()) return "f64";
  if (T->isAggregateType()) return "agg";
  std::string s;
  raw_string_ostream os(s);
  T->print(os);
  return "?" + s;
}
static uint64_t szOf(Type *T) { return T->isSized() ? (uint64_t)DL->getTypeAllocSize(T) : 0; }

struct FnCtx { std::map<const Value *, int> ids; };

static json::Value constant(const Constant *C);
static json::Value operand(FnCtx &F, const Value *V) {
  if (auto *C = dyn_cast<Constant>(V)) return constant(C);
  auto it = F.ids.find(V);
  if (it != F.ids.end()) return json::Array{"r", it->second};
  if (isa<MetadataAsValue>(V)) return json::Array{"md"};
  return json::Array{"?"};
}
static json::Value constant(const Constant *C) {
  if (auto *I = dyn_cast<ConstantInt>(C)) {
    if (I->getBitWidth() <= 64) return json::Array{"i", (int64_t)I->getSExtValue(), (int64_t)I->getBitWidth()};
    return json::Array{"?big"};
  }
  if (isa<ConstantPointerNull>(C)) return json::Array{"i", 0, 64};
  if (isa<UndefValue>(C)) return json::Array{"u", tyStr(C->getType())};
  if (auto *FP = dyn_cast<ConstantFP>(C)) {
    APFloat v = FP->getValueAPF(); bool lose;
    v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
    return json::Array{"fp", v.convertToDouble()};
  }
  if (auto *G = dyn_cast<GlobalAlias>(C)) return constant(G->getAliasee());
  if (auto *Fn = dyn_cast<Function>(C)) { need(Fn); return json::Array{"f", Fn->getName().str()}; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { need(G); return json::Array{"g", G->getName().str(), 0}; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    if (CE->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0);
      if (cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) {
        json::Value b = constant(CE->getOperand(0));
        auto *A = b.getAsArray();
        if (A && (*A)[0].getAsString() && *(*A)[0].getAsString() == "g") {
          int64_t o = *(*A)[2].getAsInteger() + off.getSExtValue();
          return json::Array{"g", (*A)[1].getAsString()->str(), o};
        }
      }
    }
    if (CE->isCast()) return json::Array{"cast", constant(CE->getOperand(0))};
    return json::Array{"?ce"};
  }
  if (isa<ConstantAggregateZero>(C)) return json::Array{"z", tyStr(C->getType())};
  if (auto *CA = dyn_cast<ConstantAggregate>(C)) {
    json::Array a;
    for (auto &op : CA->operands()) a.push_back(constant(cast<Constant>(op)));
    return json::Array{"agg", std::move(a)};
  }
  return json::Array{"?c"};
}

static void flatten(const Constant *C, uint64_t off, json::Array &out) {
  if (isa<ConstantAggregateZero>(C)) { out.push_back(json::Array{(int64_t)off, "z", (int64_t)szOf(C->getType())}); return; }
  if (isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    uint64_t es = D->getElementByteSize();
    bool isint = D->getElementType()->isIntegerTy();
    for (unsigned i = 0; i < D->getNumElements(); i++) {
      if (isint) out.push_back(json::Array{(int64_t)(off + i * es), "i", (int64_t)es, (int64_t)D->getElementAsInteger(i)});
    }
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    uint64_t es = szOf(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) flatten(A->getOperand(i), off + i * es, out);
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *SL = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) flatten(S->getOperand(i), off + (uint64_t)SL->getElementOffset(i), out);
    return;
  }
  out.push_back(json::Array{(int64_t)off, "v", (int64_t)szOf(C->getType()), constant(C)});
}

static json::Value loc(const Instruction &I) {
  if (const DebugLoc &L = I.getDebugLoc()) {
    return json::Array{L->getFilename().str(), (int64_t)L.getLine()};
  }
  return nullptr;
}

static const DIType *strip(const DIType *T) {
  while (T) {
    auto *D = dyn_cast<DIDerivedType>(T);
    if (!D) break;
    if (D->getTag() == dwarf::DW_TAG_typedef || D->getTag() == dwarf::DW_TAG_const_type ||
        D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_volatile_type)
      T = D->getBaseType();
    else break;
  }
  return T;
}
static std::string diName(const DIType *T) {
  T = strip(T);
  if (!T) return "void";
  std::string s;
  if (auto *D = dyn_cast<DIDerivedType>(T)) {
    s = diName(D->getBaseType());
    if (D->getTag() == dwarf::DW_TAG_pointer_type) return s + "*";
    if (D->getTag() == dwarf::DW_TAG_reference_type) return s + "&";
    return s + "?";
  }
  std::string q;
  const DIScope *S = T->getScope();
  while (S && !isa<DIFile>(S) && !isa<DICompileUnit>(S)) {
    if (!S->getName().empty()) q = S->getName().str() + "::" + q;
    S = S->getScope();
  }
  return q + T->getName().str();
}
static json::Value typeInfo(const DISubprogram *SP) {
  const DIScope *S = SP->getScope();
  if (auto *CT = dyn_cast_or_null<DICompositeType>(S)) {
    json::Object o;
    o["name"] = diName(CT);
    o["size"] = (int64_t)(CT->getSizeInBits() / 8);
    json::Array tp;
    if (auto P = CT->getTemplateParams())
      for (auto *t : P) {
        if (auto *tt = dyn_cast<DITemplateTypeParameter>(t)) {
          const DIType *T = strip(cast_or_null<DIType>(tt->getType()));
          uint64_t sz = T ? T->getSizeInBits() / 8 : 0;
          tp.push_back(json::Array{diName(T), (int64_t)sz});
        }
      }
    o["tp"] = std::move(tp);
    return o;
  }
  return nullptr;
}

int main(int argc, char **argv) {
  LLVMContext Ctx;
  SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  for (int i = 2; i < argc; i++) {
    if (auto *F = M->getFunction(argv[i])) need(F);
    else if (auto *G = M->getGlobalVariable(argv[i], true)) need(G);
    else { errs() << "irdump: no entry " << argv[i] << "\n"; return 3; }
  }
  json::Object funcs, globals;
  while (!Queue.empty()) {
    const GlobalValue *G = Queue.front();
    Queue.pop_front();
    if (auto *GV = dyn_cast<GlobalVariable>(G)) {
      json::Object o;
      o["const"] = GV->isConstant();
      o["dem"] = demangle(GV->getName().str());
      o["size"] = (int64_t)szOf(GV->getValueType());
      if (GV->hasInitializer()) {
        json::Array cells;
        flatten(GV->getInitializer(), 0, cells);
        o["cells"] = std::move(cells);
      }
      globals[GV->getName()] = std::move(o);
      continue;
    }
    auto *F = dyn_cast<Function>(G);
    if (!F) continue;
    json::Object fo;
    fo["dem"] = demangle(F->getName().str());
    fo["ret"] = tyStr(F->getReturnType());
    FnCtx C;
    int n = 0;
    json::Array args;
    for (auto &A : F->args()) {
      C.ids[&A] = n++;
      std::string k = tyStr(A.getType());
      json::Array one{k, A.hasStructRetAttr() ? 1 : 0};
      if (A.hasByValAttr()) one.push_back((int64_t)szOf(A.getParamByValType()));
      args.push_back(std::move(one));
    }
    fo["args"] = std::move(args);
    if (auto *SP = F->getSubprogram()) {
      fo["cls"] = typeInfo(SP);
      fo["file"] = SP->getFilename().str();
      fo["line"] = (int64_t)SP->getLine();
    }
    fo["intr"] = F->isIntrinsic();
    if (!F->isDeclaration()) {
      std::map<const BasicBlock *, int> bb;
      int nb = 0;
      for (auto &B : *F) { bb[&B] = nb++; for (auto &I : B) C.ids[&I] = n++; }
      json::Array blocks;
      for (auto &B : *F) {
        json::Array ins;
        for (auto &I : B) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          json::Object o;
          int id = C.ids[&I];
          o["id"] = id;
          o["op"] = std::string(I.getOpcodeName());
          o["ty"] = tyStr(I.getType());
          json::Value l = loc(I);
          if (l.kind() != json::Value::Null) o["loc"] = std::move(l);
          if (auto *A = dyn_cast<AllocaInst>(&I)) {
            o["size"] = (int64_t)szOf(A->getAllocatedType());
            o["n"] = operand(C, A->getArraySize());
            if (auto *ST = dyn_cast<StructType>(A->getAllocatedType()))
              if (ST->hasName()) o["st"] = ST->getName().str();
          } else if (auto *L = dyn_cast<LoadInst>(&I)) {
            o["p"] = operand(C, L->getPointerOperand());
            o["size"] = (int64_t)szOf(L->getType());
          } else if (auto *S = dyn_cast<StoreInst>(&I)) {
            o["p"] = operand(C, S->getPointerOperand());
            o["v"] = operand(C, S->getValueOperand());
            o["vt"] = tyStr(S->getValueOperand()->getType());
            o["size"] = (int64_t)szOf(S->getValueOperand()->getType());
          } else if (auto *GP = dyn_cast<GetElementPtrInst>(&I)) {
            o["p"] = operand(C, GP->getPointerOperand());
            int64_t off = 0;
            json::Array idx;
            for (gep_type_iterator GTI = gep_type_begin(GP), E = gep_type_end(GP); GTI != E; ++GTI) {
              Value *Op = GTI.getOperand();
              if (StructType *STy = GTI.getStructTypeOrNull()) {
                off += (int64_t)(uint64_t)DL->getStructLayout(STy)->getElementOffset(cast<ConstantInt>(Op)->getZExtValue());
              } else {
                int64_t st = (int64_t)(uint64_t)GTI.getSequentialElementStride(*DL);
                if (auto *CI = dyn_cast<ConstantInt>(Op)) off += CI->getSExtValue() * st;
                else idx.push_back(json::Array{operand(C, Op), st, tyStr(Op->getType())});
              }
            }
            o["off"] = off;
            o["idx"] = std::move(idx);
            o["ib"] = GP->isInBounds();
          } else if (auto *IC = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(IC->getPredicate()).str();
            o["a"] = operand(C, IC->getOperand(0));
            o["b"] = operand(C, IC->getOperand(1));
            o["ot"] = tyStr(IC->getOperand(0)->getType());
          } else if (isa<BinaryOperator>(I)) {
            o["a"] = operand(C, I.getOperand(0));
            o["b"] = operand(C, I.getOperand(1));
            if (auto *OB = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = OB->hasNoSignedWrap(); o["nuw"] = OB->hasNoUnsignedWrap(); }
          } else if (isa<CastInst>(I) || isa<FreezeInst>(I) || isa<UnaryOperator>(I)) {
            o["a"] = operand(C, I.getOperand(0));
            o["ot"] = tyStr(I.getOperand(0)->getType());
          } else if (auto *P = dyn_cast<PHINode>(&I)) {
            json::Array in;
            for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
              in.push_back(json::Array{bb[P->getIncomingBlock(i)], operand(C, P->getIncomingValue(i))});
            o["in"] = std::move(in);
          } else if (isa<SelectInst>(I)) {
            o["c"] = operand(C, I.getOperand(0));
            o["a"] = operand(C, I.getOperand(1));
            o["b"] = operand(C, I.getOperand(2));
          } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
            if (Br->isConditional()) {
              o["c"] = operand(C, Br->getCondition());
              o["t"] = bb[Br->getSuccessor(0)];
              o["f"] = bb[Br->getSuccessor(1)];
            } else o["t"] = bb[Br->getSuccessor(0)];
          } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
            o["c"] = operand(C, Sw->getCondition());
            o["ot"] = tyStr(Sw->getCondition()->getType());
            o["d"] = bb[Sw->getDefaultDest()];
            json::Array cs;
            for (auto &c : Sw->cases()) cs.push_back(json::Array{(int64_t)c.getCaseValue()->getSExtValue(), bb[c.getCaseSuccessor()]});
            o["cs"] = std::move(cs);
          } else if (isa<ReturnInst>(I)) {
            if (I.getNumOperands()) o["a"] = operand(C, I.getOperand(0));
          } else if (auto *CB = dyn_cast<CallBase>(&I)) {
            o["op"] = "call";
            o["callee"] = operand(C, CB->getCalledOperand());
            if (auto *II = dyn_cast<IntrinsicInst>(CB)) o["intr"] = II->getCalledFunction()->getName().str();
            json::Array as;
            for (auto &a : CB->args()) as.push_back(operand(C, a));
            o["args"] = std::move(as);
            if (auto *Iv = dyn_cast<InvokeInst>(&I)) o["t"] = bb[Iv->getNormalDest()];
          } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
            o["a"] = operand(C, EV->getAggregateOperand());
            json::Array ix; for (auto i : EV->indices()) ix.push_back((int64_t)i);
            o["ix"] = std::move(ix);
          } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
            o["a"] = operand(C, IV->getAggregateOperand());
            o["b"] = operand(C, IV->getInsertedValueOperand());
            json::Array ix; for (auto i : IV->indices()) ix.push_back((int64_t)i);
            o["ix"] = std::move(ix);
          } else {
            json::Array as;
            for (auto &op : I.operands()) as.push_back(operand(C, op));
            o["args"] = std::move(as);
          }
          if (I.getType()->isStructTy()) {
            auto *ST = cast<StructType>(I.getType());
            auto *SL = DL->getStructLayout(ST);
            json::Array lay;
            for (unsigned i = 0; i < ST->getNumElements(); i++)
              lay.push_back(json::Array{(int64_t)(uint64_t)SL->getElementOffset(i), tyStr(ST->getElementType(i)), (int64_t)szOf(ST->getElementType(i))});
            o["lay"] = std::move(lay);
          }
          if (auto *S = dyn_cast<StoreInst>(&I))
            if (auto *ST = dyn_cast<StructType>(S->getValueOperand()->getType())) {
              auto *SL = DL->getStructLayout(ST);
              json::Array lay;
              for (unsigned i = 0; i < ST->getNumElements(); i++)
                lay.push_back(json::Array{(int64_t)(uint64_t)SL->getElementOffset(i), tyStr(ST->getElementType(i)), (int64_t)szOf(ST->getElementType(i))});
              o["lay"] = std::move(lay);
            }
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      fo["blocks"] = std::move(blocks);
    }
    funcs[F->getName()] = std::move(fo);
  }
  json::Object top;
  top["funcs"] = std::move(funcs);
  top["globals"] = std::move(globals);
  outs() << json::Value(std::move(top));
  return 0;
}
