// irdump: mechanical translation of an LLVM module (bitcode produced by clang from /repo's current
// sources) into JSON, without interpretation, for the deductive verifier in engine.py.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include <functional>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
using namespace llvm;
static const DataLayout* DL;
static std::map<const Value*, int> ids;

static std::string tystr(Type* t) { std::string s; raw_string_ostream o(s); t->print(o, false, true); return s; }

static void leaves(Type* t, uint64_t off, json::Array& out) {
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->isOpaque()) return;
    auto* sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), out);
  } else if (auto* at = dyn_cast<ArrayType>(t)) {
    uint64_t n = at->getNumElements(), sz = DL->getTypeAllocSize(at->getElementType());
    if (n > 512) n = 512;
    for (uint64_t i = 0; i < n; ++i) leaves(at->getElementType(), off + i * sz, out);
  } else if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    uint64_t n = vt->getNumElements(), sz = DL->getTypeAllocSize(vt->getElementType());
    for (uint64_t i = 0; i < n; ++i) leaves(vt->getElementType(), off + i * sz, out);
  } else out.push_back(json::Array{ (int64_t)off, tystr(t), (int64_t)DL->getTypeStoreSize(t) });
}

static json::Value cval(const Value* v);
static json::Value gepv(const GEPOperator* g) {
  json::Array vars; int64_t co = 0;
  for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
    const Value* op = gti.getOperand();
    if (auto* st = gti.getStructTypeOrNull()) {
      co += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
    } else {
      int64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
      if (auto* ci = dyn_cast<ConstantInt>(op)) co += ci->getSExtValue() * sz;
      else vars.push_back(json::Array{ cval(op), sz, (int64_t)op->getType()->getIntegerBitWidth() });
    }
  }
  return json::Object{ {"base", cval(g->getPointerOperand())}, {"off", co}, {"vars", std::move(vars)}, {"inb", g->isInBounds()} };
}
static json::Value cval(const Value* v) {
  if (auto it = ids.find(v); it != ids.end()) return it->second;
  if (auto* ci = dyn_cast<ConstantInt>(v)) {
    SmallString<40> s; ci->getValue().toStringSigned(s);
    return json::Array{ "i", s.str().str(), (int64_t)ci->getBitWidth() };
  }
  if (auto* cf = dyn_cast<ConstantFP>(v)) {
    APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char buf[64]; snprintf(buf, 64, "%a", f.convertToDouble());
    return json::Array{ "f", std::string( buf ) };
  }
  if (isa<ConstantPointerNull>(v)) return json::Array{ "null" };
  if (isa<UndefValue>(v)) return json::Array{ "undef", tystr(v->getType()) };
  if (isa<ConstantAggregateZero>(v)) return json::Array{ "zero", tystr(v->getType()) };
  if (auto* g = dyn_cast<GlobalValue>(v)) return json::Array{ "g", g->getName().str() };
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return json::Array{ "gep", gepv(g) };
    return json::Array{ "ce", ce->getOpcodeName(), cval(ce->getOperand(0)), ce->getNumOperands() > 1 ? cval(ce->getOperand(1)) : json::Value(nullptr) };
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
    json::Array a; for (unsigned i = 0; i < ca->getNumOperands(); ++i) a.push_back(cval(ca->getOperand(i)));
    return json::Array{ "agg", std::move(a) };
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(v)) {
    json::Array a; for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(cval(cd->getElementAsConstant(i)));
    return json::Array{ "agg", std::move(a) };
  }
  return json::Array{ "unk", tystr(v->getType()) };
}
static json::Value lay(Type* t) {
  json::Array a; leaves(t, 0, a);
  return json::Object{ {"size", t->isSized() ? (int64_t)DL->getTypeAllocSize(t) : 0}, {"leaves", std::move(a)} };
}

int main(int argc, char** argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 1; }
  DL = &M->getDataLayout();
  json::Object root, funcs, globs;
  for (auto& g : M->globals()) {
    json::Object o{ {"const", g.isConstant()}, {"layout", lay(g.getValueType())}, {"type", tystr(g.getValueType())} };
    if (g.hasInitializer()) {
      // leaf initialisers
      json::Array li; 
      std::function<void(const Constant*, uint64_t)> rec = [&](const Constant* c, uint64_t off) {
        Type* t = c->getType();
        if (auto* st = dyn_cast<StructType>(t)) {
          auto* sl = DL->getStructLayout(st);
          for (unsigned i = 0; i < st->getNumElements(); ++i) if (auto* e = c->getAggregateElement(i)) rec(e, off + sl->getElementOffset(i));
        } else if (auto* at = dyn_cast<ArrayType>(t)) {
          uint64_t n = at->getNumElements(), sz = DL->getTypeAllocSize(at->getElementType());
          for (uint64_t i = 0; i < n && i < 4096; ++i) if (auto* e = c->getAggregateElement((unsigned)i)) rec(e, off + i * sz);
        } else li.push_back(json::Array{ (int64_t)off, tystr(t), (int64_t)DL->getTypeStoreSize(t), cval(c) });
      };
      rec(g.getInitializer(), 0);
      o["init"] = std::move(li);
    }
    globs[g.getName().str()] = std::move(o);
  }
  for (auto& F : *M) {
    json::Object fo{ {"demangled", demangle(F.getName().str())}, {"decl", F.isDeclaration()}, {"ret", tystr(F.getReturnType())} };
    fo["noreturn"] = F.doesNotReturn();
    if (auto* sp = F.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine(); }
    if (!F.isDeclaration()) {
      ids.clear(); int n = 0;
      json::Array args;
      for (auto& a : F.args()) {
        ids[&a] = n++; json::Object ao{ {"id", ids[&a]}, {"ty", tystr(a.getType())}, {"name", a.getName().str()} };
        if (a.hasByValAttr()) ao["byval"] = lay(a.getParamByValType());
        if (a.hasStructRetAttr()) ao["sret"] = true;
        args.push_back(std::move(ao));
      }
      std::map<const BasicBlock*, int> bid; int b = 0;
      for (auto& BB : F) { bid[&BB] = b++; for (auto& I : BB) ids[&I] = n++; }
      json::Array blocks;
      for (auto& BB : F) {
        json::Array ins;
        for (auto& I : BB) {
          if (isa<DbgInfoIntrinsic>(I)) continue;
          json::Object o{ {"id", ids[&I]}, {"op", I.getOpcodeName()}, {"ty", tystr(I.getType())} };
          if (I.getType()->isIntegerTy()) o["w"] = (int64_t)I.getType()->getIntegerBitWidth();
          if (auto& dl = I.getDebugLoc()) o["line"] = (int64_t)dl.getLine();
          json::Array ops;
          if (auto* p = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) ops.push_back(json::Array{ cval(p->getIncomingValue(i)), bid[p->getIncomingBlock(i)] });
          } else if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) ops.push_back(cval(br->getCondition()));
            json::Array s; for (unsigned i = 0; i < br->getNumSuccessors(); ++i) s.push_back(bid[br->getSuccessor(i)]);
            o["succ"] = std::move(s);
          } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(cval(sw->getCondition())); o["w"] = (int64_t)sw->getCondition()->getType()->getIntegerBitWidth();
            json::Array cs; for (auto& c : sw->cases()) cs.push_back(json::Array{ cval(c.getCaseValue()), bid[c.getCaseSuccessor()] });
            o["cases"] = std::move(cs); o["default"] = bid[sw->getDefaultDest()];
          } else if (auto* cb = dyn_cast<CallBase>(&I)) {
            if (auto* cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) o["callee"] = cf->getName().str();
            else o["indirect"] = cval(cb->getCalledOperand());
            json::Array byv;
            for (unsigned i = 0; i < cb->arg_size(); ++i) {
              if (cb->getArgOperand(i)->getType()->isMetadataTy()) { ops.push_back(nullptr); byv.push_back(nullptr); continue; }
              ops.push_back(cval(cb->getArgOperand(i)));
              if (cb->isByValArgument(i)) byv.push_back(lay(cb->getParamByValType(i))); else byv.push_back(nullptr);
            }
            o["byval"] = std::move(byv);
            json::Array at; for (unsigned i = 0; i < cb->arg_size(); ++i) at.push_back(tystr(cb->getArgOperand(i)->getType())); o["argty"] = std::move(at);
            o["noreturn"] = cb->doesNotReturn();
            if (auto* iv = dyn_cast<InvokeInst>(&I)) { o["normal"] = bid[iv->getNormalDest()]; o["unwind"] = bid[iv->getUnwindDest()]; }
          } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            o["gep"] = gepv(cast<GEPOperator>(g));
          } else {
            for (auto& op : I.operands()) if (!isa<BasicBlock>(op)) ops.push_back(cval(op));
          }
          if (auto* c = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            Type* t = c->getOperand(0)->getType(); o["oty"] = tystr(t); if (t->isIntegerTy()) o["ow"] = (int64_t)t->getIntegerBitWidth();
          }
          if (auto* c = dyn_cast<CastInst>(&I)) { Type* t = c->getSrcTy(); o["oty"] = tystr(t); if (t->isIntegerTy()) o["ow"] = (int64_t)t->getIntegerBitWidth(); }
          if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) { o["nsw"] = ob->hasNoSignedWrap(); o["nuw"] = ob->hasNoUnsignedWrap(); }
          if (auto* pe = dyn_cast<PossiblyExactOperator>(&I)) o["exact"] = pe->isExact();
          if (auto* a = dyn_cast<AllocaInst>(&I)) { o["layout"] = lay(a->getAllocatedType()); Type* t = a->getAllocatedType(); if ( auto* st = dyn_cast<StructType>( t ) ) if ( st->hasName() && st->getName().starts_with( "union.xov::" ) && st->getNumElements() == 1 ) t = st->getElementType( 0 ); o["aty"] = tystr( t ); }
          if (auto* l = dyn_cast<LoadInst>(&I)) { o["layout"] = lay(l->getType()); }
          if (auto* s = dyn_cast<StoreInst>(&I)) { o["layout"] = lay(s->getValueOperand()->getType()); o["oty"] = tystr(s->getValueOperand()->getType()); }
          if (auto* e = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
          if (auto* e = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : e->indices()) ix.push_back((int64_t)i); o["idx"] = std::move(ix); }
          if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            o["cleanup"] = lp->isCleanup(); json::Array cl;
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) cl.push_back(json::Array{ lp->isCatch(i) ? "catch" : "filter", cval(lp->getClause(i)) });
            o["clauses"] = std::move(cl);
          }
          o["ops"] = std::move(ops);
          ins.push_back(std::move(o));
        }
        blocks.push_back(std::move(ins));
      }
      DominatorTree DT(F); LoopInfo LI(DT);
      json::Array loops;
      for (auto* L : LI.getLoopsInPreorder()) {
        json::Array bl; for (auto* BB : L->blocks()) bl.push_back(bid[BB]);
        loops.push_back(json::Object{ {"header", bid[L->getHeader()]}, {"blocks", std::move(bl)}, {"depth", (int64_t)L->getLoopDepth()} });
      }
      fo["args"] = std::move(args); fo["blocks"] = std::move(blocks); fo["loops"] = std::move(loops);
    }
    funcs[F.getName().str()] = std::move(fo);
  }
  root["functions"] = std::move(funcs); root["globals"] = std::move(globs);
  outs() << json::Value(std::move(root)) << "\n";
}
