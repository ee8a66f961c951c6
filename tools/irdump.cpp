// irdump: dumps the functions reachable from the roots (functions whose name starts with a given prefix) of an
// LLVM bitcode module as JSON, with data layout already applied (GEPs are byte offsets).
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/Regex.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::set<const GlobalVariable*> usedGlobals;
static std::set<const Function*> calledFns;

static int idOf(const Value* v) {
  auto it = ids.find(v);
  if (it != ids.end()) return it->second;
  int n = (int)ids.size();
  ids[v] = n;
  return n;
}

static std::string tyStr(Type* t) {
  if (t->isVoidTy()) return "void";
  if (t->isPointerTy()) return "ptr";
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  if (t->isX86_FP80Ty()) return "fp80";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (auto* s = dyn_cast<StructType>(t)) {
    std::string r = "{";
    for (unsigned i = 0; i < s->getNumElements(); ++i) {
      if (i) r += ",";
      r += tyStr(s->getElementType(i));
    }
    return r + "}";
  }
  if (auto* a = dyn_cast<ArrayType>(t)) {
    return "[" + std::to_string(a->getNumElements()) + "x" + tyStr(a->getElementType()) + "]";
  }
  if (auto* v = dyn_cast<FixedVectorType>(t)) {
    return "<" + std::to_string(v->getNumElements()) + "x" + tyStr(v->getElementType()) + ">";
  }
  return "?";
}

static json::Value operand(const Value* v);

static json::Value constant(const Constant* c) {
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    SmallString<32> s;
    ci->getValue().toStringSigned(s);
    return json::Array{"i", std::string(s.str()), (int)ci->getBitWidth()};
  }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    SmallString<64> s;
    APFloat f = cf->getValueAPF();
    if (f.isInfinity()) return json::Array{"f", f.isNegative() ? "-inf" : "inf"};
    if (f.isNaN()) return json::Array{"f", "nan"};
    bool loses = false;
    f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &loses);
    double d = f.convertToDouble();
    char buf[64];
    snprintf(buf, sizeof buf, "%a", d);
    return json::Array{"f", std::string(buf)};
  }
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return json::Array{"undef", tyStr(c->getType())};
  if (auto* g = dyn_cast<GlobalVariable>(c)) {
    usedGlobals.insert(g);
    return json::Array{"g", g->getName().str()};
  }
  if (auto* f = dyn_cast<Function>(c)) {
    calledFns.insert(f);
    return json::Array{"fn", f->getName().str()};
  }
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constant(a->getAliasee());
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", tyStr(c->getType())};
  if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
    if (cds->isString()) {
      json::Array bytes;
      std::string hex;
      StringRef s = cds->getAsString();
      static const char* H = "0123456789abcdef";
      for (unsigned char ch : s) {
        hex += H[ch >> 4];
        hex += H[ch & 15];
      }
      return json::Array{"str", hex};
    }
    json::Array a;
    for (unsigned i = 0; i < cds->getNumElements(); ++i) a.push_back(constant(cds->getElementAsConstant(i)));
    return json::Array{"agg", tyStr(c->getType()), std::move(a)};
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array a;
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) a.push_back(constant(cast<Constant>(ca->getOperand(i))));
    return json::Array{"agg", tyStr(c->getType()), std::move(a)};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (auto* gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return json::Array{"gep", operand(gep->getPointerOperand()), off.getSExtValue()};
    }
    if (ce->isCast()) return json::Array{"cast", ce->getOpcodeName(), operand(ce->getOperand(0)), tyStr(ce->getType())};
    json::Array a;
    for (auto& o : ce->operands()) a.push_back(operand(o));
    return json::Array{"cexpr", ce->getOpcodeName(), std::move(a)};
  }
  return json::Array{"unk", tyStr(c->getType())};
}

static json::Value operand(const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return constant(c);
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  return json::Array{"v", idOf(v)};
}

// flat layout of an aggregate type: list of [offset, type]
static void flat(Type* t, uint64_t off, json::Array& out) {
  if (auto* s = dyn_cast<StructType>(t)) {
    if (s->isOpaque()) return;
    auto* l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); ++i) flat(s->getElementType(i), off + l->getElementOffset(i), out);
  } else if (auto* a = dyn_cast<ArrayType>(t)) {
    if (a->getNumElements() > 64) return;
    for (unsigned i = 0; i < a->getNumElements(); ++i)
      flat(a->getElementType(), off + i * DL->getTypeAllocSize(a->getElementType()), out);
  } else {
    out.push_back(json::Array{(int64_t)off, tyStr(t)});
  }
}

static json::Value instr(const Instruction& I) {
  json::Object o;
  o["op"] = I.getOpcodeName();
  if (!I.getType()->isVoidTy()) {
    o["id"] = idOf(&I);
    o["ty"] = tyStr(I.getType());
  }
  auto ops = [&]() {
    json::Array a;
    for (auto& u : I.operands()) a.push_back(operand(u));
    return a;
  };
  if (auto* dl = I.getDebugLoc().get()) o["line"] = (int)dl->getLine();
  if (auto* al = dyn_cast<AllocaInst>(&I)) {
    o["size"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType());
    o["cnt"] = operand(al->getArraySize());
    if (auto* st = dyn_cast<StructType>(al->getAllocatedType()))
      o["aty"] = st->hasName() ? st->getName().str() : "";
  } else if (auto* ld = dyn_cast<LoadInst>(&I)) {
    o["p"] = operand(ld->getPointerOperand());
    if (ld->getType()->isIntegerTy(8) && ld->getMetadata(LLVMContext::MD_range)) o["bool"] = true;
    if (ld->getType()->isAggregateType()) {
      json::Array a;
      flat(ld->getType(), 0, a);
      o["flat"] = std::move(a);
    }
  } else if (auto* st = dyn_cast<StoreInst>(&I)) {
    o["p"] = operand(st->getPointerOperand());
    o["val"] = operand(st->getValueOperand());
    o["vty"] = tyStr(st->getValueOperand()->getType());
  } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
    MapVector<Value*, APInt> vars;
    APInt c(64, 0);
    o["p"] = operand(gep->getPointerOperand());
    if (gep->collectOffset(*DL, 64, vars, c)) {
      o["off"] = c.getSExtValue();
      json::Array a;
      for (auto& kv : vars) a.push_back(json::Array{operand(kv.first), kv.second.getSExtValue(), tyStr(kv.first->getType())});
      o["vars"] = std::move(a);
    }
  } else if (auto* cmp = dyn_cast<CmpInst>(&I)) {
    o["pred"] = CmpInst::getPredicateName(cmp->getPredicate()).str();
    o["ops"] = ops();
    o["oty"] = tyStr(I.getOperand(0)->getType());
  } else if (auto* phi = dyn_cast<PHINode>(&I)) {
    json::Array a;
    for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
      a.push_back(json::Array{operand(phi->getIncomingValue(i)), idOf(phi->getIncomingBlock(i))});
    o["in"] = std::move(a);
  } else if (auto* br = dyn_cast<BranchInst>(&I)) {
    json::Array t;
    for (unsigned i = 0; i < br->getNumSuccessors(); ++i) t.push_back(idOf(br->getSuccessor(i)));
    o["succ"] = std::move(t);
    if (br->isConditional()) o["cond"] = operand(br->getCondition());
  } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
    o["cond"] = operand(sw->getCondition());
    o["def"] = idOf(sw->getDefaultDest());
    json::Array a;
    for (auto& cs : sw->cases()) a.push_back(json::Array{cs.getCaseValue()->getSExtValue(), idOf(cs.getCaseSuccessor())});
    o["cases"] = std::move(a);
  } else if (auto* cb = dyn_cast<CallBase>(&I)) {
    json::Array a;
    json::Array tys, attrs;
    for (unsigned i = 0; i < cb->arg_size(); ++i) {
      a.push_back(operand(cb->getArgOperand(i)));
      tys.push_back(tyStr(cb->getArgOperand(i)->getType()));
      if (cb->paramHasAttr(i, Attribute::StructRet)) o["sret"] = (int64_t)DL->getTypeAllocSize(cb->getParamStructRetType(i));
    }
    o["args"] = std::move(a);
    o["atys"] = std::move(tys);
    const Value* callee = cb->getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(callee)) callee = ga->getAliaseeObject();
    o["callee"] = operand(callee);
    if (auto* inv = dyn_cast<InvokeInst>(cb)) {
      o["normal"] = idOf(inv->getNormalDest());
      o["unwind"] = idOf(inv->getUnwindDest());
    }
  } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
    o["ops"] = ops();
    json::Array a;
    for (auto i : ev->indices()) a.push_back((int)i);
    o["idx"] = std::move(a);
  } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
    o["ops"] = ops();
    json::Array a;
    for (auto i : iv->indices()) a.push_back((int)i);
    o["idx"] = std::move(a);
  } else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
    o["cleanup"] = lp->isCleanup();
    json::Array a;
    for (unsigned i = 0; i < lp->getNumClauses(); ++i)
      a.push_back(json::Array{lp->isCatch(i) ? "catch" : "filter", operand(lp->getClause(i))});
    o["clauses"] = std::move(a);
  } else {
    o["ops"] = ops();
    if (I.getNumOperands()) o["oty"] = tyStr(I.getOperand(0)->getType());
    if (auto* rmw = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(rmw->getOperation()).str();
    if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&I)) {
      o["nsw"] = bo->hasNoSignedWrap();
      o["nuw"] = bo->hasNoUnsignedWrap();
    }
    if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
      json::Array a;
      for (int i : sv->getShuffleMask()) a.push_back(i);
      o["mask"] = std::move(a);
    }
  }
  return o;
}

int main(int argc, char** argv) {
  if (argc < 5) {
    errs() << "usage: irdump in.bc rootprefix cutregexfile out.json\n";
    return 2;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print("irdump", errs());
    return 2;
  }
  DL = &M->getDataLayout();
  std::string prefix = argv[2];
  std::vector<Regex> cuts;
  {
    std::ifstream in(argv[3]);
    std::string l;
    while (std::getline(in, l)) {
      if (l.empty() || l[0] == '#') continue;
      cuts.emplace_back(l);
      std::string e;
      if (!cuts.back().isValid(e)) {
        errs() << "bad regex " << l << ": " << e << "\n";
        return 2;
      }
    }
  }
  std::vector<const Function*> work;
  std::set<const Function*> seen;
  for (auto& f : *M)
    if (f.getName().starts_with(prefix) && !f.isDeclaration()) {
      work.push_back(&f);
      seen.insert(&f);
    }
  json::Object fns;
  std::set<const GlobalVariable*> dumpedGlobals;
  json::Object globals;
  auto push = [&](const Function* f) {
    if (seen.insert(f).second) work.push_back(f);
  };
  while (!work.empty()) {
    const Function* F = work.back();
    work.pop_back();
    json::Object fo;
    std::string dem = demangle(F->getName().str());
    fo["dem"] = dem;
    fo["ret"] = tyStr(F->getReturnType());
    fo["nounwind"] = F->doesNotThrow();
    bool cut = F->isDeclaration();
    bool isroot = F->getName().starts_with(prefix);
    if (!cut && !isroot)
      for (auto& c : cuts)
        if (c.match(dem)) {
          cut = true;
          break;
        }
    fo["decl"] = F->isDeclaration();
    fo["cut"] = cut;
    json::Array args;
    if (!cut) ids.clear();
    calledFns.clear();
    usedGlobals.clear();
    for (auto& a : F->args()) {
      json::Object ao;
      ao["id"] = idOf(&a);
      ao["ty"] = tyStr(a.getType());
      ao["name"] = a.getName().str();
      if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL->getTypeAllocSize(a.getParamStructRetType());
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    if (auto* sp = F->getSubprogram()) {
      fo["file"] = sp->getFilename().str();
      fo["line"] = (int)sp->getLine();
    }
    if (!cut) {
      DominatorTree DT(*const_cast<Function*>(F));
      LoopInfo LI(DT);
      json::Array blocks;
      for (auto& B : *F) {
        json::Object bo;
        bo["b"] = idOf(&B);
        json::Array is;
        for (auto& I : B) {
          if (auto* ii = dyn_cast<IntrinsicInst>(&I)) {
            auto id = ii->getIntrinsicID();
            if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_value ||
                id == Intrinsic::dbg_declare || id == Intrinsic::experimental_noalias_scope_decl ||
                id == Intrinsic::assume)
              continue;
          }
          is.push_back(instr(I));
        }
        bo["is"] = std::move(is);
        blocks.push_back(std::move(bo));
      }
      fo["blocks"] = std::move(blocks);
      json::Array loops;
      for (auto* L : LI.getLoopsInPreorder()) {
        json::Object lo;
        lo["header"] = idOf(L->getHeader());
        json::Array bs, ls;
        for (auto* b : L->blocks()) bs.push_back(idOf(b));
        SmallVector<BasicBlock*, 4> lat;
        L->getLoopLatches(lat);
        for (auto* b : lat) ls.push_back(idOf(b));
        lo["blocks"] = std::move(bs);
        lo["latches"] = std::move(ls);
        lo["depth"] = (int)L->getLoopDepth();
        loops.push_back(std::move(lo));
      }
      fo["loops"] = std::move(loops);
      for (auto* f : calledFns) push(f);
      // globals (and what they reference, e.g. vtables)
      std::vector<const GlobalVariable*> gw(usedGlobals.begin(), usedGlobals.end());
      while (!gw.empty()) {
        auto* g = gw.back();
        gw.pop_back();
        if (!dumpedGlobals.insert(g).second) continue;
        usedGlobals.clear();
        calledFns.clear();
        json::Object go;
        go["const"] = g->isConstant();
        go["ty"] = tyStr(g->getValueType());
        go["size"] = g->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g->getValueType()) : 0;
        if (g->hasInitializer()) {
          go["init"] = constant(g->getInitializer());
          json::Array a;
          flat(g->getValueType(), 0, a);
          go["flat"] = std::move(a);
        }
        globals[g->getName().str()] = std::move(go);
        for (auto* f : calledFns) push(f);
        for (auto* x : usedGlobals) gw.push_back(x);
      }
    }
    fns[F->getName().str()] = std::move(fo);
  }
  // record layouts from the debug information: element sizes of containers, members of records
  json::Object types;
  {
    DebugInfoFinder df;
    df.processModule(*M);
    auto sizeOf = [](const DIType* t) -> int64_t {
      while (t) {
        if (t->getSizeInBits()) return (int64_t)(t->getSizeInBits() / 8);
        if (auto* d = dyn_cast<DIDerivedType>(t)) t = d->getBaseType(); else break;
      }
      return 0;
    };
    auto nameOf = [](const DIType* t) -> std::string {
      std::string suffix;
      while (t) {
        if (auto* d = dyn_cast<DIDerivedType>(t)) {
          if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag() == dwarf::DW_TAG_reference_type) suffix += "*";
          t = d->getBaseType();
          continue;
        }
        if (auto* c = dyn_cast<DICompositeType>(t)) {
          if (!c->getIdentifier().empty()) {
            std::string n = demangle(c->getIdentifier().str());
            if (n.rfind("typeinfo name for ", 0) == 0) n = n.substr(18);
            return n + suffix;
          }
        }
        return t->getName().str() + suffix;
      }
      return "void" + suffix;
    };
    for (auto* t : df.types()) {
      auto* c = dyn_cast<DICompositeType>(t);
      if (!c || c->getIdentifier().empty() || !c->getSizeInBits()) continue;
      if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
      json::Object o;
      o["size"] = (int64_t)(c->getSizeInBits() / 8);
      json::Array mem;
      for (auto* e : c->getElements())
        if (auto* d = dyn_cast<DIDerivedType>(e)) {
          if (d->isStaticMember()) continue;
          if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_inheritance)
            mem.push_back(json::Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), nameOf(d->getBaseType()),
                                      sizeOf(d->getBaseType()), d->getTag() == dwarf::DW_TAG_inheritance});
        }
      o["mem"] = std::move(mem);
      json::Array tp;
      for (auto* p : c->getTemplateParams())
        if (auto* tt = dyn_cast<DITemplateTypeParameter>(p)) tp.push_back(json::Array{nameOf(tt->getType()), sizeOf(tt->getType())});
      o["tp"] = std::move(tp);
      types[nameOf(c)] = std::move(o);
    }
  }
  json::Object top;
  top["types"] = std::move(types);
  top["functions"] = std::move(fns);
  top["globals"] = std::move(globals);
  std::error_code ec;
  raw_fd_ostream os(argv[4], ec);
  os << json::Value(std::move(top)) << "\n";
  return 0;
}
