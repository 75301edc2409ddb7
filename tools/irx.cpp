// irx: export (normalised) LLVM IR of one translation unit as JSON, for the Python analyses in /verif/sa.
//   irx IN.bc OUT.json --mode=ssa|raw [--known=FILE]
// ssa: functions not named in --known are inlined at their direct call sites (so that an extracted helper is
//      looked through), then mem2reg + early-cse + simplifycfg put every function in SSA form.
// raw: the IR as clang emitted it (allocas, volatile accesses), for analyses of stack slots.
#include <llvm/ADT/StringExtras.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
#include <set>
#include <string>
#include <fstream>
using namespace llvm;

static std::map<const Value*, int> ids;      // per function
static std::map<const BasicBlock*, int> bids;
static const DataLayout *DL;

static std::string tyName(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "?";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return tyName(d->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_const_type: return "const " + tyName(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + tyName(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_restrict_type: return tyName(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef: return d->getName().str();
    default: return d->getName().str();
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = tyName(c->getBaseType(), depth + 1);
      for (auto *e : c->getElements())
        if (auto *r = dyn_cast<DISubrange>(e)) {
          auto cnt = r->getCount();
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(cnt)) s += "[" + std::to_string(ci->getSExtValue()) + "]";
          else s += "[]";
        }
      return s;
    }
    std::string n = c->getName().str();
    if (c->getTag() == dwarf::DW_TAG_structure_type) return "struct " + (n.empty() ? "anon" : n);
    if (c->getTag() == dwarf::DW_TAG_union_type) return "union " + (n.empty() ? "anon" : n);
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "enum " + n;
    return n;
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

static std::string base(StringRef f) {
  auto p = f.rfind("/core/"); if (p != StringRef::npos) return f.substr(p + 1).str();
  p = f.rfind("/lib/"); if (p != StringRef::npos) return f.substr(p + 1).str();
  p = f.rfind("/tools/"); if (p != StringRef::npos) return f.substr(p + 1).str();
  return f.str();
}

static std::string irTy(Type *t) {
  std::string s; raw_string_ostream o(s); t->print(o, false, true); return s;
}

static json::Value constVal(const Constant *c, int depth = 0);

static json::Array gepPath(const GEPOperator *g, std::function<json::Value(const Value *)> opv) {
  json::Array path;
  Type *t = g->getSourceElementType();
  bool first = true;
  for (auto i = g->idx_begin(); i != g->idx_end(); ++i) {
    const Value *ix = *i;
    if (first) { first = false;
      auto *ci = dyn_cast<ConstantInt>(ix);
      if (!(ci && ci->isZero())) path.push_back(json::Object{{"t", irTy(t)}, {"ix", opv(ix)}, {"sz", (int64_t)(t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0)}});
      continue; }
    if (auto *st = dyn_cast<StructType>(t)) {
      unsigned f = cast<ConstantInt>(ix)->getZExtValue();
      path.push_back(json::Object{{"s", st->hasName() ? st->getName().str() : "anon"}, {"f", (int64_t)f},
                                  {"off", (int64_t)DL->getStructLayout(st)->getElementOffset(f)}});
      t = st->getElementType(f);
    } else if (auto *at = dyn_cast<ArrayType>(t)) {
      t = at->getElementType();
      path.push_back(json::Object{{"t", irTy(t)}, {"ix", opv(ix)}, {"sz", (int64_t)DL->getTypeAllocSize(t).getFixedValue()}, {"n", (int64_t)at->getNumElements()}});
    } else path.push_back(json::Object{{"t", "?"}, {"ix", opv(ix)}});
  }
  return path;
}

static json::Value opv(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c);
  auto it = ids.find(v);
  if (it != ids.end()) return json::Object{{"v", it->second}};
  if (auto *bb = dyn_cast<BasicBlock>(v)) return json::Object{{"bb", bids[bb]}};
  if (isa<InlineAsm>(v)) return json::Object{{"asm", cast<InlineAsm>(v)->getAsmString()}};
  return json::Object{{"md", 1}};
}

static json::Value constVal(const Constant *c, int depth) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return json::Object{{"c", ci->getSExtValue()}, {"w", (int64_t)ci->getBitWidth()}};
    return json::Object{{"big", 1}};
  }
  if (isa<ConstantPointerNull>(c)) return json::Object{{"null", 1}};
  if (isa<UndefValue>(c)) return json::Object{{"undef", 1}};
  if (auto *fp = dyn_cast<ConstantFP>(c)) return json::Object{{"fp", fp->getValueAPF().convertToDouble()}};
  if (auto *f = dyn_cast<Function>(c)) return json::Object{{"fn", f->getName().str()}};
  if (auto *g = dyn_cast<GlobalVariable>(c)) {
    if (g->hasInitializer() && g->isConstant())
      if (auto *da = dyn_cast<ConstantDataSequential>(g->getInitializer()))
        if (da->isString()) {
          json::Object o{{"g", g->getName().str()}, {"str", json::fixUTF8(da->getAsString())}};
          if (!json::isUTF8(da->getAsString())) o["hex"] = toHex(da->getAsString());
          return o;
        }
    if (g->hasInitializer() && g->isConstant() && isa<ConstantAggregateZero>(g->getInitializer()) && g->getValueType()->isArrayTy() &&
        g->getValueType()->getArrayElementType()->isIntegerTy(8))
      return json::Object{{"g", g->getName().str()}, {"str", std::string(1, '\0')}};
    return json::Object{{"g", g->getName().str()}};
  }
  if (auto *ba = dyn_cast<BlockAddress>(c)) {
    auto it = bids.find(ba->getBasicBlock());
    return json::Object{{"ba", it == bids.end() ? -1 : it->second}, {"baf", ba->getFunction()->getName().str()}};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce))
      return json::Object{{"ce", "getelementptr"}, {"base", opv(g->getPointerOperand())}, {"path", gepPath(g, [](const Value *v) { return opv(v); })}};
    json::Array ops; for (auto &o : ce->operands()) ops.push_back(opv(o.get()));
    return json::Object{{"ce", ce->getOpcodeName()}, {"ops", std::move(ops)}};
  }
  if (depth < 6) {
    if (isa<ConstantAggregateZero>(c)) return json::Object{{"zero", 1}, {"ty", irTy(c->getType())}};
    if (auto *da = dyn_cast<ConstantDataSequential>(c)) {
      json::Array a; for (unsigned i = 0; i < da->getNumElements(); i++) a.push_back(constVal(da->getElementAsConstant(i), depth + 1));
      return json::Object{{"arr", std::move(a)}};
    }
    if (isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
      json::Array a; for (auto &o : c->operands()) a.push_back(constVal(cast<Constant>(o.get()), depth + 1));
      return json::Object{{"arr", std::move(a)}};
    }
  }
  return json::Object{{"k", "other"}};
}

static json::Value locOf(const DebugLoc &dl) {
  if (!dl) return nullptr;
  // outermost frame last: report the innermost source position
  return json::Array{base(dl->getFilename()), (int64_t)dl.getLine(), (int64_t)dl.getCol()};
}

int main(int argc, char **argv) {
  std::string in = argv[1], out = argv[2], mode = "ssa", known, root;
  for (int i = 3; i < argc; i++) {
    StringRef a(argv[i]);
    if (a.starts_with("--mode=")) mode = a.substr(7).str();
    if (a.starts_with("--known=")) known = a.substr(8).str();
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(in, err, ctx);
  if (!M) { err.print("irx", errs()); return 3; }
  std::set<std::string> knownSet;
  if (!known.empty()) { std::ifstream f(known); std::string l; while (std::getline(f, l)) if (!l.empty()) knownSet.insert(l); }
  json::Array inlinedFns;
  if (mode == "ssa") {
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
      bool indirect = false;
      for (auto &B : F) if (isa<IndirectBrInst>(B.getTerminator())) indirect = true;
      if (!knownSet.empty() && !knownSet.count(F.getName().str()) && !F.isVarArg() && !indirect && F.getName() != "main") {
        F.addFnAttr(Attribute::AlwaysInline); inlinedFns.push_back(F.getName().str());
      }
    }
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "always-inline,function(mem2reg,sroa,mem2reg,early-cse,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup>)")) {
      errs() << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);
  }
  DL = &M->getDataLayout();
  json::Object top;
  top["inlined"] = std::move(inlinedFns);
  // struct layouts from debug info
  json::Object structs; DebugInfoFinder DIF; DIF.processModule(*M);
  json::Object typedefs, enums;
  for (auto *t : DIF.types()) {
    std::string nm;
    const DICompositeType *ct = nullptr;
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
      if (d->getTag() == dwarf::DW_TAG_typedef) {
        typedefs[d->getName()] = tyName(d->getBaseType());
        if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType())) if (c->getName().empty()) { ct = c; nm = d->getName().str(); }
      }
    } else if (auto *c = dyn_cast<DICompositeType>(t)) {
      ct = c; nm = c->getName().str();
    }
    if (!ct || nm.empty()) continue;
    if (ct->getTag() == dwarf::DW_TAG_structure_type || ct->getTag() == dwarf::DW_TAG_union_type) {
      if (!ct->getElements().size()) continue;
      json::Array fs;
      for (auto *e : ct->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e))
        fs.push_back(json::Object{{"n", m->getName().str()}, {"off", (int64_t)(m->getOffsetInBits() / 8)}, {"sz", (int64_t)(m->getSizeInBits() / 8)}, {"ty", tyName(m->getBaseType())}});
      structs[nm] = json::Object{{"size", (int64_t)(ct->getSizeInBits() / 8)}, {"fields", std::move(fs)}};
    } else if (ct->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Array es; for (auto *e : ct->getElements()) if (auto *m = dyn_cast<DIEnumerator>(e)) es.push_back(json::Array{m->getName().str(), m->getValue().getSExtValue()});
      enums[nm] = std::move(es);
    }
  }
  // anonymous enums
  { int k = 0; for (auto *t : DIF.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type && c->getName().empty()) {
      json::Array es; for (auto *e : c->getElements()) if (auto *m = dyn_cast<DIEnumerator>(e)) es.push_back(json::Array{m->getName().str(), m->getValue().getSExtValue()});
      enums["anon" + std::to_string(k++)] = std::move(es); } }
  for (auto *CU : M->debug_compile_units()) for (auto *e : CU->getEnumTypes()) {
    std::string nm = e->getName().str(); if (nm.empty()) nm = "anoncu" + std::to_string(e->getLine());
    json::Array es; for (auto *x : e->getElements()) if (auto *m = dyn_cast<DIEnumerator>(x)) es.push_back(json::Array{m->getName().str(), m->getValue().getSExtValue()});
    enums[nm] = std::move(es);
  }
  top["structs"] = std::move(structs); top["typedefs"] = std::move(typedefs); top["enums"] = std::move(enums);
  top["source"] = base(M->getSourceFileName());
  // block ids of every function first (blockaddress)
  for (auto &F : *M) { int b = 0; for (auto &B : F) bids[&B] = b++; }
  json::Array funcs;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    json::Object fo;
    fo["name"] = F.getName().str();
    fo["static"] = F.hasLocalLinkage();
    fo["vararg"] = F.isVarArg();
    auto *SP = F.getSubprogram();
    if (SP) { fo["file"] = base(SP->getFilename()); fo["line"] = (int64_t)SP->getLine();
      json::Array pt; if (auto *st = SP->getType()) for (auto *t : st->getTypeArray()) pt.push_back(tyName(t));
      fo["ditypes"] = std::move(pt); }
    ids.clear(); int n = 0;
    json::Array ps;
    for (auto &A : F.args()) { ids[&A] = n; ps.push_back(json::Object{{"i", n}, {"ty", irTy(A.getType())}, {"n", A.getName().str()}}); n++; }
    for (auto &B : F) for (auto &I : B) ids[&I] = n++;
    // variable names
    std::map<const Value*, const DILocalVariable*> vars;
    for (auto &B : F) for (auto &I : B) if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
      if (dv->getNumVariableLocationOps() >= 1) { auto *v = dv->getVariableLocationOp(0);
        if (v && !vars.count(v) && dv->getDebugLoc() && !dv->getDebugLoc().getInlinedAt()) vars[v] = dv->getVariable(); } }
    fo["params"] = std::move(ps);
    json::Array blocks;
    for (auto &B : F) {
      json::Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        json::Object o;
        o["i"] = ids[&I]; o["op"] = I.getOpcodeName();
        if (!I.getType()->isVoidTy()) o["ty"] = irTy(I.getType());
        auto l = locOf(I.getDebugLoc()); if (I.getDebugLoc()) o["l"] = std::move(l);
        auto vi = vars.find(&I); if (vi != vars.end()) { o["var"] = vi->second->getName().str(); o["vty"] = tyName(vi->second->getType()); }
        if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          o["base"] = opv(g->getPointerOperand());
          o["path"] = gepPath(cast<GEPOperator>(g), [](const Value *v) { return opv(v); });
          APInt off(64, 0); if (g->accumulateConstantOffset(*DL, off)) o["coff"] = off.getSExtValue();
        } else if (auto *c = dyn_cast<CallBase>(&I)) {
          auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
          if (cf) o["fn"] = cf->getName().str(); else o["callee"] = opv(c->getCalledOperand());
          if (isa<InlineAsm>(c->getCalledOperand())) o["asm"] = cast<InlineAsm>(c->getCalledOperand())->getAsmString();
          json::Array a; for (auto &x : c->args()) a.push_back(opv(x.get())); o["args"] = std::move(a);
          if (c->doesNotReturn()) o["noret"] = true;
        } else if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array a; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) a.push_back(json::Array{bids[p->getIncomingBlock(k)], opv(p->getIncomingValue(k))});
          o["in"] = std::move(a);
        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
          o["cond"] = opv(s->getCondition()); json::Array a;
          for (auto &cs : s->cases()) a.push_back(json::Array{cs.getCaseValue()->getSExtValue(), bids[cs.getCaseSuccessor()]});
          o["cases"] = std::move(a); o["def"] = bids[s->getDefaultDest()];
        } else if (auto *br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) o["cond"] = opv(br->getCondition());
          json::Array a; for (unsigned k = 0; k < br->getNumSuccessors(); k++) a.push_back(bids[br->getSuccessor(k)]); o["succ"] = std::move(a);
        } else if (auto *ib = dyn_cast<IndirectBrInst>(&I)) {
          o["addr"] = opv(ib->getAddress()); json::Array a; for (unsigned k = 0; k < ib->getNumDestinations(); k++) a.push_back(bids[ib->getDestination(k)]); o["succ"] = std::move(a);
        } else {
          json::Array a; for (auto &x : I.operands()) a.push_back(opv(x.get())); o["ops"] = std::move(a);
          if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
          if (auto *al = dyn_cast<AllocaInst>(&I)) { o["aty"] = irTy(al->getAllocatedType());
            if (al->getAllocatedType()->isSized() && !al->isArrayAllocation()) o["asz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); }
          if (auto *ld = dyn_cast<LoadInst>(&I)) { if (ld->isVolatile()) o["vol"] = true; }
          if (auto *stt = dyn_cast<StoreInst>(&I)) { if (stt->isVolatile()) o["vol"] = true; o["sty"] = irTy(stt->getValueOperand()->getType()); }
        }
        ins.push_back(std::move(o));
      }
      json::Array preds; for (auto *p : predecessors(&B)) preds.push_back(bids[p]);
      json::Array succs; for (auto *p : successors(&B)) succs.push_back(bids[p]);
      blocks.push_back(json::Object{{"b", bids[&B]}, {"ins", std::move(ins)}, {"preds", std::move(preds)}, {"succs", std::move(succs)}, {"name", B.getName().str()}});
    }
    fo["blocks"] = std::move(blocks);
    // names of parameters' variables in SSA mode
    json::Object av; for (auto &A : F.args()) { auto vi = vars.find(&A); if (vi != vars.end()) av[std::to_string(ids[&A])] = json::Array{vi->second->getName().str(), tyName(vi->second->getType())}; }
    fo["argvars"] = std::move(av);
    funcs.push_back(std::move(fo));
  }
  top["funcs"] = std::move(funcs);
  ids.clear();
  json::Object globals;
  for (auto &G : M->globals()) if (G.hasInitializer()) {
    json::Object go{{"const", G.isConstant()}, {"ty", irTy(G.getValueType())}, {"static", G.hasLocalLinkage()}};
    if (G.getName().starts_with(".str")) continue;
    SmallVector<DIGlobalVariableExpression *, 1> gvs; G.getDebugInfo(gvs);
    if (!gvs.empty()) { go["line"] = (int64_t)gvs[0]->getVariable()->getLine(); go["file"] = base(gvs[0]->getVariable()->getFilename()); go["dty"] = tyName(gvs[0]->getVariable()->getType()); }
    go["init"] = constVal(G.getInitializer());
    globals[G.getName()] = std::move(go);
  }
  top["globals"] = std::move(globals);
  std::error_code ec; raw_fd_ostream os(out, ec); os << json::Value(std::move(top)); os.close();
  return os.has_error() ? 3 : 0;
}
