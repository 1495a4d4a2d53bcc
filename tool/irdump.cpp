// irdump: reads an LLVM bitcode/IR module and writes a JSON description of the
// functions it defines.  It changes nothing: every instruction of every dumped
// function is written out.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include <map>
#include <set>
#include <deque>
#include <string>
using namespace llvm;
using json::OStream;

static const DataLayout *DL;
static std::map<const Value *, int> ids;

static std::string tystr(Type *t) {
  std::string s; raw_string_ostream os(s);
  if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) return "%" + st->getName().str(); }
  t->print(os, false, true); return os.str();
}

static void val(OStream &J, const Value *v);

static void gepsteps(OStream &J, const GEPOperator *g) {
  // list of [kind, ...]: ["o",bytes] constant offset; ["i",value,elemsize,type,count]
  J.array([&] {
    ArrayType *prevArr = nullptr;
    for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      const Value *idx = it.getOperand();
      struct Upd { ArrayType *&p; gep_type_iterator &i; ~Upd() { p = dyn_cast<ArrayType>(i.getIndexedType()); } } upd{prevArr, it};
      if (StructType *st = it.getStructTypeOrNull()) {
        unsigned f = cast<ConstantInt>(idx)->getZExtValue();
        J.array([&] { J.value("f"); J.value((int64_t)DL->getStructLayout(st)->getElementOffset(f).getFixedValue()); J.value(tystr(st)); J.value((int64_t)f); });
      } else {
        Type *et = it.getIndexedType();
        int64_t cnt = -1;
        // array bound, if stepping inside a fixed array
        { if (it != gep_type_begin(g) && prevArr) cnt = prevArr->getNumElements(); }
        J.array([&] { J.value("i"); val(J, idx); J.value((int64_t)DL->getTypeAllocSize(et).getFixedValue()); J.value(tystr(et)); J.value(cnt); });
      }
    }
  });
}

static void constant(OStream &J, const Constant *c) {
  // constants: arrays tagged
  J.array([&] {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      J.value("int");
      SmallString<40> s; ci->getValue().toStringSigned(s);
      J.value(StringRef(s)); J.value((int64_t)ci->getBitWidth());
    } else if (auto *cf = dyn_cast<ConstantFP>(c)) {
      J.value("fp");
      const APFloat &f = cf->getValueAPF();
      if (&f.getSemantics() == &APFloat::IEEEdouble()) {
        char buf[64]; snprintf(buf, 64, "%a", f.convertToDouble()); J.value(buf);
      } else if (&f.getSemantics() == &APFloat::IEEEsingle()) {
        char buf[64]; snprintf(buf, 64, "%a", (double)f.convertToFloat()); J.value(buf);
      } else { SmallString<64> s; f.toString(s); J.value(StringRef(s)); }
      J.value(tystr(c->getType()));
    } else if (isa<ConstantPointerNull>(c)) { J.value("null");
    } else if (isa<UndefValue>(c)) { J.value("undef"); J.value(tystr(c->getType()));
    } else if (isa<ConstantAggregateZero>(c)) { J.value("zero"); J.value(tystr(c->getType()));
    } else if (auto *gv = dyn_cast<GlobalValue>(c)) {
      J.value(isa<Function>(gv) ? "fn" : "glob"); J.value(gv->getName());
    } else if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
      if (cds->isString() ) { J.value("str"); J.value(json::isUTF8(cds->getAsString()) ? json::Value(cds->getAsString().str()) : json::Value(json::fixUTF8(cds->getAsString()))); 
         J.array([&]{ for (unsigned i=0;i<cds->getNumElements();++i) J.value((int64_t)(uint8_t)cds->getElementAsInteger(i)); }); }
      else { J.value("agg"); J.value(tystr(c->getType())); J.array([&] { for (unsigned i = 0; i < cds->getNumElements(); ++i) { constant(J, cds->getElementAsConstant(i)); } }); }
    } else if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
      J.value("agg"); J.value(tystr(c->getType()));
      J.array([&] { for (unsigned i = 0; i < ca->getNumOperands(); ++i) constant(J, cast<Constant>(ca->getOperand(i))); });
    } else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (auto *g = dyn_cast<GEPOperator>(ce)) {
        J.value("cgep"); val(J, g->getPointerOperand()); gepsteps(J, g);
      } else {
        J.value("cexpr"); J.value(ce->getOpcodeName());
        J.array([&] { for (auto &o : ce->operands()) val(J, o.get()); });
      }
    } else { J.value("unknown"); std::string s; raw_string_ostream os(s); c->print(os); J.value(os.str().substr(0,100)); }
  });
}

static void val(OStream &J, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) { constant(J, c); return; }
  if (isa<MetadataAsValue>(v)) { J.value("meta"); return; }
  if (isa<InlineAsm>(v)) { J.array([&]{J.value("asm");}); return; }
  J.value((int64_t)ids.at(v));
}

static std::string dname(StringRef m) {
  return demangle(m.substr(0, m.find("@@")).str());
}

static std::string ditype(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "?";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type: case dwarf::DW_TAG_atomic_type:
      return ditype(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_pointer_type: return ditype(d->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return ditype(d->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return ditype(d->getBaseType(), depth + 1) + "&&";
    default: return ditype(d->getBaseType(), depth + 1);
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = ditype(c->getBaseType(), depth + 1);
      for (auto *e : c->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) {
        if (auto *ci = sr->getCount().dyn_cast<ConstantInt *>()) s += "[" + std::to_string(ci->getSExtValue()) + "]"; else s += "[]";
      }
      return s;
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "enum";
    std::string s;
    std::string scope;
    const DIScope *sc = c->getScope();
    while (sc) { if (auto *ns = dyn_cast<DINamespace>(sc)) { if (!ns->getName().empty() && !ns->getExportSymbols()) scope = ns->getName().str() + "::" + scope; sc = ns->getScope(); }
      else if (auto *ct = dyn_cast<DICompositeType>(sc)) { scope = ct->getName().str() + "::" + scope; sc = ct->getScope(); } else break; }
    return scope + c->getName().str();
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}

int main(int argc, char **argv) {
  // irdump module.bc out.json srcprefix
  LLVMContext C; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print("irdump", errs()); return 2; }
  // names with internal linkage are private to their module
  {
    std::string tag = "@@" + std::to_string(std::hash<std::string>()(M->getSourceFileName()) % 1000000007ull);
    std::vector<GlobalValue *> loc;
    for (auto &g : M->globals()) if (g.hasLocalLinkage() && !g.getName().starts_with("llvm.")) loc.push_back(&g);
    for (auto &f : *M) if (f.hasLocalLinkage() && !f.isDeclaration()) loc.push_back(&f);
    for (auto *g : loc) g->setName(g->getName().str() + tag);
  }
  std::string prefix = argc > 3 ? argv[3] : "/repo/src";
  DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  OStream J(out);
  // reachable closure
  std::set<const Function *> want; std::deque<const Function *> work;
  auto add = [&](const Function *f) { if (f && !f->isDeclaration() && want.insert(f).second) work.push_back(f); };
  auto fileof = [&](const Function &f) -> std::string {
    if (auto *sp = f.getSubprogram()) { std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; return fn; }
    return "";
  };
  for (auto &f : *M) if (!f.isDeclaration() && fileof(f).rfind(prefix, 0) == 0) add(&f);
  std::set<const GlobalVariable *> gseen;
  std::function<void(const Constant *)> scan = [&](const Constant *c) {
    if (auto *f = dyn_cast<Function>(c)) { add(f); return; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { if (gseen.insert(g).second && g->hasInitializer()) scan(g->getInitializer()); return; }
    for (auto &o : c->operands()) if (auto *oc = dyn_cast<Constant>(o.get())) scan(oc);
  };
  while (!work.empty()) {
    const Function *f = work.front(); work.pop_front();
    for (auto &bb : *f) for (auto &i : bb) for (auto &o : i.operands()) if (auto *c = dyn_cast<Constant>(o.get())) scan(c);
  }
  DebugInfoFinder dif; dif.processModule(*M);
  J.object([&] {
    J.attributeObject("structs", [&] {
      for (StructType *st : M->getIdentifiedStructTypes()) {
        if (st->isOpaque() || !st->isSized()) continue;
        J.attributeObject("%" + st->getName().str(), [&] {
          J.attribute("size", (int64_t)DL->getTypeAllocSize(st).getFixedValue());
          J.attributeArray("el", [&] { auto *sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) J.array([&] { J.value((int64_t)sl->getElementOffset(i).getFixedValue()); J.value(tystr(st->getElementType(i))); }); });
        });
      }
    });
    J.attributeObject("classes", [&] {
      std::set<std::string> done;
      for (auto *t : dif.types()) if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->isForwardDecl()) continue;
        if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
        std::string n = ditype(c);
        if (n.empty() || !done.insert(n).second) continue;
        J.attributeObject(json::isUTF8(n) ? n : json::fixUTF8(n), [&] {
          J.attribute("size", (int64_t)c->getSizeInBits() / 8);
          J.attributeArray("m", [&] {
            for (auto *e : c->getElements()) if (auto *d = dyn_cast_or_null<DIDerivedType>(e)) {
              if (d->isStaticMember()) continue;
              if (d->getTag() == dwarf::DW_TAG_member) J.array([&] { J.value(d->getName()); J.value((int64_t)d->getOffsetInBits() / 8); J.value(ditype(d->getBaseType())); J.value((int64_t)d->getSizeInBits()/8); });
              else if (d->getTag() == dwarf::DW_TAG_inheritance) J.array([&] { J.value("<base>"); J.value((int64_t)d->getOffsetInBits() / 8); J.value(ditype(d->getBaseType())); J.value((int64_t)d->getSizeInBits()/8); });
            }
          });
        });
      }
    });
    J.attributeObject("globals", [&] {
      for (auto *g : gseen) J.attributeObject(g->getName(), [&] {
        J.attribute("ty", tystr(g->getValueType())); J.attribute("const", g->isConstant()); J.attribute("tls", g->isThreadLocal());
        J.attribute("dn", dname(g->getName()));
        if (g->hasInitializer()) { J.attributeBegin("init"); constant(J, g->getInitializer()); J.attributeEnd(); }
      });
    });
    J.attributeObject("decls", [&] { for (auto &f : *M) if (f.isDeclaration()) J.attribute(f.getName(), dname(f.getName())); });
    J.attributeObject("functions", [&] {
      for (auto &f : *M) {
        if (!want.count(&f)) continue;
        ids.clear(); int n = 0;
        for (auto &a : f.args()) ids[&a] = n++;
        std::map<const BasicBlock *, int> bbs; int nb = 0;
        for (auto &bb : f) { bbs[&bb] = nb++; for (auto &i : bb) ids[&i] = n++; }
        J.attributeObject(f.getName(), [&] {
          J.attribute("dn", dname(f.getName()));
          J.attribute("file", fileof(f));
          J.attribute("ret", tystr(f.getReturnType()));
          if (auto *sp = f.getSubprogram()) { J.attribute("line", (int64_t)sp->getLine());
            { auto *vd = sp->getVirtuality() || !sp->getDeclaration() ? sp : sp->getDeclaration(); J.attribute("virt", (int64_t)(vd->getVirtuality()? (int64_t)vd->getVirtualIndex():-1)); }
            J.attributeArray("ptypes", [&] { if (auto *ty = sp->getType()) for (auto *x : ty->getTypeArray()) J.value(ditype(x)); });
            J.attributeObject("pnames", [&] { for (auto *v : sp->getRetainedNodes()) {(void)v;} }); }
          J.attributeArray("args", [&] { for (auto &a : f.args()) J.object([&] { J.attribute("name", a.getName()); J.attribute("ty", tystr(a.getType())); 
              if (a.hasStructRetAttr()) J.attribute("sret", tystr(a.getParamStructRetType())); if (a.hasByValAttr()) J.attribute("byval", tystr(a.getParamByValType())); }); });
          J.attributeArray("blocks", [&] {
            for (auto &bb : f) J.array([&] {
              for (auto &i : bb) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                J.object([&] {
                  J.attribute("id", (int64_t)ids[&i]); J.attribute("op", i.getOpcodeName());
                  if (!i.getType()->isVoidTy()) J.attribute("ty", tystr(i.getType()));
                  if (auto &dl = i.getDebugLoc()) J.attribute("ln", (int64_t)dl.getLine());
                  if (auto *p = dyn_cast<PHINode>(&i)) {
                    J.attributeArray("inc", [&] { for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) J.array([&] { J.value((int64_t)bbs[p->getIncomingBlock(k)]); val(J, p->getIncomingValue(k)); }); });
                    return;
                  }
                  if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                    J.attributeBegin("ptr"); val(J, g->getPointerOperand()); J.attributeEnd();
                    J.attribute("sty", tystr(g->getSourceElementType()));
                    J.attributeBegin("steps"); gepsteps(J, cast<GEPOperator>(g)); J.attributeEnd();
                    return;
                  }
                  if (auto *b = dyn_cast<BranchInst>(&i)) {
                    J.attributeArray("succ", [&] { for (unsigned si = 0; si < b->getNumSuccessors(); si++) J.value((int64_t)bbs[b->getSuccessor(si)]); });
                    if (b->isConditional()) { J.attributeBegin("cond"); val(J, b->getCondition()); J.attributeEnd(); }
                    return;
                  }
                  if (auto *s = dyn_cast<SwitchInst>(&i)) {
                    J.attributeBegin("cond"); val(J, s->getCondition()); J.attributeEnd();
                    J.attribute("def", (int64_t)bbs[s->getDefaultDest()]);
                    J.attributeArray("cases", [&] { for (auto c : s->cases()) J.array([&] { val(J, c.getCaseValue()); J.value((int64_t)bbs[c.getCaseSuccessor()]); }); });
                    return;
                  }
                  if (auto *c = dyn_cast<CallBase>(&i)) {
                    J.attributeBegin("fn"); val(J, c->getCalledOperand()); J.attributeEnd();
                    if (auto *cf = dyn_cast<Function>(c->getCalledOperand())) J.attribute("dn", dname(cf->getName()));
                    J.attributeArray("args", [&] { for (auto &a : c->args()) val(J, a.get()); });
                    J.attributeArray("aty", [&] { for (auto &a : c->args()) J.value(tystr(a->getType())); });
                    if (c->arg_size() && c->paramHasAttr(0, Attribute::StructRet)) J.attribute("sret", true);
                    for (unsigned k=0;k<c->arg_size();++k) if (c->isByValArgument(k)) { J.attribute("byval"+std::to_string(k), tystr(c->getParamByValType(k))); }
                    if (auto *iv = dyn_cast<InvokeInst>(c)) { J.attribute("normal", (int64_t)bbs[iv->getNormalDest()]); J.attribute("unwind", (int64_t)bbs[iv->getUnwindDest()]); }
                    return;
                  }
                  if (auto *c = dyn_cast<CmpInst>(&i)) J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
                  if (auto *a = dyn_cast<AllocaInst>(&i)) { J.attribute("aty", tystr(a->getAllocatedType())); }
                  if (auto *s = dyn_cast<StoreInst>(&i)) J.attribute("vty", tystr(s->getValueOperand()->getType()));
                  if (auto *e = dyn_cast<ExtractValueInst>(&i)) J.attributeArray("idx", [&] { for (auto x : e->indices()) J.value((int64_t)x); });
                  if (auto *e = dyn_cast<InsertValueInst>(&i)) J.attributeArray("idx", [&] { for (auto x : e->indices()) J.value((int64_t)x); });
                  if (i.getNumOperands()) J.attribute("oty", tystr(i.getOperand(0)->getType()));
                  J.attributeArray("ops", [&] { for (auto &o : i.operands()) { if (isa<BasicBlock>(o.get())) J.value("bb"); else val(J, o.get()); } });
                });
              }
            });
          });
        });
      }
    });
  });
  return 0;
}
