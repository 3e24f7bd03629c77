// irdump: reads LLVM bitcode/IR and prints it as JSON for the Python analyses in /verif/lib.
// Address arithmetic is lowered to (base, constant byte offset, [index*scale]...), constants to plain values.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Support/Format.h>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static const DataLayout *DL;
static raw_ostream &O = outs();

static std::string esc(StringRef s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::string tyname(Type *t)
{
    if (t->isVoidTy()) return "void";
    if (t->isPointerTy()) return "ptr";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isDoubleTy()) return "f64";
    if (t->isFloatTy()) return "f32";
    if (t->isX86_FP80Ty()) return "f80";
    if (auto *st = dyn_cast<StructType>(t)) {
        // layout: {off:type,...}
        std::string r = "{";
        const StructLayout *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            if (i) r += ",";
            r += std::to_string((uint64_t)sl->getElementOffset(i)) + ":" + tyname(st->getElementType(i));
        }
        return r + "}#" + std::to_string((uint64_t)DL->getTypeAllocSize(st));
    }
    if (auto *at = dyn_cast<ArrayType>(t)) {
        return "[" + std::to_string(at->getNumElements()) + "x" + tyname(at->getElementType()) + "]#" + std::to_string((uint64_t)DL->getTypeAllocSize(at));
    }
    return "other";
}

static uint64_t tysize(Type *t) { return t->isSized() ? (uint64_t)DL->getTypeStoreSize(t) : 0; }

static DenseMap<const Value *, int> ids;

static void emitOperand(const Value *v);

static void emitConst(const Constant *c)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        SmallString<40> s; ci->getValue().toString(s, 10, false);
        O << "[\"i\"," << s << "," << ci->getBitWidth() << "]"; return;
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        APFloat f = cf->getValueAPF(); bool li;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        uint64_t bits = f.bitcastToAPInt().getZExtValue();
        O << "[\"f\",\"" << format_hex_no_prefix(bits, 16) << "\"]"; return;
    }
    if (isa<ConstantPointerNull>(c)) { O << "[\"n\"]"; return; }
    if (isa<UndefValue>(c)) { O << "[\"u\"]"; return; }
    if (auto *f = dyn_cast<Function>(c)) { O << "[\"F\"," << esc(f->getName()) << "]"; return; }
    if (auto *g = dyn_cast<GlobalVariable>(c)) { O << "[\"g\"," << esc(g->getName()) << ",0]"; return; }
    if (isa<ConstantAggregateZero>(c)) { O << "[\"z\"," << esc(tyname(c->getType())) << "]"; return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
                O << "[\"+\","; emitOperand(ce->getOperand(0)); O << "," << off.getSExtValue() << "]"; return;
            }
        }
        if (ce->isCast()) { emitOperand(ce->getOperand(0)); return; }
    }
    O << "[\"?\"," << esc(tyname(c->getType())) << "]";
}

static void emitOperand(const Value *v)
{
    if (auto *a = dyn_cast<Argument>(v)) { O << "[\"a\"," << a->getArgNo() << "]"; return; }
    if (auto *c = dyn_cast<Constant>(v)) { emitConst(c); return; }
    auto it = ids.find(v);
    if (it != ids.end()) { O << "[\"v\"," << it->second << "]"; return; }
    if (auto *bb = dyn_cast<BasicBlock>(v)) { (void)bb; O << "[\"b\"]"; return; }
    O << "[\"?\",\"\"]";
}

static void flat(const Constant *c, uint64_t off, bool &first)
{
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // default zero
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        const StructLayout *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) flat(cs->getOperand(i), off + sl->getElementOffset(i), first);
        return;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) flat(ca->getOperand(i), off + i * es, first);
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) flat(cd->getElementAsConstant(i), off + i * es, first);
        return;
    }
    if (!first) O << ",";
    first = false;
    O << "[" << off << "," << tysize(t) << ",";
    emitConst(c);
    O << "]";
}

static std::string pathOf(const DIScope *s)
{
    return (s->getDirectory().empty() || s->getFilename().starts_with("/")) ? s->getFilename().str() : (s->getDirectory() + "/" + s->getFilename()).str();
}

int main(int argc, char **argv)
{
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print("irdump", errs()); return 2; }
    DL = &M->getDataLayout();
    O << "{\"globals\":{";
    bool f1 = true;
    for (auto &g : M->globals()) {
        if (!f1) O << ",\n"; f1 = false;
        O << esc(g.getName()) << ":{\"ty\":" << esc(tyname(g.getValueType())) << ",\"size\":" << tysize(g.getValueType())
          << ",\"const\":" << (g.isConstant() ? 1 : 0) << ",\"internal\":" << (g.hasLocalLinkage() ? 1 : 0) << ",\"decl\":" << (g.isDeclaration() ? 1 : 0);
        SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
        if (!gv.empty()) O << ",\"file\":" << esc(pathOf(gv[0]->getVariable()->getFile())) << ",\"line\":" << gv[0]->getVariable()->getLine() << ",\"name\":" << esc(gv[0]->getVariable()->getName());
        if (g.hasInitializer()) {
            if (auto *cd = dyn_cast<ConstantDataArray>(g.getInitializer()); cd && cd->isString()) {
                O << ",\"str\":" << esc(cd->getAsString());
            }
            O << ",\"init\":["; bool ff = true;
            if (!(isa<ConstantDataArray>(g.getInitializer()) && cast<ConstantDataArray>(g.getInitializer())->isString())) flat(g.getInitializer(), 0, ff);
            O << "]";
        }
        O << "}";
    }
    O << "},\n\"structs\":[";
    DebugInfoFinder F; F.processModule(*M);
    bool fs = true; std::set<std::string> seenS;
    for (auto *t : F.types()) {
        auto *ct = dyn_cast<DICompositeType>(t);
        std::string nm;
        if (auto *dt = dyn_cast<DIDerivedType>(t)) {
            if (dt->getTag() == dwarf::DW_TAG_typedef) { ct = dyn_cast_or_null<DICompositeType>(dt->getBaseType()); nm = dt->getName().str(); }
        }
        if (!ct) continue;
        if (nm.empty()) nm = ct->getName().str();
        if (nm.empty() || !seenS.insert(nm).second) continue;
        if (ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_enumeration_type && ct->getTag() != dwarf::DW_TAG_union_type) continue;
        if (ct->isForwardDecl()) { seenS.erase(nm); continue; }
        if (!fs) O << ",\n"; fs = false;
        O << "{\"name\":" << esc(nm) << ",\"size\":" << ct->getSizeInBits() / 8 << ",\"tag\":" << ct->getTag() << ",\"members\":[";
        bool fm = true;
        for (auto *e : ct->getElements()) {
            if (auto *m = dyn_cast<DIDerivedType>(e)) {
                if (!fm) O << ","; fm = false;
                std::string tn; DIType *b = m->getBaseType(); 
                uint64_t cnt = 0;
                if (b) { tn = b->getName().str(); if (auto *a = dyn_cast<DICompositeType>(b)) if (a->getTag() == dwarf::DW_TAG_array_type) { tn = "array"; uint64_t es = a->getBaseType() ? a->getBaseType()->getSizeInBits() : 0; if (es) cnt = a->getSizeInBits() / es; } 
                    if (auto *d = dyn_cast<DIDerivedType>(b)) if (d->getTag() == dwarf::DW_TAG_pointer_type) tn = "ptr"; }
                O << "[" << esc(m->getName()) << "," << m->getOffsetInBits() / 8 << "," << m->getSizeInBits() / 8 << "," << esc(tn) << "," << cnt << "]";
            } else if (auto *en = dyn_cast<DIEnumerator>(e)) {
                if (!fm) O << ","; fm = false;
                O << "[" << esc(en->getName()) << "," << en->getValue().getSExtValue() << "]";
            }
        }
        O << "]}";
    }
    O << "],\n\"functions\":{";
    bool ff = true;
    for (auto &fn : *M) {
        if (!ff) O << ",\n"; ff = false;
        O << esc(fn.getName()) << ":{\"ret\":" << esc(tyname(fn.getReturnType())) << ",\"vararg\":" << fn.isVarArg() << ",\"internal\":" << fn.hasLocalLinkage()
          << ",\"noreturn\":" << fn.hasFnAttribute(Attribute::NoReturn) << ",\"decl\":" << fn.isDeclaration() << ",\"args\":[";
        for (auto &a : fn.args()) {
            if (a.getArgNo()) O << ",";
            Type *pt = a.hasByValAttr() ? a.getParamByValType() : a.hasStructRetAttr() ? a.getParamStructRetType() : nullptr;
            O << "[" << esc(a.getName()) << "," << esc(tyname(a.getType())) << ",\"" << (a.hasByValAttr() ? "byval" : a.hasStructRetAttr() ? "sret" : "") << "\"," << (pt ? tysize(pt) : 0) << "]";
        }
        O << "]";
        if (auto *sp = fn.getSubprogram()) O << ",\"file\":" << esc(pathOf(sp->getFile())) << ",\"line\":" << sp->getLine();
        if (!fn.isDeclaration()) {
            ids.clear(); int n = 0;
            std::map<const Value *, std::string> names;
            std::map<const BasicBlock *, int> bbs; int bn = 0;
            for (auto &bb : fn) { bbs[&bb] = bn++; for (auto &i : bb) {
                if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
                    for (auto *loc : dv->location_ops()) if (loc && !isa<Constant>(loc)) names.emplace(loc, dv->getVariable()->getName().str());
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&i)) continue;
                ids[&i] = n++; } }
            O << ",\"blocks\":[";
            bool fb = true;
            for (auto &bb : fn) {
                if (!fb) O << ",\n"; fb = false;
                O << "["; bool fi = true;
                for (auto &i : bb) {
                    if (isa<DbgInfoIntrinsic>(&i)) continue;
                    if (!fi) O << ",\n"; fi = false;
                    O << "{\"id\":" << ids[&i] << ",\"op\":\"" << i.getOpcodeName() << "\",\"ty\":" << esc(tyname(i.getType())) << ",\"sz\":" << tysize(i.getType());
                    if (auto &dl = i.getDebugLoc()) O << ",\"ln\":" << dl.getLine();
                    auto nm = names.find(&i); if (nm != names.end()) O << ",\"nm\":" << esc(nm->second);
                    if (auto *ai = dyn_cast<AllocaInst>(&i)) {
                        O << ",\"asz\":" << (uint64_t)DL->getTypeAllocSize(ai->getAllocatedType()) << ",\"aty\":" << esc(tyname(ai->getAllocatedType())) << ",\"n\":"; emitOperand(ai->getArraySize());
                    } else if (auto *li = dyn_cast<LoadInst>(&i)) {
                        O << ",\"p\":"; emitOperand(li->getPointerOperand());
                    } else if (auto *si = dyn_cast<StoreInst>(&i)) {
                        O << ",\"v\":"; emitOperand(si->getValueOperand()); O << ",\"vty\":" << esc(tyname(si->getValueOperand()->getType())) << ",\"vsz\":" << tysize(si->getValueOperand()->getType()) << ",\"p\":"; emitOperand(si->getPointerOperand());
                    } else if (auto *gep = dyn_cast<GetElementPtrInst>(&i)) {
                        MapVector<Value *, APInt> vo; APInt co(64, 0);
                        bool ok = cast<GEPOperator>(gep)->collectOffset(*DL, 64, vo, co);
                        O << ",\"p\":"; emitOperand(gep->getPointerOperand()); O << ",\"off\":" << co.getSExtValue() << ",\"ok\":" << ok << ",\"idx\":[";
                        bool f3 = true; for (auto &kv : vo) { if (!f3) O << ","; f3 = false; O << "["; emitOperand(kv.first); O << "," << kv.second.getSExtValue() << "," << kv.first->getType()->getIntegerBitWidth() << "]"; }
                        O << "]";
                    } else if (auto *ph = dyn_cast<PHINode>(&i)) {
                        O << ",\"in\":[";
                        for (unsigned k = 0; k < ph->getNumIncomingValues(); k++) { if (k) O << ","; O << "["; emitOperand(ph->getIncomingValue(k)); O << "," << bbs[ph->getIncomingBlock(k)] << "]"; }
                        O << "]";
                    } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                        if (br->isConditional()) { O << ",\"c\":"; emitOperand(br->getCondition()); O << ",\"s\":[" << bbs[br->getSuccessor(0)] << "," << bbs[br->getSuccessor(1)] << "]"; }
                        else O << ",\"s\":[" << bbs[br->getSuccessor(0)] << "]";
                    } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                        O << ",\"c\":"; emitOperand(sw->getCondition()); O << ",\"d\":" << bbs[sw->getDefaultDest()] << ",\"cases\":[";
                        bool f4 = true; for (auto &cs : sw->cases()) { if (!f4) O << ","; f4 = false; SmallString<40> s; cs.getCaseValue()->getValue().toString(s, 10, false); O << "[" << s << "," << bbs[cs.getCaseSuccessor()] << "]"; }
                        O << "],\"w\":" << sw->getCondition()->getType()->getIntegerBitWidth();
                    } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                        O << ",\"f\":"; emitOperand(cb->getCalledOperand()); O << ",\"args\":[";
                        for (unsigned k = 0; k < cb->arg_size(); k++) { if (k) O << ","; emitOperand(cb->getArgOperand(k)); }
                        O << "],\"at\":[";
                        for (unsigned k = 0; k < cb->arg_size(); k++) {
                            if (k) O << ",";
                            std::string kd = cb->isByValArgument(k) ? "byval" : cb->paramHasAttr(k, Attribute::StructRet) ? "sret" : "";
                            Type *pt = cb->isByValArgument(k) ? cb->getParamByValType(k) : cb->paramHasAttr(k, Attribute::StructRet) ? cb->getParamStructRetType(k) : nullptr;
                            O << "[" << esc(tyname(cb->getArgOperand(k)->getType())) << ",\"" << kd << "\"," << (pt ? tysize(pt) : 0) << "]"; }
                        O << "],\"nr\":" << cb->doesNotReturn();
                    } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                        O << ",\"o\":["; emitOperand(ev->getAggregateOperand()); O << "],\"ix\":[";
                        for (unsigned k = 0; k < ev->getNumIndices(); k++) { if (k) O << ","; O << ev->getIndices()[k]; } O << "]";
                    } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
                        O << ",\"o\":["; emitOperand(iv->getAggregateOperand()); O << ","; emitOperand(iv->getInsertedValueOperand()); O << "],\"ix\":[";
                        for (unsigned k = 0; k < iv->getNumIndices(); k++) { if (k) O << ","; O << iv->getIndices()[k]; } O << "]";
                    } else {
                        if (auto *cmp = dyn_cast<CmpInst>(&i)) O << ",\"pr\":\"" << CmpInst::getPredicateName(cmp->getPredicate()) << "\"";
                        if (i.getNumOperands()) O << ",\"oty\":" << esc(tyname(i.getOperand(0)->getType()));
                        O << ",\"o\":["; for (unsigned k = 0; k < i.getNumOperands(); k++) { if (k) O << ","; emitOperand(i.getOperand(k)); } O << "]";
                    }
                    O << "}";
                }
                O << "]";
            }
            O << "]";
            O << ",\"argnames\":[";
            for (auto &a : fn.args()) { if (a.getArgNo()) O << ","; auto nm = names.find(&a); O << esc(nm != names.end() ? nm->second : a.getName().str()); }
            O << "]";
        }
        O << "}";
    }
    O << "}}\n";
    return 0;
}
