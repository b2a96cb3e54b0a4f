// grx - resolved-program exporter.
//   grx ANCHORS OUT.json FILE.bc...
// Links the modules, inlines every defined function that is not an anchor into its callers, promotes memory to
// registers and writes the result (control flow, instructions, types, debug locations, initialisers) as JSON.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Constants.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/ReplaceConstant.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/ADT/StringSet.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static const DataLayout* DL;
static std::map<const Value*, int> ids;
static std::string structName(const StructType* st);
static json::Value typeJson(Type* t)
{
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "ptr";
    if (t->isVoidTy()) return "void";
    if (t->isFloatTy()) return "float";
    if (t->isDoubleTy()) return "double";
    if (auto* s = dyn_cast<StructType>(t)) return structName(s);
    if (auto* a = dyn_cast<ArrayType>(t)) {
        std::string r; raw_string_ostream o(r); t->print(o); (void)a; return o.str();
    }
    std::string r; raw_string_ostream o(r); t->print(o); return o.str();
}
static json::Value operand(const Value* v);

// The linker unifies structure types of the same shape and the optimizer does not distinguish the address of an object from
// the address of its first member. Before linking, every member access therefore becomes a call of a marker function that is
// named after the structure, the index of the member and its offset.
static std::string baseName(StringRef n)
{
    // strip the ".123" suffix that clashing names get
    size_t p = n.rfind('.');
    if (p != StringRef::npos && p + 1 < n.size() && n.substr(p + 1).find_first_not_of("0123456789") == StringRef::npos)
        return n.substr(0, p).str();
    return n.str();
}

static std::string structName(const StructType* st)
{
    if (!st->hasName()) return "anon";
    StringRef n = st->getName();
    if (n.starts_with("struct.anon") || n.starts_with("union.anon")) return n.str();
    return baseName(n);
}

static const char* MARK = "grx.f|";

static void markMembers(Module& m)
{
    std::vector<Constant*> gs;
    for (auto& g : m.globals())
        for (auto* u : g.users()) if (auto* ce = dyn_cast<ConstantExpr>(u)) if (ce->getOpcode() == Instruction::GetElementPtr) gs.push_back(ce);
    if (!gs.empty()) convertUsersOfConstantsToInstructions(gs);
    auto* p = PointerType::getUnqual(m.getContext());
    auto get = [&](StructType* st, uint64_t idx) {
        std::string k = MARK + structName(st) + "|" + std::to_string(idx) + "|" +
            std::to_string(m.getDataLayout().getStructLayout(st)->getElementOffset(idx));
        Function* f = m.getFunction(k);
        if (!f) {
            f = Function::Create(FunctionType::get(p, {p}, false), GlobalValue::ExternalLinkage, k, m);
            f->setDoesNotAccessMemory(); f->setDoesNotThrow(); f->setWillReturn(); f->addFnAttr(Attribute::NoFree); f->addFnAttr(Attribute::NoSync);
        }
        return f;
    };
    for (auto& f : m) {
        std::vector<GetElementPtrInst*> todo;
        for (auto& bb : f) for (auto& i : bb) {
            if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                bool field = false;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) if (it.getStructTypeOrNull()) field = true;
                if (field) todo.push_back(g);
            }
            if (auto* a = dyn_cast<AllocaInst>(&i))
                if (auto* st = dyn_cast<StructType>(a->getAllocatedType()))
                    a->setMetadata("grx.ty", MDNode::get(m.getContext(), MDString::get(m.getContext(), structName(st))));
        }
        for (auto* g : todo) {
            Value* v = g->getPointerOperand();
            for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                Value* idx = it.getOperand();
                Instruction* n;
                if (StructType* st = it.getStructTypeOrNull())
                    n = CallInst::Create(get(st, cast<ConstantInt>(idx)->getZExtValue()), {v}, "", g);
                else {
                    if (auto* c = dyn_cast<ConstantInt>(idx)) if (c->isZero()) continue;
                    n = GetElementPtrInst::Create(it.getIndexedType(), v, {idx}, "", g);
                }
                n->setDebugLoc(g->getDebugLoc());
                v = n;
            }
            g->replaceAllUsesWith(v);
            g->eraseFromParent();
        }
    }
}

static json::Value markJson(const CallBase* c)
{
    SmallVector<StringRef, 4> part;
    c->getCalledFunction()->getName().split(part, '|');
    int64_t idx = std::stoll(part[2].str()), off = std::stoll(part[3].str());
    return json::Array{"gep", operand(c->getArgOperand(0)), json::Array{json::Array{"f", part[1].str(), idx, off}}, off};
}

static json::Value gepJson(const GEPOperator* g)
{
    json::Array path;
    const Value* base = g->getPointerOperand();
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value* idx = it.getOperand();
        if (StructType* st = it.getStructTypeOrNull()) {
            unsigned f = cast<ConstantInt>(idx)->getZExtValue();
            path.push_back(json::Array{"f", structName(st), (int64_t)f,
                (int64_t)DL->getStructLayout(st)->getElementOffset(f)});
        } else {
            path.push_back(json::Array{"x", operand(idx), (int64_t)DL->getTypeAllocSize(it.getIndexedType()),
                typeJson(it.getIndexedType())});
        }
    }
    APInt off(64, 0);
    json::Value o = nullptr;
    if (g->accumulateConstantOffset(*DL, off)) o = off.getSExtValue();
    return json::Array{"gep", operand(base), std::move(path), std::move(o)};
}

static json::Value operand(const Value* v)
{
    if (auto* c = dyn_cast<ConstantInt>(v)) {
        if (c->getBitWidth() > 64) return json::Array{"u"};
        return json::Array{"c", c->getSExtValue(), (int64_t)c->getBitWidth()};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (auto* c = dyn_cast<ConstantFP>(v)) {
        std::string r; raw_string_ostream o(r); c->print(o); return json::Array{"k", o.str()};
    }
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (auto* f = dyn_cast<Function>(v)) return json::Array{"g", f->getName().str(), 1};
    if (auto* g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str(), 0};
    if (auto* a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t)a->getArgNo()};
    if (isa<Instruction>(v)) return json::Array{"i", ids[v]};
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) return gepJson(g);
        if (ce->isCast()) return operand(ce->getOperand(0));
    }
    if (isa<MetadataAsValue>(v)) return json::Array{"m"};
    if (auto* c = dyn_cast<Constant>(v)) {
        if (c->isNullValue()) return json::Array{"c", 0, 0};
    }
    return json::Array{"u"};
}

static json::Value initJson(const Constant* c)
{
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        json::Array a;
        for (auto& o : cs->operands()) a.push_back(initJson(cast<Constant>(o)));
        return json::Array{"S", typeJson(cs->getType()), std::move(a)};
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        json::Array a;
        for (auto& o : ca->operands()) a.push_back(initJson(cast<Constant>(o)));
        return json::Array{"A", std::move(a)};
    }
    if (auto* cd = dyn_cast<ConstantDataArray>(c)) {
        if (cd->isString()) return json::Array{"s", json::fixUTF8(cd->getAsString())};
        json::Array a;
        if (cd->getElementType()->isIntegerTy())
            for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back((int64_t)cd->getElementAsInteger(i));
        return json::Array{"D", std::move(a)};
    }
    if (c->isNullValue()) return json::Array{"Z"};
    return operand(c);
}

static json::Value locJson(const DebugLoc& d)
{
    if (!d) return nullptr;
    json::Array chain;
    const DILocation* l = d.get();
    while (l) {
        chain.push_back(json::Array{l->getFilename().str(), (int64_t)l->getLine(),
            l->getScope() && l->getScope()->getSubprogram() ? l->getScope()->getSubprogram()->getName().str() : std::string()});
        l = l->getInlinedAt();
    }
    return chain;
}

// what has to be recorded before the types are unified
static void collect(Module& m, json::Object& structs, json::Object& globals)
{
    DL = &m.getDataLayout();
    // names of fields, from the debug information
    std::map<std::string, const DICompositeType*> comps;
    DebugInfoFinder finder; finder.processModule(m);
    for (auto* t : finder.types())
        if (auto* c = dyn_cast<DICompositeType>(t))
            if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) && !c->getName().empty() && c->getElements().size())
                comps[c->getName().str()] = c;

    std::vector<StructType*> sts = m.getIdentifiedStructTypes();
    for (auto* st : sts) {
        if (st->isOpaque()) continue;
        std::string n = structName(st);
        json::Object so;
        so["size"] = (int64_t)DL->getTypeAllocSize(st).getFixedValue();
        json::Array fl;
        for (unsigned i = 0; i < st->getNumElements(); i++)
            fl.push_back(json::Array{(int64_t)DL->getStructLayout(st)->getElementOffset(i),
                (int64_t)DL->getTypeAllocSize(st->getElementType(i)).getFixedValue(), typeJson(st->getElementType(i))});
        so["fields"] = std::move(fl);
        std::string bn = n;
        if (bn.rfind("struct.", 0) == 0) bn = bn.substr(7); else if (bn.rfind("union.", 0) == 0) bn = bn.substr(6);
        bn = baseName(bn);
        if (comps.count(bn)) {
            json::Array ms;
            for (auto* e : comps[bn]->getElements())
                if (auto* d = dyn_cast<DIDerivedType>(e)) {
                    std::string tn; uint64_t tsz = 0; unsigned tag = 0, enc = 0;
                    const DIType* bt = d->getBaseType();
                    while (bt && isa<DIDerivedType>(bt) && (bt->getTag() == dwarf::DW_TAG_typedef || bt->getTag() == dwarf::DW_TAG_const_type || bt->getTag() == dwarf::DW_TAG_volatile_type))
                        bt = cast<DIDerivedType>(bt)->getBaseType();
                    if (bt) { tn = bt->getName().str(); tsz = bt->getSizeInBits(); tag = bt->getTag();
                        if (auto* b = dyn_cast<DIBasicType>(bt)) enc = b->getEncoding(); }
                    ms.push_back(json::Array{d->getName().str(), (int64_t)d->getOffsetInBits(), (int64_t)d->getSizeInBits(),
                        d->isBitField() ? 1 : 0, tn, (int64_t)tsz, (int64_t)tag, (int64_t)enc});
                }
            so["members"] = std::move(ms);
        }
        if (so.get("members") || !structs.get(n)) structs[n] = std::move(so);
    }
    for (auto& g : m.globals()) {
        json::Object go;
        go["const"] = g.isConstant();
        go["ty"] = typeJson(g.getValueType());
        if (g.hasInitializer()) go["init"] = initJson(g.getInitializer());
        if (g.hasInitializer() || !globals.get(g.getName())) globals[g.getName().str()] = std::move(go);
    }
}

// the structure a pointer designates, as far as the instruction that computes it tells
static StructType* pointee(Value* v)
{
    if (auto* g = dyn_cast<GEPOperator>(v)) return dyn_cast<StructType>(g->getResultElementType());
    if (auto* a = dyn_cast<AllocaInst>(v)) return dyn_cast<StructType>(a->getAllocatedType());
    return nullptr;
}

// assignments of whole structures become assignments of their members
static void expandCopies(Function& f)
{
    std::vector<MemCpyInst*> all;
    for (auto& b : f) for (auto& i : b) if (auto* c = dyn_cast<MemCpyInst>(&i)) all.push_back(c);
    for (auto* c : all) {
        auto* n = dyn_cast<ConstantInt>(c->getLength());
        if (!n || c->isVolatile()) continue;
        StructType* t = nullptr;
        for (Value* v : {c->getRawDest(), c->getRawSource()}) {
            auto* s = pointee(v);
            if (s && s->isSized() && s->getNumElements() > 1 && DL->getTypeAllocSize(s) == n->getZExtValue()) { t = s; break; }
        }
        if (!t) continue;
        uint64_t sum = 0;
        bool flat = true;
        for (auto* e : t->elements()) {
            flat = flat && (e->isIntegerTy() || e->isPointerTy());
            if (flat) sum += DL->getTypeStoreSize(e);
        }
        // padding is not copied, which no program may rely on
        if (!flat || t->isPacked() || sum > n->getZExtValue()) continue;
        IRBuilder<> ib(c);
        std::vector<Value*> vals;
        for (unsigned k = 0; k < t->getNumElements(); k++)
            vals.push_back(ib.CreateLoad(t->getElementType(k), ib.CreateStructGEP(t, c->getRawSource(), k)));
        for (unsigned k = 0; k < t->getNumElements(); k++)
            ib.CreateStore(vals[k], ib.CreateStructGEP(t, c->getRawDest(), k));
        c->eraseFromParent();
    }
}

int main(int argc, char** argv)
{
    if (argc < 4) { errs() << "usage: grx ANCHORS OUT FILE...\n"; return 2; }
    StringSet<> anchors;
    { std::ifstream in(argv[1]); std::string s; while (std::getline(in, s)) if (!s.empty()) anchors.insert(s); }

    LLVMContext ctx;
    std::unique_ptr<Module> mod;
    json::Object structs, globals;
    int serial = 1000;
    for (int i = 3; i < argc; i++) {
        SMDiagnostic err;
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print(argv[0], errs()); return 2; }
        // internal symbols get names that are unique over all units, so that linking does not rename them
        for (auto& f : m->functions()) if (f.hasLocalLinkage()) f.setName(baseName(f.getName()) + "." + std::to_string(++serial));
        for (auto& g : m->globals()) if (g.hasLocalLinkage()) g.setName(g.getName().str() + "." + std::to_string(++serial));
        collect(*m, structs, globals);
        DL = &m->getDataLayout();
        for (auto& f : *m) expandCopies(f);
        markMembers(*m);
        if (!mod) mod = std::move(m);
        else if (Linker::linkModules(*mod, std::move(m))) { errs() << "link failed\n"; return 2; }
    }
    DL = &mod->getDataLayout();

    for (auto& f : *mod) {
        if (f.isDeclaration()) continue;
        f.removeFnAttr(Attribute::OptimizeNone);
        f.removeFnAttr(Attribute::NoInline);
        f.removeFnAttr(Attribute::AlwaysInline);
        if (anchors.count(baseName(f.getName())) || f.isVarArg()) f.addFnAttr(Attribute::NoInline);
        else { f.addFnAttr(Attribute::AlwaysInline); }
    }
    // keep every function: the inlined ones may still be the target of a pointer
    std::vector<GlobalValue*> keep;
    {
        PassBuilder pb;
        LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
        pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        ModulePassManager mpm;
        if (auto e = pb.parsePassPipeline(mpm, "function(sroa),always-inline,function(sroa),function(adce)")) {
            errs() << toString(std::move(e)) << "\n"; return 2;
        }
        mpm.run(*mod, mam);
    }

    json::Object root;
    root["structs"] = std::move(structs);

    root["globals"] = std::move(globals);

    json::Object fns;
    for (auto& f : *mod) {
        if (f.getName().starts_with(MARK)) continue;
        json::Object fo;
        fo["base"] = baseName(f.getName());
        fo["decl"] = f.isDeclaration();
        fo["internal"] = f.hasLocalLinkage();
        fo["ret"] = typeJson(f.getReturnType());
        bool taken = false;
        for (auto& u : f.uses()) { auto* cb = dyn_cast<CallBase>(u.getUser()); if (!cb || !cb->isCallee(&u)) taken = true; }
        fo["taken"] = taken;
        json::Array at; for (auto& a : f.args()) at.push_back(typeJson(a.getType()));
        fo["args"] = std::move(at);
        if (!f.isDeclaration()) {
            if (auto* sp = f.getSubprogram()) {
                fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t)sp->getLine();
            }
            json::Array names;
            std::map<unsigned, std::string> an;
            if (auto* sp = f.getSubprogram())
                for (auto* n : sp->getRetainedNodes())
                    if (auto* lv = dyn_cast<DILocalVariable>(n)) if (lv->getArg()) an[lv->getArg()] = lv->getName().str();
            for (unsigned i = 0; i < f.arg_size(); i++) names.push_back(an.count(i + 1) ? an[i + 1] : "arg" + std::to_string(i));
            fo["argnames"] = std::move(names);
            ids.clear();
            std::map<const BasicBlock*, int> bid;
            int n = 0, b = 0;
            for (auto& bb : f) { bid[&bb] = b++; for (auto& i : bb) ids[&i] = n++; }
            json::Array blocks;
            for (auto& bb : f) {
                json::Array ins;
                for (auto& i : bb) {
                    if (isa<DbgInfoIntrinsic>(i)) continue;
                    if (auto* ii = dyn_cast<IntrinsicInst>(&i))
                        if (ii->getIntrinsicID() == Intrinsic::lifetime_start || ii->getIntrinsicID() == Intrinsic::lifetime_end) continue;
                    json::Object o;
                    o["i"] = ids[&i];
                    o["op"] = i.getOpcodeName();
                    if (i.isVolatile() || i.isAtomic()) o["volatile"] = true;
                    o["ty"] = typeJson(i.getType());
                    if (i.getDebugLoc()) o["loc"] = locJson(i.getDebugLoc());
                    if (auto* p = dyn_cast<PHINode>(&i)) {
                        json::Array in;
                        for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
                            in.push_back(json::Array{bid[p->getIncomingBlock(k)], operand(p->getIncomingValue(k))});
                        o["in"] = std::move(in);
                    } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                        o["gep"] = gepJson(cast<GEPOperator>(g));
                    } else if (auto* c = dyn_cast<CallBase>(&i); c && c->getCalledFunction() && c->getCalledFunction()->getName().starts_with(MARK)) {
                        o["op"] = "getelementptr";
                        o["gep"] = markJson(c);
                    } else if (auto* c = dyn_cast<CallBase>(&i)) {
                        json::Array a; for (auto& x : c->args()) a.push_back(operand(x.get()));
                        o["args"] = std::move(a);
                        o["callee"] = operand(c->getCalledOperand());
                    } else {
                        json::Array a;
                        if (auto* br = dyn_cast<BranchInst>(&i)) {
                            if (br->isConditional()) a.push_back(operand(br->getCondition()));
                            json::Array s; for (unsigned k = 0; k < br->getNumSuccessors(); k++) s.push_back(bid[br->getSuccessor(k)]);
                            o["succ"] = std::move(s);
                        } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                            a.push_back(operand(sw->getCondition()));
                            json::Array s; for (auto& x : sw->cases()) s.push_back(json::Array{x.getCaseValue()->getSExtValue(), bid[x.getCaseSuccessor()]});
                            o["cases"] = std::move(s);
                            o["default"] = bid[sw->getDefaultDest()];
                        } else for (auto& x : i.operands()) a.push_back(operand(x.get()));
                        o["ops"] = std::move(a);
                        if (auto* ic = dyn_cast<ICmpInst>(&i)) { o["pred"] = ICmpInst::getPredicateName(ic->getPredicate()).str(); o["cty"] = typeJson(ic->getOperand(0)->getType()); }
                        if (auto* al = dyn_cast<AllocaInst>(&i)) { o["aty"] = typeJson(al->getAllocatedType());
                            if (auto* md = al->getMetadata("grx.ty")) o["aty"] = cast<MDString>(md->getOperand(0))->getString().str(); o["asz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(); }
                        if (auto* st = dyn_cast<StoreInst>(&i)) o["vty"] = typeJson(st->getValueOperand()->getType());
                        if (isa<CastInst>(i)) o["sty"] = typeJson(i.getOperand(0)->getType());
                    }
                    ins.push_back(std::move(o));
                }
                blocks.push_back(std::move(ins));
            }
            fo["blocks"] = std::move(blocks);
        }
        fns[f.getName().str()] = std::move(fo);
    }
    root["functions"] = std::move(fns);
    std::error_code ec;
    raw_fd_ostream os(argv[2], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    os << json::Value(std::move(root)) << "\n";
    return 0;
}
