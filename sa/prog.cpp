#include "prog.h"
#include "llvm/Transforms/Scalar/GVN.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Analysis/TypeMetadataUtils.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/DeadStoreElimination.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Transforms/Scalar/LoopRotation.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"

bool startsWith(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
bool endsWith(const std::string& s, const char* p)
{
    size_t n = strlen(p);
    return s.size() >= n && s.compare(s.size() - n, n, p) == 0;
}
bool contains(const std::string& s, const char* p) { return s.find(p) != std::string::npos; }

bool Program::load(const std::string& path)
{
    SMDiagnostic err;
    mod = parseIRFile(path, err, ctx);
    if (!mod) {
        err.print("sa", errs());
        return false;
    }
    return true;
}

// "ret ns::Class<..>::f<..>(args) const" -> "ns::Class<..>::f<..>"
std::string demangleNoParams(const std::string& full)
{
    // find the parameter list: the last top level '(' ... ')' group, followed only by cv/ref/[abi]
    std::string s = full;
    int depth = 0;
    size_t open = std::string::npos;
    for (size_t i = s.size(); i-- > 0;) {
        char c = s[i];
        if (c == ')') {
            depth++;
        } else if (c == '(') {
            depth--;
            if (depth == 0) {
                open = i;
                break;
            }
        }
    }
    if (open != std::string::npos && open > 0) {
        // operator() written as "operator()(..)": open points at the parameters, fine
        s = s.substr(0, open);
    }
    // drop a leading return type (template functions): text before the last top level space
    int a = 0;
    size_t cut = 0;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        if (c == '<' || c == '(' || c == '{') {
            if (c == '<' && i >= 8 && s.compare(i - 8, 8, "operator") == 0)
                continue;
            a++;
        } else if (c == '>' || c == ')' || c == '}') {
            if (c == '>' && i > 0 && (s[i - 1] == '-' || (i >= 8 && s.compare(i - 8, 8, "operator") == 0)))
                continue;
            a--;
        } else if (c == ' ' && a == 0) {
            if (i >= 8 && s.compare(i - 8, 8, "operator") == 0)
                continue;
            cut = i + 1;
        }
    }
    if (cut > 0 && cut < s.size()) {
        std::string t = s.substr(cut);
        if (!t.empty() && !contains(s, "operator new") && !contains(s, "operator delete") && !contains(s, "operator "))
            s = t;
    }
    return s;
}

const std::string& Program::fullName(const Function* f) const
{
    auto& s = mFull[f];
    if (s.empty())
        s = llvm::demangle(f->getName().str());
    return s;
}

std::string Program::name(const Function* f) const
{
    auto& s = mName[f];
    if (s.empty()) {
        s = demangleNoParams(fullName(f));
        for (size_t k; (k = s.find("[abi:cxx11]")) != std::string::npos;)
            s.erase(k, 11);
    }
    return s;
}

static bool pathIsProject(StringRef dir, StringRef fn)
{
    return !fn.empty() && !fn.starts_with("/usr/") && !fn.starts_with("<");
}

bool Program::isProject(const Function* f) const
{
    auto* sp = f->getSubprogram();
    if (!sp)
        return false;
    return pathIsProject(sp->getDirectory(), sp->getFilename());
}
bool Program::isStd(const Function* f) const { return !isProject(f); }

std::string Program::file(const Function* f)
{
    auto* sp = f->getSubprogram();
    return sp ? sp->getFilename().str() : std::string();
}

std::string Program::loc(const Instruction* i)
{
    if (auto& dlc = i->getDebugLoc()) {
        auto* s = dyn_cast_or_null<DIScope>(dlc.getScope());
        // climb out of inlined library code to the project line
        const DILocation* l = dlc.get();
        while (l && l->getFilename().starts_with("/usr/") && l->getInlinedAt())
            l = l->getInlinedAt();
        (void)s;
        return (l->getFilename() + ":" + Twine(l->getLine())).str();
    }
    // nearest instruction with a location
    for (auto* p = i->getPrevNode(); p; p = p->getPrevNode())
        if (p->getDebugLoc())
            return loc(p);
    return loc(i->getFunction());
}
std::string Program::loc(const Function* f)
{
    auto* sp = f->getSubprogram();
    if (!sp)
        return "?";
    return (sp->getFilename() + ":" + Twine(sp->getLine())).str();
}

static bool keepOutOfLine(const std::string& n)
{
    static const char* keep[] = {
        "std::vector<", "std::map<", "std::set<", "std::multimap<", "std::list<", "std::deque<", "std::unordered_map<",
        "std::unordered_set<", "std::__cxx11::list<", "std::__cxx11::basic_string<", "std::basic_string<",
        "std::basic_string_view<", "std::lock_guard<", "std::unique_lock<", "std::scoped_lock<", "std::shared_lock<",
        "std::function<", "std::thread::thread", "std::thread::join", "std::condition_variable", "std::mutex",
        "std::recursive_mutex", "std::shared_mutex", "std::queue<", "std::priority_queue<", "std::stack<", "std::_Rb_tree", "std::_Hashtable",
        "std::operator==<char", "std::__detail::", "std::_Deque", "std::_Vector_base", "std::__cxx11::_List", "std::array<", "std::sort", "std::find", "std::__",
        "std::uniform_int_distribution", "std::mersenne_twister", "std::linear_congruential", "std::random_device", "std::chrono::",
    };
    // exceptions to the generic prefixes: small accessors and casts that must disappear
    static const char* expose[] = { "std::__shared_ptr", "std::__uniq_ptr", "std::__addressof", "std::__get", "std::__invoke",
        "std::__shared_count", "std::__weak", "std::__optional", "std::__tuple", "std::__atomic", "std::__allocate_guarded", "std::__to_address", "std::__str_to" , "std::__exchange", "std::__ptr_rebind",
        "std::__detail::operator", "std::__detail::_Node_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Hash_node", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_node<", "std::__mutex", "std::__bit", "std::__niter"};
    // reference counting stays opaque, except the constructors that create the object (make_shared)
    static const char* counts[] = { "std::__shared_count<", "std::__weak_count<", "std::_Sp_counted_base<" };
    for (auto* c : counts)
        if (startsWith(n, c)) {
            auto p = n.rfind(">::");
            (void)p;
            return !contains(n, ">::__shared_count<");
        }
    for (auto* e : expose)
        if (startsWith(n, e))
            return false;
    for (auto* k : keep)
        if (startsWith(n, k))
            return true;
    return false;
}

static void runPasses(Module& m, std::function<void(ModulePassManager&)> fill)
{
    LoopAnalysisManager lam;
    FunctionAnalysisManager fam;
    CGSCCAnalysisManager cam;
    ModuleAnalysisManager mam;
    PassBuilder pb;
    pb.registerModuleAnalyses(mam);
    pb.registerCGSCCAnalyses(cam);
    pb.registerFunctionAnalyses(fam);
    pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm;
    fill(mpm);
    mpm.run(m, mam);
}

void Program::tagCalls()
{
    if (mTagged)
        return;
    auto tag = [&](const CallBase* cb, const std::vector<Function*>& t) {
        auto* md = MDNode::get(ctx, ConstantAsMetadata::get(ConstantInt::get(Type::getInt64Ty(ctx), mTagTargets.size())));
        mTagTargets.push_back(t);
        const_cast<CallBase*>(cb)->setMetadata("sa.site", md);
    };
    for (auto& [cb, t] : vcalls)
        tag(cb, t);
    for (auto& [cb, t] : mObjectTargets)
        tag(cb, t);
    mTagged = true;
}

Function* Program::specialise(const Function* f0, const SpecOpts& o)
{
    tagCalls();
    ValueToValueMapTy vm;
    Function* f = CloneFunction(const_cast<Function*>(f0), vm);
    mFull[f] = fullName(f0);
    f->removeFnAttr(Attribute::NoInline);
    f->removeFnAttr(Attribute::OptimizeNone);
    // recursion guard: a function is not inlined into code that came from itself
    std::map<const Function*, int> depth;
    std::function<bool(const Function*, const Function*, std::set<const Function*>&)> reaches = [&](const Function* from, const Function* to, std::set<const Function*>& seen) {
        if (!seen.insert(from).second)
            return false;
        for (auto& i : instructions(from))
            if (auto* cb = dyn_cast<CallBase>(&i))
                if (auto* t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()))
                    if (t == to || (!t->isDeclaration() && isProject(t) && reaches(t, to, seen)))
                        return true;
        return false;
    };
    std::set<CallBase*> refused;
    std::map<const Function*, bool> recursive;
    for (bool ch = true; ch;) {
        ch = false;
        std::vector<CallBase*> calls;
        unsigned n = 0;
        for (auto& i : instructions(*f)) {
            n++;
            if (auto* cb = dyn_cast<CallBase>(&i); cb && !isa<IntrinsicInst>(cb) && !refused.count(cb))
                calls.push_back(cb);
        }
        if (n > o.maxInstr)
            break;
        for (auto* cb : calls) {
            if (auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()))
                if (auto* af = dyn_cast<Function>(al->getAliasee()); af && af->getFunctionType() == cb->getFunctionType())
                    cb->setCalledFunction(af);
            auto* t = cb->getCalledFunction();
            if (!t || t->isDeclaration() || t == f0 || t == f || (o.keep && o.keep(t)) || t->isVarArg()) {
                refused.insert(cb);
                continue;
            }
            if (!isProject(t) && !startsWith(name(t), "std::__pair_get") && !startsWith(name(t), "std::get<") && !(o.inlineLib && o.inlineLib(t))) {
                refused.insert(cb);
                continue;
            }
            auto it = recursive.find(t);
            if (it == recursive.end()) {
                std::set<const Function*> seen;
                it = recursive.insert({ t, reaches(t, t, seen) }).first;
            }
            if (it->second) {
                refused.insert(cb);
                continue;
            }
            InlineFunctionInfo ifi;
            if (InlineFunction(*cb, ifi).isSuccess()) {
                ch = true;
            } else
                refused.insert(cb);
        }
    }
    for (auto& bb : *f)
        bb.getTerminator()->setMetadata(LLVMContext::MD_loop, nullptr); // unrolling is not the compiler's choice here
    if (o.arrayBounds) {
        std::vector<GetElementPtrInst*> geps;
        for (auto& i : instructions(*f))
            if (auto* g = dyn_cast<GetElementPtrInst>(&i); g && g->getSourceElementType()->isArrayTy() && g->getNumIndices() == 2 && !isa<Constant>(g->getOperand(2)))
                geps.push_back(g);
        for (auto* g : geps) {
            IRBuilder<> b(g);
            auto* idx = g->getOperand(2);
            b.CreateAssumption(b.CreateICmpULT(idx, ConstantInt::get(idx->getType(), g->getSourceElementType()->getArrayNumElements())));
        }
    }
    if (o.before)
        o.before(*f);
    describe(*f);
    auto run = [&](std::function<void(FunctionPassManager&)> fill) {
        LoopAnalysisManager lam;
        FunctionAnalysisManager fam;
        CGSCCAnalysisManager cam;
        ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam);
        pb.registerCGSCCAnalyses(cam);
        pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cam, mam);
        FunctionPassManager fpm;
        fill(fpm);
        fpm.run(*f, fam);
    };
    SimplifyCFGOptions so;
    so.bonusInstThreshold(0).hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchToLookupTable(false).convertSwitchRangeToICmp(false).forwardSwitchCondToPhi(false).setSimplifyCondBranch(true);
    auto passes = [&] {
        run([&](FunctionPassManager& m) {
            m.addPass(SROAPass(SROAOptions::PreserveCFG));
            m.addPass(EarlyCSEPass(true));
            m.addPass(SCCPPass());
            m.addPass(SimplifyCFGPass(so));
            if (o.gvn)
                m.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false)));
            m.addPass(SCCPPass());
            m.addPass(SimplifyCFGPass(so));
            if (o.unroll) {
                m.addPass(InstCombinePass());
                m.addPass(LoopSimplifyPass());
                m.addPass(createFunctionToLoopPassAdaptor(LoopRotatePass()));
                m.addPass(LoopUnrollPass(LoopUnrollOptions(3).setFullUnrollMaxCount(64).setPartial(false).setRuntime(false).setUpperBound(false).setPeeling(false)));
                m.addPass(SROAPass(SROAOptions::PreserveCFG));
                m.addPass(EarlyCSEPass(true));
                m.addPass(InstCombinePass());
                m.addPass(GVNPass(GVNOptions().setPRE(false).setLoadPRE(false)));
                m.addPass(SCCPPass());
                m.addPass(SimplifyCFGPass(so));
                m.addPass(DSEPass());
            }
        });
    };
    if (!o.simplify)
        return f;
    passes();
    if (o.assume) {
        for (int round = 0; round < 2; round++) {
            std::vector<std::pair<Value*, int64_t>> repl;
            for (auto& a : f->args())
                if (a.getType()->isIntegerTy())
                    if (auto v = o.assume(&a))
                        repl.push_back({ &a, *v });
            for (auto& i : instructions(*f))
                if (i.getType()->isIntegerTy())
                    if (auto v = o.assume(&i))
                        repl.push_back({ &i, *v });
            if (repl.empty())
                break;
            mFieldCache.clear();
            for (auto& [v, c] : repl)
                v->replaceAllUsesWith(ConstantInt::get(v->getType(), c));
            passes();
        }
    }
    mFieldCache.clear();
    return f;
}

namespace
{
// a small predicate over integers: no memory, no calls
bool purePredicate(const Function& f)
{
    if (!f.getReturnType()->isIntegerTy(1) || f.arg_empty() || f.size() > 4 || !f.hasLocalLinkage())
        return false;
    for (auto& a : f.args())
        if (!a.getType()->isIntegerTy())
            return false;
    for (auto& i : instructions(f)) {
        if (isa<DbgInfoIntrinsic>(i) || isa<AllocaInst>(i) || isa<CastInst>(i) || isa<BinaryOperator>(i) || isa<CmpInst>(i) || isa<BranchInst>(i) || isa<PHINode>(i) || isa<SelectInst>(i) || isa<ReturnInst>(i))
            continue;
        if (auto* l = dyn_cast<LoadInst>(&i); l && isa<AllocaInst>(l->getPointerOperand()))
            continue;
        if (auto* s = dyn_cast<StoreInst>(&i); s && isa<AllocaInst>(s->getPointerOperand()))
            continue;
        if (auto* m = dyn_cast<IntrinsicInst>(&i); m && m->isLifetimeStartOrEnd())
            continue;
        return false;
    }
    return true;
}
} // namespace

void Program::prepareFlow()
{
    // 1. library accessors and casts disappear, containers stay as named calls
    for (auto& f : *mod) {
        if (f.isDeclaration())
            continue;
        f.removeFnAttr(Attribute::OptimizeNone);
        if (isProject(&f)) {
            if (purePredicate(f)) {
                if (getenv("SA_DEBUG_PURE"))
                    errs() << "predicate " << name(&f) << "\n";
                f.removeFnAttr(Attribute::NoInline);
                f.addFnAttr(Attribute::AlwaysInline);
                continue;
            }
            f.removeFnAttr(Attribute::AlwaysInline);
            f.addFnAttr(Attribute::NoInline);
            continue;
        }
        const auto n = name(&f);
        if (!keepOutOfLine(n)) {
            f.removeFnAttr(Attribute::NoInline);
            f.addFnAttr(Attribute::AlwaysInline);
        }
    }
    runPasses(*mod, [](ModulePassManager& mpm) {
        mpm.addPass(AlwaysInlinerPass(false));
        FunctionPassManager fpm;
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        fpm.addPass(EarlyCSEPass(false));
        SimplifyCFGOptions o;
        fpm.addPass(SimplifyCFGPass(o.bonusInstThreshold(0).hoistCommonInsts(false).sinkCommonInsts(false).convertSwitchToLookupTable(false).convertSwitchRangeToICmp(false).forwardSwitchCondToPhi(false).setSimplifyCondBranch(true)));
        mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
    });
}

std::string Program::typeName(const DIType* t)
{
    if (!t)
        return "void";
    std::string s = t->getName().str();
    const DIScope* sc = t->getScope();
    while (sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc)) {
        if (isa<DISubprogram>(sc))
            break;
        if (!sc->getName().empty())
            s = sc->getName().str() + "::" + s;
        sc = sc->getScope();
    }
    return s;
}

const DIType* Program::strip(const DIType* t)
{
    while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
        switch (d->getTag()) {
        case dwarf::DW_TAG_typedef:
        case dwarf::DW_TAG_const_type:
        case dwarf::DW_TAG_volatile_type:
        case dwarf::DW_TAG_restrict_type:
        case dwarf::DW_TAG_atomic_type:
            t = d->getBaseType();
            continue;
        default:
            return t;
        }
    }
    return t;
}

const DICompositeType* Program::composite(const std::string& q) const
{
    auto it = mTypes.find(q);
    return it == mTypes.end() ? nullptr : it->second;
}

static const DIType* pointedTo(const DIType* t)
{
    t = Program::strip(t);
    if (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
        switch (d->getTag()) {
        case dwarf::DW_TAG_pointer_type:
        case dwarf::DW_TAG_reference_type:
        case dwarf::DW_TAG_rvalue_reference_type:
            return Program::strip(d->getBaseType());
        default:
            break;
        }
    }
    return nullptr;
}

FieldRef Program::fieldIn(const DIType* t, uint64_t off) const
{
    FieldRef best;
    for (int guard = 0; guard < 16; guard++) {
        t = strip(t);
        auto* c = dyn_cast_or_null<DICompositeType>(t);
        if (!c)
            return best;
        if (c->isForwardDecl()) {
            if (auto* full = composite(typeName(c)))
                c = full;
        }
        if (c->getTag() == dwarf::DW_TAG_array_type) {
            // element
            auto* e = strip(c->getBaseType());
            uint64_t sz = e ? e->getSizeInBits() / 8 : 0;
            if (!sz)
                return best;
            off %= sz;
            t = e;
            continue;
        }
        const DIDerivedType* hit = nullptr;
        bool isBase = false;
        for (auto* el : c->getElements()) {
            auto* d = dyn_cast_or_null<DIDerivedType>(el);
            if (!d)
                continue;
            if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance)
                continue;
            if (d->isStaticMember())
                continue;
            uint64_t o = d->getOffsetInBits() / 8;
            const DIType* bt = strip(d->getBaseType());
            uint64_t sz = bt ? bt->getSizeInBits() / 8 : 0;
            if (auto* bc = dyn_cast_or_null<DICompositeType>(bt))
                if (bc->isForwardDecl())
                    if (auto* full = composite(typeName(bc)))
                        sz = full->getSizeInBits() / 8;
            if (o <= off && off < o + std::max<uint64_t>(sz, 1)) {
                hit = d;
                isBase = d->getTag() == dwarf::DW_TAG_inheritance;
                if (!isBase)
                    break;
            }
        }
        if (!hit)
            return best;
        off -= hit->getOffsetInBits() / 8;
        if (isBase) {
            t = hit->getBaseType();
            continue;
        }
        auto cn = typeName(c);
        bool proj = pathIsProject(c->getDirectory(), c->getFilename()) || cn.empty() || c->getName().empty();
        if (!best || proj) {
            if (best && best.outer.empty())
                best.outer = best.name;
            best.cls = cn;
            best.name = hit->getName().str();
            best.type = hit->getBaseType();
            best.rest = off;
        }
        // descend only into project structs
        auto* ft = dyn_cast_or_null<DICompositeType>(strip(hit->getBaseType()));
        if (ft && ft->getTag() != dwarf::DW_TAG_enumeration_type && ft->getTag() != dwarf::DW_TAG_union_type) {
            t = ft;
            if (ft->getTag() == dwarf::DW_TAG_array_type)
                continue;
            if (pathIsProject(ft->getDirectory(), ft->getFilename()))
                continue;
        }
        return best;
    }
    return best;
}

static const DIType* memberTypeExact(const Program& p, const DIType* t, uint64_t off, int depth = 0);

FieldRef Program::field(const Value* ptr) const
{
    auto it = mFieldCache.find(ptr);
    if (it != mFieldCache.end())
        return it->second;
    if (mFieldDepth > 10)
        return {};
    mFieldDepth++;
    auto f = fieldUncached(ptr);
    mFieldDepth--;
    if (mFieldDepth == 0 || f)
        mFieldCache[ptr] = f;
    return f;
}

// name of an IR structure type as the debug information writes it: no uniquing suffix, no anonymous namespace
static std::string irTypeName(std::string cn)
{
    size_t d2 = cn.rfind('.');
    if (d2 != std::string::npos && d2 + 1 < cn.size() && cn.find_first_not_of("0123456789", d2 + 1) == std::string::npos)
        cn = cn.substr(0, d2);
    static const std::string anon = "(anonymous namespace)::";
    for (size_t k; (k = cn.find(anon)) != std::string::npos;)
        cn.erase(k, anon.size());
    return cn;
}

FieldRef Program::fieldUncached(const Value* ptr) const
{
    // accumulate constant offsets down to a base whose class is known
    const Value* v = ptr;
    uint64_t off = 0;
    FieldRef best;
    for (int i = 0; i < 12; i++) {
        if (auto* g = dyn_cast<GEPOperator>(v)) {
            APInt o(64, 0);
            Type* src = g->getSourceElementType();
            if (g->accumulateConstantOffset(dl(), o)) {
                off += o.getZExtValue();
            } else {
                // variable index: keep only the trailing struct part
                if (auto* st = dyn_cast<StructType>(src)) {
                    uint64_t so = 0;
                    Type* cur = st;
                    for (unsigned k = 2; k < g->getNumOperands(); k++) {
                        auto* ci = dyn_cast<ConstantInt>(g->getOperand(k));
                        if (auto* cs = dyn_cast<StructType>(cur)) {
                            unsigned idx = ci ? ci->getZExtValue() : 0;
                            so += dl().getStructLayout(cs)->getElementOffset(idx);
                            cur = cs->getElementType(idx);
                        } else if (auto* ca = dyn_cast<ArrayType>(cur)) {
                            cur = ca->getElementType();
                        }
                    }
                    off += so;
                    if (st->hasName()) {
                        StringRef sn = st->getName();
                        size_t dot = sn.find('.');
                        if (auto* c = composite(irTypeName(sn.substr(dot + 1).str()))) {
                            auto f = fieldIn(c, off);
                            if (f)
                                return f;
                        }
                    }
                    return {};
                }
                off = 0;
            }
            if (auto* st = dyn_cast<StructType>(src); st && st->hasName()) {
                StringRef sn = st->getName();
                size_t dot = sn.find('.');
                std::string cn = irTypeName(sn.substr(dot + 1).str());
                if (auto* c = composite(cn)) {
                    auto f = fieldIn(c, off);
                    if (f && (pathIsProject(c->getDirectory(), c->getFilename()) || !best))
                        best = f;
                }
            }
            v = g->getPointerOperand();
            continue;
        }
        break;
    }
    if (auto* t = pointee(v)) {
        auto f = fieldIn(t, off);
        if (f)
            return f;
    }
    return best;
}

static const DIType* memberTypeExact(const Program& p, const DIType* t, uint64_t off, int depth)
{
    t = Program::strip(t);
    if (!t || depth > 16)
        return nullptr;
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c)
        return off == 0 ? t : nullptr;
    if (c->isForwardDecl())
        if (auto* full = p.composite(Program::typeName(c)))
            c = full;
    if (c->getTag() == dwarf::DW_TAG_array_type) {
        auto* e = Program::strip(c->getBaseType());
        uint64_t sz = e ? e->getSizeInBits() / 8 : 0;
        return sz ? memberTypeExact(p, e, off % sz, depth + 1) : nullptr;
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type)
        return off == 0 ? t : nullptr;
    for (auto* el : c->getElements()) {
        auto* d = dyn_cast_or_null<DIDerivedType>(el);
        if (!d || d->isStaticMember())
            continue;
        if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance)
            continue;
        uint64_t o = d->getOffsetInBits() / 8;
        auto* bt = Program::strip(d->getBaseType());
        uint64_t sz = bt ? bt->getSizeInBits() / 8 : 0;
        if (auto* bc = dyn_cast_or_null<DICompositeType>(bt))
            if (bc->isForwardDecl())
                if (auto* full = p.composite(Program::typeName(bc)))
                    sz = full->getSizeInBits() / 8, bt = full;
        if (o <= off && off < o + sz) {
            if (auto* r = memberTypeExact(p, bt, off - o, depth + 1))
                return r;
        }
    }
    return nullptr;
}

// declared (leaf) type of a scalar value
const DIType* Program::typeOf(const Value* v, int depth) const
{
    if (depth > 12)
        return nullptr;
    if (auto* a = dyn_cast<Argument>(v)) {
        auto it = mArgTypes.find(a);
        return it == mArgTypes.end() ? nullptr : it->second;
    }
    if (auto* l = dyn_cast<LoadInst>(v)) {
        // leaf member type
        const Value* b = l->getPointerOperand();
        uint64_t off = 0;
        while (auto* g = dyn_cast<GEPOperator>(b)) {
            APInt o(64, 0);
            if (!g->accumulateConstantOffset(dl(), o)) {
                auto f = field(l->getPointerOperand());
                if (f && f.rest == 0)
                    return strip(f.type);
                return nullptr;
            }
            off += o.getZExtValue();
            b = g->getPointerOperand();
        }
        if (auto* t = pointee(b, depth + 1))
            if (auto* r = memberTypeExact(*this, t, off))
                return r;
        auto f = field(l->getPointerOperand());
        if (f && f.rest == 0)
            return strip(f.type);
        return nullptr;
    }
    if (auto* c = dyn_cast<CallBase>(v)) {
        if (auto* f = c->getCalledFunction())
            if (auto* sp = f->getSubprogram())
                if (auto* st = sp->getType())
                    if (st->getTypeArray().size() > 0)
                        return strip(st->getTypeArray()[0]);
        return nullptr;
    }
    if (auto* p = dyn_cast<PHINode>(v)) {
        for (auto& in : p->incoming_values())
            if (in.get() != v)
                if (auto* t = typeOf(in, depth + 3))
                    return t;
    }
    if (auto* s = dyn_cast<SelectInst>(v)) {
        if (auto* t = typeOf(s->getTrueValue(), depth + 1))
            return t;
        return typeOf(s->getFalseValue(), depth + 1);
    }
    return nullptr;
}

const DIType* Program::pointee(const Value* v, int depth) const
{
    if (depth > 12)
        return nullptr;
    if (auto* a = dyn_cast<AllocaInst>(v)) {
        auto it = mAllocaTypes.find(a);
        if (it != mAllocaTypes.end())
            return strip(it->second);
        if (auto* st = dyn_cast<StructType>(a->getAllocatedType()); st && st->hasName()) {
            StringRef sn = st->getName();
            return composite(sn.substr(sn.find('.') + 1).str());
        }
        return nullptr;
    }
    if (auto* g = dyn_cast<GEPOperator>(v)) {
        // address of a member: pointee is the member type when exact
        const Value* b = v;
        uint64_t off = 0;
        bool exact = true;
        while (auto* gg = dyn_cast<GEPOperator>(b)) {
            APInt o(64, 0);
            if (!gg->accumulateConstantOffset(dl(), o)) {
                exact = false;
                break;
            }
            off += o.getZExtValue();
            b = gg->getPointerOperand();
        }
        if (exact) {
            if (off == 0)
                return pointee(b, depth + 1);
            if (auto* t = pointee(b, depth + 1)) {
                // find the outermost member starting exactly at off
                const DIType* cur = strip(t);
                uint64_t o = off;
                for (int i = 0; i < 16 && cur; i++) {
                    auto* c = dyn_cast<DICompositeType>(cur);
                    if (!c)
                        break;
                    if (c->isForwardDecl())
                        if (auto* full = composite(typeName(c)))
                            c = full;
                    const DIType* next = nullptr;
                    for (auto* el : c->getElements()) {
                        auto* d = dyn_cast_or_null<DIDerivedType>(el);
                        if (!d || d->isStaticMember() ||
                            (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance))
                            continue;
                        uint64_t mo = d->getOffsetInBits() / 8;
                        auto* bt = strip(d->getBaseType());
                        if (auto* bc = dyn_cast_or_null<DICompositeType>(bt))
                            if (bc->isForwardDecl())
                                if (auto* full = composite(typeName(bc)))
                                    bt = full;
                        uint64_t sz = bt ? bt->getSizeInBits() / 8 : 0;
                        if (mo == o && sz)
                            return bt;
                        if (mo <= o && o < mo + sz) {
                            next = bt;
                            o -= mo;
                            break;
                        }
                    }
                    cur = next;
                }
            }
        }
        auto* src = g->getSourceElementType();
        if (auto* st = dyn_cast<StructType>(src); st && st->hasName() && g->getNumIndices() == 1) {
            StringRef sn = st->getName();
            return composite(sn.substr(sn.find('.') + 1).str());
        }
        auto f = field(v);
        if (f && f.rest == 0)
            return strip(f.type);
        return nullptr;
    }
    return pointedTo(typeOf(v, depth + 1));
}

std::string Program::pointeeName(const Value* v) const
{
    auto* t = pointee(v);
    return t ? typeName(t) : std::string();
}

static std::string functionSig(const std::string& full, const char* prefix)
{
    // "std::function<SIG>::..." -> SIG ; "std::_Function_handler<SIG, L>::_M_invoke" -> SIG
    size_t p = full.find(prefix);
    if (p == std::string::npos)
        return "";
    size_t i = p + strlen(prefix);
    int d = 0;
    size_t s = i;
    for (; i < full.size(); i++) {
        char c = full[i];
        if (c == '<' || c == '(')
            d++;
        else if (c == '>' || c == ')') {
            if (d == 0)
                break;
            d--;
        } else if (c == ',' && d == 0)
            break;
    }
    return full.substr(s, i - s);
}

void Program::describe(Function& f)
{
        for (auto& bb : f)
            for (auto& i : bb)
                if (auto* d = dyn_cast<DbgVariableIntrinsic>(&i)) {
                    auto* var = d->getVariable();
                    Value* v = d->getNumVariableLocationOps() == 1 ? d->getVariableLocationOp(0) : nullptr;
                    if (!v || !var)
                        continue;
                    if (auto* a = dyn_cast<Argument>(v)) {
                        if (isa<DbgDeclareInst>(d) || d->getExpression()->startsWithDeref()) {
                            // argument holds the address of the variable
                            if (!mArgTypes.count(a) && var->getType()) {
                                // represent as pointer: remember pointee through a reference-like wrapper
                                mArgTypes[a] = DIDerivedType::get(ctx, dwarf::DW_TAG_reference_type, "", nullptr, 0, nullptr,
                                    const_cast<DIType*>(cast<DIType>(var->getType())), 64, 0, 0, std::nullopt, DINode::FlagZero);
                            }
                        } else if (d->getExpression()->getNumElements() == 0 && !d->getDebugLoc()->getInlinedAt()) {
                            if (var->getArg() != 0 || !mArgTypes.count(a))
                                mArgTypes[a] = var->getType();
                        }
                    } else if (auto* al = dyn_cast<AllocaInst>(v)) {
                        if (isa<DbgDeclareInst>(d) || d->getExpression()->startsWithDeref())
                            if (!mAllocaTypes.count(al))
                                mAllocaTypes[al] = var->getType();
                    }
                }
        // arguments never described by debug values: use the subprogram's type when it lines up
        if (auto* sp = f.getSubprogram(); sp && sp->getType()) {
            auto ta = sp->getType()->getTypeArray();
            unsigned shift = f.hasStructRetAttr() ? 1 : 0;
            if (ta.size() >= 1 && f.arg_size() - shift == ta.size() - 1)
                for (unsigned k = 1; k < ta.size(); k++) {
                    auto* a = f.getArg(k - 1 + shift);
                    if (!mArgTypes.count(a) && ta[k] && a->getType()->isPointerTy() == (pointedTo(ta[k]) != nullptr))
                        mArgTypes[a] = ta[k];
                }
        }
}

void Program::index()
{
    mTypes.clear();
    mFieldCache.clear();
    mArgTypes.clear();
    mAllocaTypes.clear();
    mCallers.clear();
    mFunctionHandlers.clear();
    mObjectTargets.clear();
    mEscaped.clear();
    vcalls.clear();
    funcs.clear();
    all.clear();
    threadRoots.clear();

    DebugInfoFinder dif;
    dif.processModule(*mod);
    for (auto* t : dif.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->getName().empty() || c->isForwardDecl())
            continue;
        auto n = typeName(c);
        auto& e = mTypes[n];
        if (!e)
            e = c;
    }

    for (auto& f : *mod) {
        if (f.isDeclaration())
            continue;
        all.push_back(&f);
        if (isProject(&f))
            funcs.push_back(&f);
        describe(f);
    }

    // virtual calls
    std::map<std::string, std::vector<std::pair<GlobalVariable*, uint64_t>>> vtables;
    for (auto& gv : mod->globals()) {
        SmallVector<MDNode*, 4> types;
        gv.getMetadata(LLVMContext::MD_type, types);
        for (auto* t : types) {
            auto* id = dyn_cast<MDString>(t->getOperand(1));
            if (!id)
                continue;
            uint64_t off = cast<ConstantInt>(cast<ConstantAsMetadata>(t->getOperand(0))->getValue())->getZExtValue();
            vtables[id->getString().str()].push_back({ &gv, off });
        }
    }
    for (auto* f : all) {
        DominatorTree dt(*f);
        for (auto& bb : *f)
            for (auto& i : bb) {
                auto* ci = dyn_cast<CallInst>(&i);
                if (!ci || ci->getIntrinsicID() == Intrinsic::not_intrinsic)
                    continue;
                auto iid = ci->getIntrinsicID();
                if (iid != Intrinsic::type_test && iid != Intrinsic::public_type_test)
                    continue;
                auto* id = dyn_cast<MDString>(cast<MetadataAsValue>(ci->getArgOperand(1))->getMetadata());
                if (!id)
                    continue;
                SmallVector<DevirtCallSite, 4> sites;
                SmallVector<CallInst*, 2> assumes;
                findDevirtualizableCallsForTypeTest(sites, assumes, ci, dt);
                for (auto& s : sites) {
                    auto& out = vcalls[&s.CB];
                    for (auto& vt : vtables[id->getString().str()]) {
                        if (!vt.first->hasInitializer())
                            continue;
                        Constant* p = getPointerAtOffset(vt.first->getInitializer(), vt.second + s.Offset, *mod, vt.first);
                        if (!p)
                            continue;
                        if (auto* tf = dyn_cast<Function>(p->stripPointerCasts()))
                            if (std::find(out.begin(), out.end(), tf) == out.end())
                                out.push_back(tf);
                    }
                }
            }
    }
    // std::function targets
    for (auto* f : all) {
        const auto& n = fullName(f);
        if (contains(n, "std::_Function_handler<") && contains(n, ">::_M_invoke("))
            mFunctionHandlers[functionSig(n, "std::_Function_handler<")].push_back(f);
    }
    // callers, escaping functions
    for (int round = 0; round < 2; round++) {
    if (round == 1) {
        resolveFunctionObjects();
        mCallers.clear();
    }
    for (auto* f : all)
        for (auto& bb : *f)
            for (auto& i : bb)
                if (auto* cb = dyn_cast<CallBase>(&i)) {
                    if (isa<IntrinsicInst>(cb))
                        continue;
                    for (auto* t : callees(cb))
                        mCallers[t].push_back(cb);
                    auto* cf = cb->getCalledFunction();
                    for (auto& a : cb->args())
                        if (auto* af = dyn_cast<Function>(a->stripPointerCastsAndAliases())) {
                            mEscaped.insert(af);
                            if (cf && contains(fullName(cf), "std::thread"))
                                threadRoots.insert(af);
                        }
                } else if (auto* st = dyn_cast<StoreInst>(&i)) {
                    if (auto* af = dyn_cast<Function>(st->getValueOperand()->stripPointerCastsAndAliases()))
                        if (!contains(fullName(af), "std::_Function_handler"))
                            mEscaped.insert(af);
                    if (st->getValueOperand()->getType()->isIntegerTy() || isa<ConstantAggregate>(st->getValueOperand())) {
                        std::function<void(Value*)> walk = [&](Value* v) {
                            if (auto* af = dyn_cast<Function>(v)) {
                                mEscaped.insert(af);
                                return;
                            }
                            if (auto* c = dyn_cast<Constant>(v); c && !isa<GlobalValue>(c))
                                for (auto& o : c->operands())
                                    walk(o);
                        };
                        walk(st->getValueOperand());
                    }
                }
    }
}

// std::function objects held in members: the handlers that can have been stored there
void Program::resolveFunctionObjects()
{
    std::map<std::string, std::vector<const Value*>> inits; // member -> sources
    std::set<std::string> unknown;
    auto isObj = [&](const std::string& n) { return startsWith(n, "std::function<"); };
    for (auto* f : all)
        for (auto& i : instructions(f)) {
            auto* cb = dyn_cast<CallBase>(&i);
            if (!cb || isa<IntrinsicInst>(cb) || !cb->arg_size())
                continue;
            auto* t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
            if (!t)
                continue;
            const auto& n = fullName(t);
            auto fr = field(cb->getArgOperand(0));
            if (!fr)
                continue;
            if (isObj(n) && (contains(n, ">::function(") || contains(n, ">::function<") || contains(n, ">::operator=(") || contains(n, ">::operator=<"))) {
                if (cb->arg_size() > 1)
                    inits[fr.str()].push_back(contains(n, ">::function<") || contains(n, ">::operator=<") ? static_cast<const Value*>(cb) : cb->getArgOperand(1));
            } else if (isObj(n) && contains(n, "::swap("))
                unknown.insert(fr.str());
        }
    for (auto* f : all)
        for (auto& i : instructions(f)) {
            auto* cb = dyn_cast<CallBase>(&i);
            if (!cb || isa<IntrinsicInst>(cb) || !cb->arg_size())
                continue;
            auto* t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
            if (!t)
                continue;
            const auto& n = fullName(t);
            if (!isObj(n) || !contains(n, ">::operator()("))
                continue;
            std::vector<Function*> hs;
            std::set<const Value*> seen;
            std::set<std::string> seenF;
            bool known = true;
            auto handlersIn = [&](const Function* ctor) {
                bool any = false;
                for (auto& k : instructions(ctor))
                    for (auto& o : k.operands())
                        if (auto* h = dyn_cast<Function>(o.get()->stripPointerCastsAndAliases()))
                            if (contains(fullName(h), "std::_Function_handler<") && contains(fullName(h), ">::_M_invoke(")) {
                                any = true;
                                if (std::find(hs.begin(), hs.end(), h) == hs.end())
                                    hs.push_back(const_cast<Function*>(h));
                            }
                return any;
            };
            std::function<void(const Value*, int)> go = [&](const Value* v, int depth) {
                v = v->stripPointerCasts();
                if (depth > 12) {
                    known = false;
                    return;
                }
                if (!seen.insert(v).second)
                    return;
                if (auto* c = dyn_cast<CallBase>(v)) { // templated constructor from a callable
                    auto* ct = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
                    if (!ct || !handlersIn(ct))
                        known = false;
                    return;
                }
                if (auto* a = dyn_cast<AllocaInst>(v)) {
                    bool any = false;
                    for (auto* u : a->users()) {
                        auto* c = dyn_cast<CallBase>(u);
                        if (!c || isa<IntrinsicInst>(c))
                            continue;
                        auto* ct = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
                        if (!ct || c->getArgOperand(0)->stripPointerCasts() != a)
                            continue;
                        const auto& cn = fullName(ct);
                        if (!isObj(cn))
                            continue;
                        if (contains(cn, ">::function<") || contains(cn, ">::operator=<")) {
                            any = true;
                            if (!handlersIn(ct))
                                known = false;
                        } else if ((contains(cn, ">::function(") || contains(cn, ">::operator=(")) && c->arg_size() > 1) {
                            any = true;
                            go(c->getArgOperand(1), depth + 1);
                        } else if (contains(cn, "::swap("))
                            known = false;
                    }
                    if (!any)
                        known = false;
                    return;
                }
                if (auto* a = dyn_cast<Argument>(v)) {
                    auto& cs = callersOf(a->getParent());
                    if (addressTaken(a->getParent()) || a->hasStructRetAttr()) {
                        known = false;
                        return;
                    }
                    for (auto* c : cs) {
                        if (a->getArgNo() >= c->arg_size()) {
                            known = false;
                            return;
                        }
                        go(c->getArgOperand(a->getArgNo()), depth + 1);
                    }
                    if (cs.empty() && !isProject(a->getParent()))
                        known = false; // a project function nobody calls is called by the application
                    return;
                }
                if (auto fr = field(v)) {
                    if (unknown.count(fr.str())) {
                        known = false;
                        return;
                    }
                    if (!seenF.insert(fr.str()).second)
                        return;
                    auto it = inits.find(fr.str());
                    if (it == inits.end()) {
                        known = false;
                        return;
                    }
                    for (auto* x : it->second)
                        go(x, depth + 1);
                    return;
                }
                known = false;
            };
            go(cb->getArgOperand(0), 0);
            if (known)
                mObjectTargets[cb] = hs;
        }
}

std::vector<Function*> Program::callees(const CallBase* cb) const
{
    if (mTagged)
        if (auto* md = cb->getMetadata("sa.site"))
            return mTagTargets[mdconst::extract<ConstantInt>(md->getOperand(0))->getZExtValue()];
    if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases())) {
        const auto& n = fullName(f);
        if (startsWith(n, "std::function<") && contains(n, ">::operator()(")) {
            if (auto o = mObjectTargets.find(cb); o != mObjectTargets.end())
                return o->second;
            auto it = mFunctionHandlers.find(functionSig(n, "std::function<"));
            if (it != mFunctionHandlers.end())
                return it->second;
        }
        return { f };
    }
    auto it = vcalls.find(cb);
    if (it != vcalls.end())
        return it->second;
    return {};
}

const std::vector<CallBase*>& Program::callersOf(const Function* f) const
{
    static const std::vector<CallBase*> none;
    auto it = mCallers.find(f);
    return it == mCallers.end() ? none : it->second;
}
bool Program::addressTaken(const Function* f) const { return mEscaped.count(f) > 0; }
