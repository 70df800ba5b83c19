#include "rules.h"
#include "rules_util.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"

std::string callee(const CallBase* cb)
{
    if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()))
        return f->getName().str();
    return "";
}
const CallBase* asCall(const Instruction* i)
{
    auto* cb = dyn_cast<CallBase>(i);
    return cb && !isa<IntrinsicInst>(cb) ? cb : nullptr;
}
bool calls(const Instruction* i, const char* cname)
{
    auto* cb = asCall(i);
    return cb && callee(cb) == cname;
}
bool isMethod(Program& p, const Function* f, const char* q) { return p.name(f) == q; }
const Value* stripCasts(const Value* v) { return v->stripPointerCasts(); }

void addFlow(Report& r, const FlowSpec& s, const FlowResult& f)
{
    for (auto& v : f.violations)
        r.violations.push_back({ v.rule, v.where, v.fn, v.detail, v.chain });
    for (auto& k : s.sinks) {
        auto it = f.sinkCount.find(k.rule);
        r.need("sites checked by rule: " + k.rule, it == f.sinkCount.end() ? 0 : it->second, k.minCount);
        auto si = f.sinkSites.find(k.rule);
        if (si != f.sinkSites.end())
            for (auto& x : si->second)
                r.site(k.rule, x);
    }
    for (size_t i = 0; i < s.factNames.size(); i++) {
        auto it = f.factSites.find(i);
        r.counts["program points that can establish: " + s.factNames[i]] = it == f.factSites.end() ? 0 : it->second;
    }
    r.counts["functions analysed"] += f.functions;
    r.counts["path states explored"] += f.states;
    r.counts["widenings"] += f.widened;
    int64_t sites = 0;
    for (auto& [k, v] : f.sinkCount)
        sites += v;
    r.obligations += sites;
    r.discharged += std::max<int64_t>(0, sites - int64_t(f.violations.size()));
}

const Value* originOf(const Value* v)
{
    for (int i = 0; i < 12; i++) {
        v = v->stripPointerCasts();
        if (auto* l = dyn_cast<LoadInst>(v)) {
            APInt off(64, 0);
            auto& dl = l->getModule()->getDataLayout();
            auto* b = l->getPointerOperand()->stripAndAccumulateConstantOffsets(dl, off, true);
            if (!isa<AllocaInst>(b))
                return v;
            // the stores to this cell
            const Value* only = nullptr;
            int n = 0;
            std::vector<const Value*> work{ b };
            std::set<const Value*> seen;
            while (!work.empty()) {
                auto* w = work.back();
                work.pop_back();
                if (!seen.insert(w).second)
                    continue;
                for (auto* u : w->users()) {
                    if (isa<GetElementPtrInst>(u) || isa<CastInst>(u))
                        work.push_back(u);
                    else if (auto* st = dyn_cast<StoreInst>(u); st && st->getPointerOperand() == w) {
                        APInt o2(64, 0);
                        auto* b2 = w->stripAndAccumulateConstantOffsets(dl, o2, true);
                        if (b2 == b && o2 == off) {
                            n++;
                            only = st->getValueOperand();
                        }
                    }
                }
            }
            if (n != 1)
                return v;
            v = only;
            continue;
        }
        if (auto* e = dyn_cast<ExtractValueInst>(v)) {
            (void)e;
            return v;
        }
        if (auto* z = dyn_cast<CastInst>(v); z && z->getType()->isIntegerTy()) {
            v = z->getOperand(0);
            continue;
        }
        if (auto* fz = dyn_cast<FreezeInst>(v)) {
            v = fz->getOperand(0);
            continue;
        }
        return v;
    }
    return v;
}

std::optional<int64_t> enumValue(Program& p, const char* enumSuffix, const char* enumerator)
{
    DebugInfoFinder dif;
    dif.processModule(*p.mod);
    for (auto* t : dif.types()) {
        auto* c = dyn_cast<DICompositeType>(t);
        if (!c || c->getTag() != dwarf::DW_TAG_enumeration_type || c->isForwardDecl())
            continue;
        if (!endsWith(Program::typeName(c), enumSuffix))
            continue;
        for (auto* e : c->getElements())
            if (auto* en = dyn_cast_or_null<DIEnumerator>(e))
                if (en->getName() == enumerator)
                    return en->getValue().getSExtValue();
    }
    return std::nullopt;
}

bool sameAddress(const Value* a, const Value* b, int depth)
{
    a = a->stripPointerCasts();
    b = b->stripPointerCasts();
    if (a == b)
        return true;
    if (depth > 8)
        return false;
    auto *oa = originOf(a), *ob = originOf(b);
    if (oa == ob)
        return true;
    if (oa != a || ob != b)
        return sameAddress(oa, ob, depth + 1);
    if (auto *ga = dyn_cast<GEPOperator>(a), *gb = dyn_cast<GEPOperator>(b); ga && gb) {
        if (ga->getSourceElementType() != gb->getSourceElementType() || ga->getNumIndices() != gb->getNumIndices())
            return false;
        for (unsigned k = 1; k < ga->getNumOperands(); k++)
            if (ga->getOperand(k) != gb->getOperand(k))
                return false;
        return sameAddress(ga->getPointerOperand(), gb->getPointerOperand(), depth + 1);
    }
    if (auto *la = dyn_cast<LoadInst>(a), *lb = dyn_cast<LoadInst>(b); la && lb)
        return sameAddress(la->getPointerOperand(), lb->getPointerOperand(), depth + 1);
    return false;
}

bool sameLocalValue(Program& p, const Value* a, const Value* b, const Instruction* first)
{
    auto strip = [](const Value* v) {
        while (auto* c = dyn_cast<CastInst>(v))
            v = c->getOperand(0);
        return v;
    };
    a = strip(a);
    b = strip(b);
    if (a == b)
        return true;
    auto *oa = originOf(a), *ob = originOf(b);
    if (oa == ob)
        return true;
    auto *la = dyn_cast<LoadInst>(oa), *lb = dyn_cast<LoadInst>(ob);
    if (!la || !lb)
        return false;
    APInt x(64, 0), y(64, 0);
    auto* ba = la->getPointerOperand()->stripAndAccumulateConstantOffsets(p.dl(), x, true);
    auto* bb = lb->getPointerOperand()->stripAndAccumulateConstantOffsets(p.dl(), y, true);
    if (ba != bb || x != y || !isa<AllocaInst>(ba))
        return false;
    // writers of the cell must come before the first use
    DominatorTree dt(*const_cast<Function*>(first->getFunction()));
    for (auto* u : ba->users()) {
        auto* i = dyn_cast<Instruction>(u);
        if (!i || isa<LoadInst>(i) || isa<DbgInfoIntrinsic>(i))
            continue;
        if (auto* ii = dyn_cast<IntrinsicInst>(i); ii && ii->isLifetimeStartOrEnd())
            continue;
        if (!dt.dominates(i, first))
            return false;
    }
    return true;
}

bool Prov::derives(const Value* v, int depth)
{
    if (depth > 24)
        return false;
    v = v->stripPointerCasts();
    if (pred(v))
        return true;
    if (stop && stop(v))
        return false;
    if (isa<Constant>(v))
        return false;
    if (active.count(v))
        return true; // around a loop: decided by the other values of the phi
    if (!seen.insert(v).second)
        return false;
    if (auto* g = dyn_cast<GEPOperator>(v))
        return derives(g->getPointerOperand(), depth + 1);
    if (auto* l = dyn_cast<LoadInst>(v))
        return derives(l->getPointerOperand(), depth + 1);
    if (isa<CastInst>(v) || isa<FreezeInst>(v) || isa<ExtractValueInst>(v))
        return derives(cast<Instruction>(v)->getOperand(0), depth + 1);
    if (auto* b = dyn_cast<BinaryOperator>(v))
        return derives(b->getOperand(0), depth + 1) || derives(b->getOperand(1), depth + 1);
    if (auto* ph = dyn_cast<PHINode>(v)) {
        active.insert(ph);
        bool all = true;
        for (auto& in : ph->incoming_values())
            all = all && (isa<Constant>(in) || derives(in, depth + 1));
        active.erase(ph);
        return all;
    }
    if (auto* s = dyn_cast<SelectInst>(v))
        return derives(s->getTrueValue(), depth + 1) && derives(s->getFalseValue(), depth + 1);
    if (isa<AllocaInst>(v)) {
        std::vector<const Value*> work{ v };
        std::set<const Value*> done;
        while (!work.empty()) {
            auto* w = work.back();
            work.pop_back();
            if (!done.insert(w).second)
                continue;
            for (auto* u : w->users()) {
                if (isa<GetElementPtrInst>(u) || isa<CastInst>(u)) {
                    work.push_back(u);
                    continue;
                }
                if (auto* st = dyn_cast<StoreInst>(u)) {
                    if (st->getPointerOperand() == w && derives(st->getValueOperand(), depth + 1))
                        return true;
                    continue;
                }
                auto* cb = dyn_cast<CallBase>(u);
                if (!cb)
                    continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
                    if (isa<MemTransferInst>(ii) && ii->getArgOperand(0) == w && derives(ii->getArgOperand(1), depth + 1))
                        return true;
                    continue;
                }
                // written by: sret / this of a constructor / out parameter
                bool out = false;
                for (unsigned k = 0; k < cb->arg_size(); k++)
                    if (cb->getArgOperand(k) == w && !cb->paramHasAttr(k, Attribute::ReadOnly))
                        out = true;
                if (!out)
                    continue;
                if (pred(cb))
                    return true;
                if (stop && stop(cb))
                    continue;
                for (auto* t : p.callees(cb)) {
                    auto n = p.name(t);
                    if (contains(n, "::~"))
                        continue;
                    bool sret = t->hasStructRetAttr();
                    bool ctor = false;
                    {
                        auto k = n.rfind("::");
                        if (k != std::string::npos) {
                            auto last = n.substr(k + 2);
                            auto head = n.substr(0, k);
                            // strip template arguments from the class name
                            auto lt = head.find('<');
                            auto h2 = lt == std::string::npos ? head : head.substr(0, lt);
                            auto j = h2.rfind("::");
                            ctor = (j == std::string::npos ? h2 : h2.substr(j + 2)) == last || startsWith(last, "operator=") || last == "assign";
                        }
                    }
                    if (!sret && !ctor && p.isProject(t)) {
                        // a plain out parameter: whatever else is passed may have filled it
                    }
                    for (unsigned k = 0; k < cb->arg_size(); k++)
                        if (cb->getArgOperand(k) != w && derives(cb->getArgOperand(k), depth + 1))
                            return true;
                    if (sret && !t->isDeclaration() && p.isProject(t)) {
                        // the function's result object
                        if (derives(t->getArg(0), depth + 1))
                            return true;
                        for (auto* tu : t->getArg(0)->users())
                            if (auto* tc = dyn_cast<CallBase>(tu))
                                for (auto& a : tc->args())
                                    if (a.get() != t->getArg(0) && derives(a.get(), depth + 1))
                                        return true;
                    }
                }
            }
        }
        return false;
    }
    if (auto* a = dyn_cast<Argument>(v)) {
        auto& cs = p.callersOf(a->getParent());
        if (cs.empty())
            return false;
        for (auto* c : cs) {
            if (a->getArgNo() >= c->arg_size())
                return false;
            if (!derives(c->getArgOperand(a->getArgNo()), depth + 1))
                return false;
        }
        return true;
    }
    if (auto* cb = dyn_cast<CallBase>(v)) {
        for (auto* t : p.callees(cb))
            if (!t->isDeclaration() && p.isProject(t)) {
                for (auto& bb : *t)
                    if (auto* r = dyn_cast<ReturnInst>(bb.getTerminator()); r && r->getReturnValue())
                        if (!isa<Argument>(r->getReturnValue()) && derives(r->getReturnValue(), depth + 1))
                            return true;
            }
        for (auto& a : cb->args())
            if (derives(a.get(), depth + 1))
                return true;
    }
    return false;
}
