// the arithmetic of the replay window (part of C06)
#include "rules.h"
#include "rules_util.h"

namespace
{
constexpr FactSet B(int i) { return FactSet(1) << i; }
const char* kCls = "srtc::ReplayProtection";
bool inWindow(Program& p, const Function* f) { return startsWith(p.fullName(f), "srtc::ReplayProtection::") || startsWith(p.name(f), "srtc::ReplayProtection::"); }

const Value* bare(const Value* v)
{
    while (auto* c = dyn_cast<CastInst>(v)) {
        if (!c->getType()->isIntegerTy() || !c->getOperand(0)->getType()->isIntegerTy())
            break;
        v = c->getOperand(0);
    }
    return v;
}
} // namespace

void ruleReplayWindow(Program& p, Report& r)
{
    FlowSpec s;
    const int noStore = s.fact("nothing was recorded yet");
    const int above = s.fact("the number is above the highest one");
    const int below = s.fact("the number is below the highest one");
    const int equal = s.fact("the number is the highest one");
    const int fwdIn = s.fact("the distance ahead is within the limit");
    const int rollIn = s.fact("the distance across the wrap is within the limit");
    const int fwdOut = s.fact("the distance ahead is above the limit");
    const int backIn = s.fact("the distance back is within the window");
    const int backOut = s.fact("the distance back is outside of the window");
    const int bitClear = s.fact("the bit of the number is not set");
    const int recV = s.fact("the number was recorded");
    const int recCur = s.fact("the highest number was recorded");
    const int adv = s.fact("the highest number was advanced");

    auto isF = [&p](const Value* v, const char* name) {
        auto* l = dyn_cast<LoadInst>(bare(v));
        if (!l)
            return false;
        auto f = p.field(l->getPointerOperand());
        return f.cls == kCls && f.name == name;
    };
    // the number asked about: an integer argument of a function of the window
    auto isNumber = [&](const Value* v) {
        auto* a = dyn_cast<Argument>(bare(v));
        return a && a->getType()->isIntegerTy() && inWindow(p, a->getParent());
    };
    auto bit = [&](const Value* v) { return isa<LoadInst>(bare(v)) && bare(v)->getType()->isIntegerTy(8); };
    // functions that change one bit of the window
    auto store8 = [&](const Instruction* i) -> const BinaryOperator* {
        auto* st = dyn_cast<StoreInst>(i);
        if (!st || !st->getValueOperand()->getType()->isIntegerTy(8))
            return nullptr;
        auto* b = dyn_cast<BinaryOperator>(bare(st->getValueOperand()));
        if (!b || (b->getOpcode() != Instruction::Or && b->getOpcode() != Instruction::And) || !(bit(b->getOperand(0)) || bit(b->getOperand(1))))
            return nullptr;
        return b;
    };
    std::set<const Function*> near; // functions of the window and the helpers only they call
    for (auto* f : p.funcs)
        if (inWindow(p, f))
            near.insert(f);
    for (bool more = true; more;) {
        more = false;
        for (auto* f : std::set<const Function*>(near))
            for (auto& i : instructions(f))
                if (auto* cb = asCall(&i); cb && cb->getCalledFunction() && p.isProject(cb->getCalledFunction()) && cb->getCalledFunction()->hasLocalLinkage() && !cb->getCalledFunction()->isDeclaration())
                    more |= near.insert(cb->getCalledFunction()).second;
    }
    // bit positions, as text over N (storage size), V (number)
    std::function<std::string(const Value*, std::map<const Value*, std::string>, int)> text = [&](const Value* v, std::map<const Value*, std::string> env, int depth) -> std::string {
        v = bare(v);
        if (auto e = env.find(v); e != env.end())
            return e->second;
        if (depth > 12)
            return "?";
        if (auto* c = dyn_cast<ConstantInt>(v))
            return std::to_string(c->getZExtValue());
        if (isF(v, "mStorageSize"))
            return "N";
        if (auto* a = dyn_cast<Argument>(v))
            return derivesFrom(p, a, [&](const Value* x) { return isF(x, "mStorageSize"); }) ? "N" : "V";
        if (isF(v, "mCurMax"))
            return "V";
        if (auto* b = dyn_cast<BinaryOperator>(v)) {
            auto l = text(b->getOperand(0), env, depth + 1), x = text(b->getOperand(1), env, depth + 1);
            auto* c = dyn_cast<ConstantInt>(b->getOperand(1));
            switch (b->getOpcode()) {
            case Instruction::LShr:
                if (c && c->getZExtValue() < 32)
                    return "(" + l + "/" + std::to_string(1ull << c->getZExtValue()) + ")";
                return "(" + l + ">>" + x + ")";
            case Instruction::UDiv: return "(" + l + "/" + x + ")";
            case Instruction::URem:
                if (c && isPowerOf2_64(c->getZExtValue()))
                    return "(" + l + "&" + std::to_string(c->getZExtValue() - 1) + ")";
                return "(" + l + "%" + x + ")";
            case Instruction::And: return "(" + l + "&" + x + ")";
            case Instruction::Shl: return "(" + l + "<<" + x + ")";
            case Instruction::Add: return "(" + l + "+" + x + ")";
            case Instruction::Sub: return "(" + l + "-" + x + ")";
            default: return "(" + l + b->getOpcodeName() + x + ")";
            }
        }
        if (auto* cb = dyn_cast<CallBase>(v); cb && cb->getCalledFunction() && near.count(cb->getCalledFunction())) {
            auto* f = cb->getCalledFunction();
            std::map<const Value*, std::string> inner;
            for (unsigned n = 0; n < f->arg_size(); n++)
                if (f->getArg(n)->getType()->isIntegerTy())
                    inner[f->getArg(n)] = text(cb->getArgOperand(n), env, depth + 1);
            for (auto& i : instructions(f))
                if (auto* ret = dyn_cast<ReturnInst>(&i); ret && ret->getReturnValue())
                    return text(ret->getReturnValue(), inner, depth + 1);
        }
        return "?";
    };
    auto indexOf = [&](const Value* ptr) -> std::string {
        if (auto* g = dyn_cast<GetElementPtrInst>(ptr); g && g->getNumIndices() == 1)
            return text(g->getOperand(1), {}, 0);
        return "?";
    };
    std::map<std::string, std::vector<std::string>> positions;
    std::set<const Function*> setters, clearers;
    std::set<const Instruction*> clears;
    int tests = 0;
    for (auto* f : near)
        for (auto& i : instructions(f)) {
            if (auto* b = store8(&i)) {
                bool set = b->getOpcode() == Instruction::Or;
                const Value* m = bit(b->getOperand(0)) ? b->getOperand(1) : b->getOperand(0);
                m = bare(m);
                if (!set) { // ~mask
                    if (auto* x = dyn_cast<BinaryOperator>(m); x && x->getOpcode() == Instruction::Xor && isa<ConstantInt>(x->getOperand(1)) && cast<ConstantInt>(x->getOperand(1))->isMinusOne())
                        m = x->getOperand(0);
                    clearers.insert(f);
                    clears.insert(&i);
                } else
                    setters.insert(f);
                positions[indexOf(cast<StoreInst>(&i)->getPointerOperand()) + " bit " + text(m, {}, 0)].push_back(Program::loc(&i));
            } else if (auto* c = dyn_cast<ICmpInst>(&i); c && c->isEquality()) {
                auto* b = dyn_cast<BinaryOperator>(bare(c->getOperand(0)));
                if (!b || b->getOpcode() != Instruction::And || !(bit(b->getOperand(0)) || bit(b->getOperand(1))))
                    continue;
                tests++;
                const Value* l = bit(b->getOperand(0)) ? b->getOperand(0) : b->getOperand(1);
                const Value* m = bit(b->getOperand(0)) ? b->getOperand(1) : b->getOperand(0);
                positions[indexOf(cast<LoadInst>(bare(l))->getPointerOperand()) + " bit " + text(m, {}, 0)].push_back(Program::loc(&i));
            }
        }
    r.need("places that record a number in the replay window", setters.size());
    r.need("places that test a number in the replay window", tests);
    size_t all = 0;
    for (auto& [k, v] : positions)
        all += v.size();
    if (getenv("SA_DEBUG_REPLAY"))
        for (auto& [k, v] : positions)
            errs() << k << " " << v.size() << "\n";
    bool same = positions.size() == 1 && positions.begin()->first.find('?') == std::string::npos && positions.begin()->first.find('V') != std::string::npos;
    for (auto& [k, v] : positions)
        for (auto& w : v) {
            r.obligation(same);
            r.site("one number has one bit", w);
        }
    if (!same && all) {
        std::string d;
        for (auto& [k, v] : positions)
            d += (d.empty() ? "" : "; ") + v[0] + ": " + k;
        r.viol("one number has one bit", positions.begin()->second[0], kCls, "recording, forgetting and testing a number use different bits: " + d);
    }
    // a position of the form (V / 8) % N, bit 1 << (V & 7)
    if (same) {
        auto k = positions.begin()->first;
        bool ok = k == "((V/8)%N) bit (1<<(V&7))";
        r.obligation(ok);
        r.site("different numbers of the window have different bits", positions.begin()->second[0]);
        if (!ok)
            r.viol("different numbers of the window have different bits", positions.begin()->second[0], kCls, "the bit of number V among N bytes is " + k);
    }
    // sizes: evaluated for the sizes the window is made with
    for (auto* f : near) {
        if (!isCtor(p, f))
            continue;
        for (auto& i : instructions(f)) {
            auto* st = dyn_cast<StoreInst>(&i);
            if (!st)
                continue;
            auto fr = p.field(st->getPointerOperand());
            if (fr.cls != kCls || (fr.name != "mStorageSize" && fr.name != "mSize" && fr.name != "mMaxDistanceForward"))
                continue;
            for (uint64_t size : { 2048ull, 1024ull, 64ull }) {
                std::function<std::optional<uint64_t>(const Value*)> ev = [&](const Value* v) -> std::optional<uint64_t> {
                    v = bare(v);
                    if (auto* c = dyn_cast<ConstantInt>(v))
                        return c->getZExtValue();
                    if (auto* a = dyn_cast<Argument>(v))
                        return a->getArgNo() == 2 ? std::optional<uint64_t>(size) : std::nullopt;
                    if (isF(v, "mSize"))
                        return size;
                    auto* b = dyn_cast<BinaryOperator>(v);
                    if (!b)
                        return {};
                    auto x = ev(b->getOperand(0)), y = ev(b->getOperand(1));
                    if (!x || !y)
                        return {};
                    switch (b->getOpcode()) {
                    case Instruction::Add: return uint32_t(*x + *y);
                    case Instruction::Sub: return uint32_t(*x - *y);
                    case Instruction::Mul: return uint32_t(*x * *y);
                    case Instruction::UDiv: return *y ? std::optional<uint64_t>(*x / *y) : std::nullopt;
                    case Instruction::LShr: return *x >> (*y & 31);
                    case Instruction::Shl: return uint32_t(*x << (*y & 31));
                    default: return {};
                    }
                };
                auto v = ev(st->getValueOperand());
                bool ok = v && (fr.name == "mStorageSize" ? *v == (size + 7) / 8 : fr.name == "mSize" ? *v == size : *v < size);
                r.obligation(ok);
                r.site("the window's storage has one bit for each number of the window", Program::loc(st));
                if (!ok)
                    r.viol("the window's storage has one bit for each number of the window", Program::loc(st), p.name(f), fr.name + (v ? " is " + std::to_string(*v) + " for a window of " + std::to_string(size) : " is not a function of the window's size"));
            }
        }
    }

    // the number tested is the number recorded
    for (auto* f : p.funcs) {
        if (inWindow(p, f))
            continue;
        std::vector<const CallBase*> can, set;
        for (auto& i : instructions(f))
            if (auto* cb = asCall(&i))
                for (auto* t : p.callees(cb)) {
                    if (p.name(t) == "srtc::ReplayProtection::canProceed")
                        can.push_back(cb);
                    if (p.name(t) == "srtc::ReplayProtection::set")
                        set.push_back(cb);
                }
        for (auto* c : can)
            for (auto* x : set) {
                bool ok = c->arg_size() > 1 && x->arg_size() > 1 && (bare(c->getArgOperand(1)) == bare(x->getArgOperand(1)) || sameLocalValue(p, c->getArgOperand(1), x->getArgOperand(1), c));
                r.obligation(ok);
                r.site("the number recorded is the number tested", Program::loc(x));
                if (!ok)
                    r.viol("the number recorded is the number tested", Program::loc(x), p.name(f), "the replay window is tested for another number than the one recorded");
            }
    }

    auto isCan = [&p](const Function* f) { return p.name(f) == "srtc::ReplayProtection::canProceed"; };
    auto isSetF = [&p](const Function* f) { return p.name(f) == "srtc::ReplayProtection::set"; };
    s.isRoot = [=, &p](const Function* f) { return isCan(f) || isSetF(f); };
    FactSet everything = 0;
    for (size_t n = 0; n < s.factNames.size(); n++)
        everything |= B(n);
    s.events.push_back({ noStore, [=, &p](const Instruction* i) { return entryOf(i) && (isCan(i->getFunction()) || isSetF(i->getFunction())); }, everything, false });
    s.fields.push_back({ noStore, [](const FieldRef& f) { return f.cls == kCls && f.name == "mStorage"; }, Range::eq(0) });
    auto pred = [&](int id, auto m) {
        s.preds.push_back({ id, [m, &p, near](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>& res) {
                               if (!near.count(c->getFunction()))
                                   return false;
                               auto pr = truth ? c->getPredicate() : c->getInversePredicate();
                               return m(pr, bare(res(c->getOperand(0))), bare(res(c->getOperand(1)))) || m(CmpInst::getSwappedPredicate(pr), bare(res(c->getOperand(1))), bare(res(c->getOperand(0))));
                           } });
    };
    using P = CmpInst::Predicate;
    pred(above, [=, &p](P pr, const Value* l, const Value* x) { return pr == CmpInst::ICMP_UGT && isNumber(l) && isF(x, "mCurMax"); });
    pred(below, [=, &p](P pr, const Value* l, const Value* x) { return pr == CmpInst::ICMP_ULT && isNumber(l) && isF(x, "mCurMax"); });
    pred(equal, [=, &p](P pr, const Value* l, const Value* x) { return pr == CmpInst::ICMP_EQ && isNumber(l) && isF(x, "mCurMax"); });
    auto isSub = [=, &p](const Value* v, bool ahead) {
        auto* b = dyn_cast<BinaryOperator>(v);
        if (!b || b->getOpcode() != Instruction::Sub)
            return false;
        return ahead ? isNumber(b->getOperand(0)) && isF(b->getOperand(1), "mCurMax") : isF(b->getOperand(0), "mCurMax") && isNumber(b->getOperand(1));
    };
    auto roll = [=, &p](const Value* v) {
        return (isa<CallBase>(v) || isa<BinaryOperator>(v)) && !isSub(v, true) && !isSub(v, false);
    };
    auto dist = [=, &p](const Value* v) { return isSub(v, true) || roll(v); };
    pred(fwdIn, [=, &p](P pr, const Value* l, const Value* x) { return (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_ULT) && isSub(l, true) && isF(x, "mMaxDistanceForward"); });
    pred(rollIn, [=, &p](P pr, const Value* l, const Value* x) { return (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_ULT) && roll(l) && isF(x, "mMaxDistanceForward"); });
    pred(fwdOut, [=, &p](P pr, const Value* l, const Value* x) { return pr == CmpInst::ICMP_UGT && dist(l) && isF(x, "mMaxDistanceForward"); });
    pred(backIn, [=, &p](P pr, const Value* l, const Value* x) { return pr == CmpInst::ICMP_ULT && isSub(l, false) && isF(x, "mSize"); });
    pred(backOut, [=, &p](P pr, const Value* l, const Value* x) { return pr == CmpInst::ICMP_UGE && isSub(l, false) && isF(x, "mSize"); });
    s.preds.push_back({ bitClear, [=, &p](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>&) {
                           if (!near.count(c->getFunction()) || (truth ? c->getPredicate() : c->getInversePredicate()) != CmpInst::ICMP_EQ)
                               return false;
                           auto* b = dyn_cast<BinaryOperator>(bare(c->getOperand(0)));
                           auto* z = dyn_cast<ConstantInt>(c->getOperand(1));
                           return b && z && z->isZero() && b->getOpcode() == Instruction::And && (bit(b->getOperand(0)) || bit(b->getOperand(1)));
                       } });
    auto argOf = [=, &p](const Instruction* i, const std::set<const Function*>& fs, auto m) {
        auto* cb = asCall(i);
        if (cb && cb->getCalledFunction() && fs.count(cb->getCalledFunction()) && !inWindow(p, cb->getCalledFunction())) {
            for (auto& a : cb->args())
                if (a->getType()->isIntegerTy() && m(bare(a)))
                    return true;
            return false;
        }
        if (auto* b = store8(i); b && inWindow(p, i->getFunction()) && fs.count(i->getFunction()))
            return derivesFrom(p, cast<StoreInst>(i)->getPointerOperand(), m);
        return false;
    };
    s.events.push_back({ recV, [=, &p](const Instruction* i) { return argOf(i, setters, isNumber); } });
    s.events.push_back({ recCur, [=, &p](const Instruction* i) { return argOf(i, setters, [=](const Value* v) { return isF(v, "mCurMax"); }); } });
    auto fromCur = [&p, isF](const Value* v) { return derivesFrom(p, v, [&](const Value* x) { return isF(x, "mCurMax"); }); };
    s.events.push_back({ adv, [=, &p](const Instruction* i) {
                            auto* b = dyn_cast<BinaryOperator>(i);
                            return b && near.count(b->getFunction()) && b->getOpcode() == Instruction::Add && isa<ConstantInt>(b->getOperand(1)) && cast<ConstantInt>(b->getOperand(1))->isOne() && fromCur(b->getOperand(0));
                        } });
    s.events.push_back({ adv, [=, &p](const Instruction* i) {
                            auto* st = dyn_cast<StoreInst>(i);
                            auto f = st ? p.field(st->getPointerOperand()) : FieldRef();
                            return f.cls == kCls && f.name == "mCurMax";
                        }, B(equal) | B(above) | B(below), false });
    auto sink = [&](const char* rule, std::function<bool(const Function*)> fn, Range ret, std::function<bool(FactSet)> ok) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.ret = true;
        k.retFn = fn;
        k.retRange = ret;
        k.ok = ok;
        s.sinks.push_back(k);
    };
    auto has = [](FactSet f, int n) { return (f & B(n)) != 0; };
    sink("a number is allowed only when it is new or its bit is not set", isCan, Range::nonzero(), [=](FactSet f) {
        return has(f, noStore) || (has(f, above) && has(f, fwdIn)) || has(f, rollIn) || (has(f, bitClear) && has(f, backIn));
    });
    sink("a number is recorded when the window accepts it", isSetF, Range::nonzero(), [=](FactSet f) { return has(f, recV) || (has(f, recCur) && has(f, equal)); });
    sink("a number is refused by the record only when the test refuses it too", isSetF, Range::eq(0), [=](FactSet f) { return has(f, equal) || (has(f, fwdOut) && has(f, above)) || has(f, backOut); });
    FlowSpec::Sink k;
    k.rule = "the bit of the highest number is not forgotten when the window moves";
    k.match = [=, &p](const Instruction* i) {
        auto* cb = asCall(i);
        if (cb && cb->getCalledFunction() && clearers.count(cb->getCalledFunction()) && !inWindow(p, cb->getCalledFunction()))
            return true;
        return clears.count(i) && inWindow(p, i->getFunction());
    };
    k.ok = [=](FactSet f) { return has(f, adv); };
    k.minCount = 0;
    s.sinks.push_back(k);
    addFlow(r, s, runFlow(p, s));
}
