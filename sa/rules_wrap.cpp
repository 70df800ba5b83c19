// C25 ordering decisions on wrapping counters
#include "rules.h"
#include "rules_util.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"

namespace
{
std::string lower(std::string s)
{
    for (auto& c : s)
        c = tolower(c);
    return s;
}
// a name of a sequence or transmission number that has not been extended
bool counterName(const std::string& n0)
{
    auto n = lower(n0);
    if (contains(n0, "_ext") || contains(n0, "Ext") || startsWith(n0, "ext") || contains(n, "count") || contains(n, "size") || contains(n, "len") || contains(n, "list"))
        return false;
    for (auto k : { "seq", "tsn", "ssn" })
        if (contains(n, k))
            return true;
    return false;
}
struct Wrap {
    Program& p;
    Report& r;
    Wrap(Program& p, Report& r)
        : p(p)
        , r(r)
    {
    }
    struct Class {
        enum K { Other, Const, Raw, Diff, Wide } k = Other;
        unsigned w = 0;   // natural width
        bool sgn = false; // sign extended
    };
    std::map<const Value*, Class> cache;
    DenseMap<const Value*, unsigned> named; // values bound to a variable with a counter's name

    unsigned naturalWidth(const DIType* t)
    {
        t = t ? Program::strip(t) : nullptr;
        if (!t)
            return 0;
        auto n = Program::typeName(t);
        if (startsWith(n, "std::optional<unsigned short>"))
            return 16;
        if (startsWith(n, "std::optional<unsigned int>"))
            return 32;
        auto* b = dyn_cast<DIBasicType>(t);
        if (!b || b->getEncoding() != dwarf::DW_ATE_unsigned)
            return 0;
        auto s = b->getSizeInBits();
        return s == 16 || s == 32 ? s : 0;
    }
    unsigned source(const Value* v)
    {
        if (auto it = named.find(v); it != named.end() && it->second)
            return it->second;
        if (auto* l = dyn_cast<LoadInst>(v); l && l->getType()->isIntegerTy()) {
            auto f = p.field(l->getPointerOperand());
            if (f && counterName(f.name)) {
                auto w = naturalWidth(f.type);
                if (w && l->getType()->getIntegerBitWidth() == w)
                    return w;
            }
            if (auto* a = dyn_cast<AllocaInst>(l->getPointerOperand()); a && counterName(a->getName().str()))
                if (auto w = naturalWidth(p.pointee(a)); w && l->getType()->getIntegerBitWidth() == w)
                    return w;
        }
        if (auto* cb = dyn_cast<CallBase>(v); cb && cb->getType()->isIntegerTy() && !isa<IntrinsicInst>(cb))
            for (auto* t : p.callees(cb)) {
                auto n = p.name(t);
                auto k = n.rfind("::");
                auto last = k == std::string::npos ? n : n.substr(k + 2);
                unsigned w = cb->getType()->getIntegerBitWidth();
                if (p.isProject(t) && counterName(last) && (w == 16 || w == 32)) {
                    auto* sp = t->getSubprogram();
                    if (sp && sp->getType() && sp->getType()->getTypeArray().size() && naturalWidth(sp->getType()->getTypeArray()[0]) == w)
                        return w;
                }
            }
        return 0;
    }
    Class cls(const Value* v, int depth = 0)
    {
        if (isa<ConstantInt>(v))
            return { Class::Const };
        if (depth > 24)
            return {};
        if (auto it = cache.find(v); it != cache.end())
            return it->second;
        cache[v] = {};
        auto c = compute(v, depth);
        cache[v] = c;
        return c;
    }
    Class compute(const Value* v, int depth)
    {
        unsigned bits = v->getType()->isIntegerTy() ? v->getType()->getIntegerBitWidth() : 0;
        if (auto w = source(v)) {
            // a variable may hold a difference
            if (auto* i = dyn_cast<BinaryOperator>(v); i && i->getOpcode() == Instruction::Sub)
                ;
            else
                return { Class::Raw, w };
        }
        if (auto* z = dyn_cast<ZExtInst>(v))
            return cls(z->getOperand(0), depth + 1);
        if (auto* z = dyn_cast<SExtInst>(v)) {
            auto c = cls(z->getOperand(0), depth + 1);
            if (c.k == Class::Diff && z->getOperand(0)->getType()->getIntegerBitWidth() == c.w)
                c.sgn = true;
            return c;
        }
        if (auto* t = dyn_cast<TruncInst>(v)) {
            auto c = cls(t->getOperand(0), depth + 1);
            if (c.k == Class::Wide && bits == c.w)
                return { Class::Diff, c.w };
            if (c.k == Class::Raw && bits >= c.w)
                return c;
            return c.k == Class::Raw || c.k == Class::Diff ? (bits >= c.w ? c : Class{}) : Class{};
        }
        if (auto* b = dyn_cast<BinaryOperator>(v)) {
            auto x = cls(b->getOperand(0), depth + 1), y = cls(b->getOperand(1), depth + 1);
            if (b->getOpcode() == Instruction::Sub && x.k == Class::Raw && y.k == Class::Raw)
                return { bits == std::min(x.w, y.w) ? Class::Diff : Class::Wide, std::min(x.w, y.w) };
            if (b->getOpcode() == Instruction::Sub && ((x.k == Class::Raw && y.k == Class::Other) || (x.k == Class::Other && y.k == Class::Raw))) {
                unsigned w = x.k == Class::Raw ? x.w : y.w;
                auto* o = b->getOperand(x.k == Class::Raw ? 1 : 0);
                if (bits == w)
                    return { Class::Diff, w };
                if (auto* z = dyn_cast<ZExtInst>(o); z && z->getOperand(0)->getType()->getIntegerBitWidth() == w)
                    return { Class::Wide, w };
            }
            if (b->getOpcode() == Instruction::Add || b->getOpcode() == Instruction::Sub) {
                if (y.k == Class::Const && x.k != Class::Other)
                    return x;
                if (x.k == Class::Const && b->getOpcode() == Instruction::Add)
                    return y;
            }
        }
        if (auto* ph = dyn_cast<PHINode>(v)) {
            Class c;
            for (auto& x : ph->incoming_values()) {
                auto y = cls(x, depth + 1);
                if (y.k == Class::Raw)
                    c = y;
            }
            return c;
        }
        if (auto* s = dyn_cast<SelectInst>(v)) {
            auto x = cls(s->getTrueValue(), depth + 1);
            return x.k == Class::Raw ? x : cls(s->getFalseValue(), depth + 1);
        }
        if (auto* l = dyn_cast<LoadInst>(v)) {
            auto* o = originOf(l);
            if (o != l && o->getType() == l->getType())
                return cls(o, depth + 1);
        }
        if (auto* a = dyn_cast<Argument>(v); a && bits && (bits == 16 || bits == 32)) {
            // an argument every caller gives a counter for
            auto& cs = p.callersOf(a->getParent());
            Class c;
            for (auto* cb : cs) {
                if (a->getArgNo() >= cb->arg_size())
                    return {};
                auto y = cls(cb->getArgOperand(a->getArgNo()), depth + 4);
                if (y.k != Class::Raw || (c.k == Class::Raw && c.w != y.w))
                    return {};
                c = y;
            }
            return c.k == Class::Raw && c.w == bits ? c : Class{};
        }
        return {};
    }
    static const Value* plain(const Value* v)
    {
        for (;;) {
            if (auto* c = dyn_cast<CastInst>(v))
                v = c->getOperand(0);
            else
                return v;
        }
    }
    bool sameCounter(const Value* a, const Value* b)
    {
        a = plain(a), b = plain(b);
        if (a == b)
            return true;
        auto *x = dyn_cast<LoadInst>(a), *y = dyn_cast<LoadInst>(b);
        return x && y && sameAddress(x->getPointerOperand(), y->getPointerOperand());
    }
    struct Cmp { const Value *lo, *hi; bool strict; }; // lo <= hi / lo < hi holds
    static std::optional<Cmp> norm(const ICmpInst* c, bool truth)
    {
        auto pr = truth ? c->getPredicate() : c->getInversePredicate();
        switch (pr) {
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return Cmp{ c->getOperand(0), c->getOperand(1), false };
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return Cmp{ c->getOperand(0), c->getOperand(1), true };
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return Cmp{ c->getOperand(1), c->getOperand(0), false };
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return Cmp{ c->getOperand(1), c->getOperand(0), true };
        default: return std::nullopt;
        }
    }
    // membership of a circular window: min <= max decides between (min <= x and x <= max) and (x >= min or x <= max)
    void windows(const Function* f, const std::vector<const ICmpInst*>& cmps, std::set<const ICmpInst*>& allowed)
    {
        DominatorTree dt(*const_cast<Function*>(f));
        for (auto* sel : cmps) {
            auto* br = dyn_cast<BranchInst>(sel->getParent()->getTerminator());
            auto s = norm(sel, true);
            if (!br || !br->isConditional() || br->getCondition() != sel || !s || s->strict)
                continue;
            BasicBlockEdge in(sel->getParent(), br->getSuccessor(0)), out(sel->getParent(), br->getSuccessor(1));
            std::vector<const ICmpInst*> use;
            std::set<int> seen; // 1 inside low, 2 inside high, 4 outside low, 8 outside high
            std::set<const Value*> xs;
            bool ok = true;
            for (auto* c : cmps) {
                if (c == sel)
                    continue;
                bool i = dt.dominates(in, c->getParent()), o = dt.dominates(out, c->getParent());
                auto n = norm(c, true);
                if (!i && !o)
                    continue;
                if (!n || n->strict) {
                    ok = false;
                    continue;
                }
                if (sameCounter(n->lo, s->lo))
                    seen.insert(i ? 1 : 4), xs.insert(plain(n->hi));
                else if (sameCounter(n->hi, s->hi))
                    seen.insert(i ? 2 : 8), xs.insert(plain(n->lo));
                else
                    ok = false;
                use.push_back(c);
            }
            if (!ok || seen.size() != 4)
                continue;
            // inside: both must hold, outside: one suffices
            auto *c1 = find(use, dt, in, s->lo, true), *c2 = find(use, dt, in, s->hi, false), *c3 = find(use, dt, out, s->lo, true), *c4 = find(use, dt, out, s->hi, false);
            auto joined = [&](const ICmpInst* a, const ICmpInst* b, bool conj) {
                if (!a || !b)
                    return false;
                for (int k = 0; k < 2; k++, std::swap(a, b)) {
                    auto* br = dyn_cast<BranchInst>(a->getParent()->getTerminator());
                    if (br && br->isConditional() && br->getCondition() == a) {
                        BasicBlockEdge e(a->getParent(), br->getSuccessor(conj ? 0 : 1));
                        if (br->getSuccessor(0) != br->getSuccessor(1) && (br->getSuccessor(conj ? 0 : 1) == b->getParent() || dt.dominates(e, b->getParent())))
                            return true;
                    }
                    for (auto* u : a->users())
                        if (auto* bo = dyn_cast<Instruction>(u)) {
                            if (bo->getOpcode() == (conj ? Instruction::And : Instruction::Or) && (bo->getOperand(0) == b || bo->getOperand(1) == b))
                                return true;
                            if (auto* se = dyn_cast<SelectInst>(bo); se && se->getCondition() == a && (conj ? se->getTrueValue() == b : se->getFalseValue() == b))
                                return true;
                        }
                }
                return false;
            };
            if (!joined(c1, c2, true) || !joined(c3, c4, false))
                continue;
            allowed.insert(sel);
            for (auto* c : use)
                allowed.insert(c);
        }
    }
    const ICmpInst* find(const std::vector<const ICmpInst*>& use, DominatorTree& dt, const BasicBlockEdge& e, const Value* v, bool low)
    {
        for (auto* c : use) {
            auto n = norm(c, true);
            if (dt.dominates(e, c->getParent()) && sameCounter(low ? n->lo : n->hi, v))
                return c;
        }
        return nullptr;
    }
    void run()
    {
        for (auto* f : p.funcs)
            for (auto& i : instructions(f))
                if (auto* d = dyn_cast<DbgValueInst>(&i); d && !d->hasArgList() && counterName(d->getVariable()->getName().str()) && d->getExpression()->getNumElements() == 0)
                    if (auto w = naturalWidth(d->getVariable()->getType()); w && d->getValue() && d->getValue()->getType()->isIntegerTy(w) && !isa<Constant>(d->getValue()))
                        named[d->getValue()] = w;
        const char* rule = "wrapping counters are ordered by signed difference or extended value";
        int raw = 0, diff = 0;
        for (auto* f : p.funcs) {
            std::vector<const ICmpInst*> rawCmps;
            comparators(f);
            for (auto& i : instructions(f)) {
                if (auto* cb = asCall(&i)) {
                    sorts(f, cb);
                    continue;
                }
                auto* c = dyn_cast<ICmpInst>(&i);
                if (!c || c->isEquality() || !c->getOperand(0)->getType()->isIntegerTy())
                    continue;
                auto x = cls(c->getOperand(0)), y = cls(c->getOperand(1));
                auto bad = [&](const std::string& why) {
                    r.obligation(false);
                    r.viol(rule, Program::loc(c), p.name(f), why);
                };
                if (x.k == Class::Wide || y.k == Class::Wide) {
                    if (isa<ConstantInt>(c->getOperand(0)) || isa<ConstantInt>(c->getOperand(1)))
                        bad("a difference of wrapping counters is ordered without being reduced to their width");
                    continue;
                }
                if (x.k == Class::Raw && y.k != Class::Const && y.k != Class::Diff || y.k == Class::Raw && x.k != Class::Const && x.k != Class::Diff) {
                    // a loop running from one counter to a limit is as wrong as a comparison
                    rawCmps.push_back(c);
                    continue;
                }
                if (x.k == Class::Diff || y.k == Class::Diff) {
                    diff++;
                    auto *k = dyn_cast<ConstantInt>(c->getOperand(1)), *k0 = dyn_cast<ConstantInt>(c->getOperand(0));
                    auto pr = c->getPredicate();
                    bool decidesNothing = (k && ((k->isZero() && (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_UGE)) || (k->isOne() && pr == CmpInst::ICMP_ULT))) || (k0 && k0->isZero() && c->isUnsigned());
                    bool widened = c->isSigned() && k && !x.sgn && x.k == Class::Diff && c->getOperand(0)->getType()->getIntegerBitWidth() > x.w && k->getSExtValue() <= 0;
                    if (decidesNothing || widened)
                        bad("an unsigned difference of wrapping counters is ordered against zero");
                    else {
                        r.obligation(true);
                        r.site(rule, p.name(f) + " " + Program::loc(c));
                    }
                }
            }
            std::set<const ICmpInst*> allowed;
            if (!rawCmps.empty())
                windows(f, rawCmps, allowed);
            for (auto* c : rawCmps) {
                raw++;
                bool ok = allowed.count(c);
                r.obligation(ok);
                r.site("comparisons of unextended counters", p.name(f) + " " + Program::loc(c) + (ok ? " circular window" : ""));
                if (!ok)
                    r.viol(rule, Program::loc(c), p.name(f), "two wrapping counters are compared as they are");
            }
        }
        r.counts["comparisons of differences"] = diff;
        r.counts["comparisons of unextended counters"] = raw;
        r.need("sites on wrapping counters", diff + raw);
    }
    bool mentionsCounters(const Function* f)
    {
        for (auto& i : instructions(*f))
            if (auto* d = dyn_cast<DbgVariableIntrinsic>(&i); d && counterName(d->getVariable()->getName().str()) && d->getVariable()->getScope()->getSubprogram() == f->getSubprogram())
                return true;
        return false;
    }
    // an order given as a lambda in a function that works on counters
    void comparators(const Function* f)
    {
        auto* sp = f->getSubprogram();
        auto* cls = sp ? dyn_cast_or_null<DICompositeType>(sp->getScope()) : nullptr;
        auto* outer = cls ? dyn_cast_or_null<DILocalScope>(cls->getScope()) : nullptr;
        if (!outer)
            return;
        const Function* parent = nullptr;
        for (auto* g : p.funcs)
            if (g->getSubprogram() == outer->getSubprogram())
                parent = g;
        if (!parent || !mentionsCounters(parent))
            return;
        for (auto& i : instructions(f))
            if (auto* c = dyn_cast<ICmpInst>(&i); c && !c->isEquality()) {
                auto *a = dyn_cast<Argument>(plain(c->getOperand(0))), *b = dyn_cast<Argument>(plain(c->getOperand(1)));
                if (a && b && a != b && (a->getType()->isIntegerTy(16) || a->getType()->isIntegerTy(32)) && a->getType() == b->getType()) {
                    r.obligation(false);
                    r.viol("lists of wrapping counters are sorted by distance", Program::loc(c), p.name(f), "the order compares the raw values");
                }
            }
    }
    // std::sort without an order of its own on a list of counters
    void sorts(const Function* f, const CallBase* cb)
    {
        for (auto* t : p.callees(cb)) {
            auto n = p.fullName(t);
            auto m = p.name(t);
            if ((startsWith(m, "std::max<unsigned") || startsWith(m, "std::min<unsigned")) && cb->arg_size() == 2) {
                auto val = [&](const Value* a) {
                    for (auto* u : a->stripPointerCasts()->users())
                        if (auto* st = dyn_cast<StoreInst>(u); st && st->getPointerOperand() == a && st->getValueOperand()->getType()->isIntegerTy())
                            return cls(st->getValueOperand());
                    return Class{};
                };
                auto x = val(cb->getArgOperand(0)), y = val(cb->getArgOperand(1));
                if ((x.k == Class::Raw && y.k != Class::Const) || (y.k == Class::Raw && x.k != Class::Const)) {
                    r.obligation(false);
                    r.viol("wrapping counters are ordered by signed difference or extended value", Program::loc(cb), p.name(f), "the larger or smaller of two wrapping counters is taken as they are");
                }
            }
            if (!(startsWith(m, "std::sort<") || startsWith(m, "std::stable_sort<") || startsWith(m, "std::max_element<") || startsWith(m, "std::min_element<")) || cb->arg_size() != 2)
                continue;
            if (!contains(n, "<unsigned short*") && !contains(n, "<unsigned int*"))
                continue;
            if (mentionsCounters(f)) {
                r.obligation(false);
                r.viol("lists of wrapping counters are sorted by distance", Program::loc(cb), p.name(f), "sorted by raw value");
            }
        }
    }
};
} // namespace
void ruleC25(Program& p, Report& r)
{
    Wrap w{ p, r };
    w.run();
    r.assumptions.push_back("sequence and transmission numbers are recognised by the names of the members, variables and accessors that hold them (seq, tsn, ssn) and by their 16 or 32 bit unsigned type");
}
