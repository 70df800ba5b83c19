#include "flow.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <deque>

// field of an address; the engaged flag of an optional member is its own pseudo field "name?"
static FieldRef fieldOf(const Program& P, const Value* ptr)
{
    auto f = P.field(ptr);
    if (f && f.rest != 0)
        if (auto* t = dyn_cast_or_null<DICompositeType>(Program::strip(f.type)); t && t->getName().starts_with("optional<")) {
            f.name += "?";
            f.rest = 0;
        }
    return f;
}


std::string Range::str() const
{
    if (isConst())
        return std::to_string(lo);
    std::string s = "[" + (lo == INT64_MIN ? std::string("-inf") : std::to_string(lo)) + "," +
                    (hi == INT64_MAX ? std::string("inf") : std::to_string(hi)) + "]";
    return nz ? s + "\\0" : s;
}

namespace
{
// a storage cell or SSA value whose range is tracked
struct Key {
    const Value* v;      // SSA value, alloca or pointer argument; null for a class field
    int64_t off;         // -1: the SSA value itself; otherwise byte offset in the object
    std::string field;   // class field (object insensitive)
    bool operator<(const Key& o) const { return std::tie(v, off, field) < std::tie(o.v, o.off, o.field); }
    bool operator==(const Key& o) const { return v == o.v && off == o.off && field == o.field; }
};

struct State {
    FactSet facts = 0;
    FactSet killed = 0; // killed and not established again since entry
    void gen(FactSet f)
    {
        facts |= f;
        killed &= ~f;
    }
    void kill(FactSet f)
    {
        facts &= ~f;
        killed |= f;
    }
    std::map<Key, Range> env;
    std::map<const Value*, const Value*> alias; // phi -> incoming value
    const void* ctx = nullptr;                  // entry context id
    bool operator<(const State& o) const { return std::tie(facts, killed, env, alias) < std::tie(o.facts, o.killed, o.env, o.alias); }
    bool operator==(const State& o) const { return facts == o.facts && killed == o.killed && env == o.env && alias == o.alias; }
};

struct Exit {
    Range ret;
    FactSet facts = 0;
    FactSet kills = 0;
    std::vector<std::pair<std::pair<unsigned, int64_t>, Range>> mem; // (arg, off) -> range
    bool operator<(const Exit& o) const { return std::tie(ret, facts, kills, mem) < std::tie(o.ret, o.facts, o.kills, o.mem); }
    bool operator==(const Exit& o) const { return ret == o.ret && facts == o.facts && kills == o.kills && mem == o.mem; }
};

struct Summary {
    std::vector<Exit> exits;
    bool known = false;
    bool noReturn = false;
};

constexpr size_t kMaxStates = 240;
constexpr size_t kMaxExits = 64;
constexpr size_t kMaxEntries = 24;

class Engine
{
public:
    Engine(Program& p, FlowSpec& s)
        : P(p)
        , S(s)
    {
    }
    FlowResult run();

private:
    Program& P;
    FlowSpec& S;
    FlowResult R;
    std::map<const Function*, Summary> sums;
    std::map<const Function*, std::set<const Function*>> graph;
    std::vector<const Function*> order; // bottom-up
    std::map<const Function*, FactSet> mayGen; // facts a function may generate transitively
    std::map<const Function*, std::set<std::string>> mods; // tracked fields written transitively
    std::set<std::string> trackedFields;
    std::map<const Instruction*, FactSet> eventGen, eventKill;
    std::map<const Function*, std::set<const Function*>> reach;
    std::set<const Function*> inSCC; // recursive
    // per function caches
    std::map<const Function*, std::set<const Value*>> interesting;
    struct Entry {
        FactSet facts;
        std::vector<std::pair<unsigned, Range>> args;
        const CallBase* from = nullptr;
        const Entry* parent = nullptr;
    };
    std::map<const Function*, std::deque<Entry>> entries;

    bool collectMode = false; // second (top-down) phase

    void computeInteresting(const Function* f);
    bool isInteresting(const Value* v) { return interesting[cur].count(v) > 0; }
    const Function* cur = nullptr;
    std::map<const BasicBlock*, std::set<const Value*>> liveIn;
    void computeLive(const Function* f);

    std::optional<Key> memKey(const Value* ptr);
    std::vector<State> assume(State s, const Value* v, Range r, int depth = 0);
    void setRange(State& s, const Value* v, Range r);
    Range rangeOf(const State& s, const Value* v, int depth = 0);
    bool feasible = true;
    void gainNe(State& s, const Value* v, int64_t k);
    void gainFacts(State& s, const Value* v, const Range& r);
    std::vector<Exit> analyse(const Function* f, const std::vector<State>& entry);
    std::vector<State> step(const Instruction& i, State s);
    std::vector<State> doCall(const CallBase* cb, State s);
    bool argReadOnly(const CallBase* cb, const Value* a, const Function* t);
    Range errorCode(const CallBase* cb, const Function* t, const State& s);
    std::map<std::pair<const Function*, unsigned>, bool> readOnly;
    void normalise(std::vector<State>& v);
    void checkSink(const Instruction& i, const State& s);
    std::vector<const Function*> targets(const CallBase* cb);
    void report(const FlowSpec::Sink& k, const Instruction* at, const Function* f, const State& s, const std::string& extra);
    std::set<std::pair<std::string, std::string>> reported;
    std::set<std::pair<const FlowSpec::Sink*, const Instruction*>> seenSinks;
};

std::vector<const Function*> Engine::targets(const CallBase* cb)
{
    std::vector<const Function*> out;
    for (auto* t : P.callees(cb))
        out.push_back(t);
    return out;
}

std::optional<Key> Engine::memKey(const Value* ptr)
{
    APInt off(64, 0);
    const Value* b = ptr->stripAndAccumulateConstantOffsets(P.dl(), off, true);
    if (isa<AllocaInst>(b) || isa<GlobalVariable>(b))
        return Key{ b, off.getSExtValue(), "" };
    auto f = fieldOf(P, ptr);
    if (f && f.rest == 0 && trackedFields.count(f.str()))
        return Key{ nullptr, 0, f.str() };
    if (isa<Argument>(b))
        return Key{ b, off.getSExtValue(), "" };
    return std::nullopt;
}

void Engine::computeInteresting(const Function* f)
{
    if (interesting.count(f))
        return;
    auto& set = interesting[f];
    // values tested by branches / switches (transitively through boolean operators)
    std::map<const Value*, int> uses;
    std::vector<const Value*> work;
    auto push = [&](const Value* v) {
        if (isa<Constant>(v))
            return;
        if (++uses[v] == 1)
            work.push_back(v);
    };
    for (auto& bb : *f) {
        auto* t = bb.getTerminator();
        if (auto* b = dyn_cast<BranchInst>(t)) {
            if (b->isConditional())
                push(b->getCondition());
        } else if (auto* sw = dyn_cast<SwitchInst>(t)) {
            push(sw->getCondition());
        } else if (auto* r = dyn_cast<ReturnInst>(t)) {
            if (r->getReturnValue() && r->getReturnValue()->getType()->isIntegerTy())
                push(r->getReturnValue());
        }
    }
    while (!work.empty()) {
        auto* v = work.back();
        work.pop_back();
        if (auto* i = dyn_cast<Instruction>(v)) {
            if (isa<ICmpInst>(i)) {
                if (isa<Constant>(i->getOperand(1)))
                    push(i->getOperand(0));
                else if (isa<Constant>(i->getOperand(0)))
                    push(i->getOperand(1));
                else if (!S.cmps.empty() || !S.preds.empty())
                    for (auto& o : i->operands())
                        if (isa<SelectInst>(o) || isa<PHINode>(o))
                            push(o);
            } else if (isa<ZExtInst>(i) || isa<SExtInst>(i) || isa<TruncInst>(i) || isa<FreezeInst>(i)) {
                push(i->getOperand(0));
            } else if (isa<BinaryOperator>(i) && i->getType()->isIntegerTy()) {
                push(i->getOperand(0));
                push(i->getOperand(1));
            } else if (auto* s = dyn_cast<SelectInst>(i)) {
                push(s->getCondition());
                if (i->getType()->isIntegerTy()) {
                    push(s->getTrueValue());
                    push(s->getFalseValue());
                }
            } else if (auto* ph = dyn_cast<PHINode>(i)) {
                for (auto& in : ph->incoming_values())
                    push(in);
            }
        }
    }
    for (auto& [v, n] : uses) {
        if (!v->getType()->isIntegerTy() && !v->getType()->isPointerTy())
            continue;
        if (isa<CallBase>(v)) {
            auto* cb = cast<CallBase>(v);
            if (isa<IntrinsicInst>(cb))
                continue;
            bool want = n > 1;
            for (auto& c : S.calls)
                for (auto* t : targets(cb))
                    if (c.match(cb, t))
                        want = true;
            for (auto* t : targets(cb))
                if (mayGen[t])
                    want = true;
            if (want)
                set.insert(v);
        } else if (isa<PHINode>(v) || isa<SelectInst>(v)) {
            set.insert(v);
        } else if (auto* l = dyn_cast<LoadInst>(v)) {
            auto k = memKey(l->getPointerOperand());
            if (k)
                set.insert(v);
            else if (n > 1 && v->getType()->isIntegerTy(8))
                set.insert(v);
        } else if (isa<Argument>(v)) {
            set.insert(v);
        } else if (auto* c = dyn_cast<ICmpInst>(v)) {
            if (n > 1 || c->hasNUsesOrMore(2))
                set.insert(v);
        }
    }
}

void Engine::computeLive(const Function* f)
{
    liveIn.clear();
    // uses of interesting values by any instruction; operands reachable through non-interesting
    // boolean operators are attributed to the block of the operator
    std::map<const BasicBlock*, std::set<const Value*>> use, def;
    auto& in = interesting[f];
    std::function<void(const BasicBlock*, const Value*, int)> addUse = [&](const BasicBlock* bb, const Value* v, int d) {
        if (in.count(v)) {
            auto* i = dyn_cast<Instruction>(v);
            if (!i || i->getParent() != bb || isa<PHINode>(i))
                use[bb].insert(v);
        }
        if (d < 6)
            if (auto* i = dyn_cast<Instruction>(v))
                if (isa<ICmpInst>(i) || isa<CastInst>(i) || isa<BinaryOperator>(i) || isa<SelectInst>(i) || isa<FreezeInst>(i) || isa<PHINode>(i))
                    for (auto& o : i->operands())
                        addUse(bb, o, d + 1);
    };
    for (auto& bb : *f) {
        for (auto& i : bb) {
            if (in.count(&i))
                def[&bb].insert(&i);
            if (isa<PHINode>(i))
                continue;
            for (auto& o : i.operands())
                addUse(&bb, o, 0);
        }
        for (auto* s : successors(&bb))
            for (auto& ph : s->phis())
                addUse(&bb, ph.getIncomingValueForBlock(&bb), 0);
    }
    bool ch = true;
    while (ch) {
        ch = false;
        for (auto* bb : post_order(f)) {
            std::set<const Value*> o = use[bb];
            for (auto* s : successors(bb))
                for (auto* v : liveIn[s])
                    if (!def[bb].count(v) )
                        o.insert(v);
            // phis are defined at entry; keep them if used here
            auto& cur = liveIn[bb];
            if (o.size() != cur.size()) {
                cur = std::move(o);
                ch = true;
            }
        }
    }
    // phi values defined in the block itself stay live inside it
    for (auto& bb : *f)
        for (auto& ph : bb.phis())
            if (in.count(&ph))
                liveIn[&bb].insert(&ph);
}

void Engine::gainFacts(State& s, const Value* v, const Range& r)
{
    if (auto* cb = dyn_cast<CallBase>(v)) {
        for (auto* t : targets(cb))
            for (auto& c : S.calls)
                if (!c.when.isAll() && c.match(cb, t) && r.within(c.when))
                    s.gen(FactSet(1) << c.id);
    } else if (auto* l = dyn_cast<LoadInst>(v)) {
        auto f = fieldOf(P, l->getPointerOperand());
        if (f && f.rest == 0)
            for (auto& ff : S.fields)
                if (ff.match(f)) {
                    if (ff.holds(r))
                        s.gen(FactSet(1) << ff.id);
                    else if (ff.refuted(r))
                        s.kill(FactSet(1) << ff.id);
                }
    }
}

void Engine::gainNe(State& s, const Value* v, int64_t k)
{
    for (int d = 0; d < 6; d++) {
        auto a = s.alias.find(v);
        if (a != s.alias.end())
            v = a->second;
        else if (auto* c = dyn_cast<CastInst>(v); c && c->getOperand(0)->getType()->isIntegerTy() && !isa<TruncInst>(c))
            v = c->getOperand(0);
        else if (isa<FreezeInst>(v))
            v = cast<Instruction>(v)->getOperand(0);
        else
            break;
    }
    auto* l = dyn_cast<LoadInst>(v);
    if (!l)
        return;
    auto f = fieldOf(P, l->getPointerOperand());
    if (f && f.rest == 0)
        for (auto& ff : S.fields)
            if (ff.ne && ff.value == k && ff.match(f))
                s.gen(FactSet(1) << ff.id);
}

Range Engine::rangeOf(const State& s, const Value* v, int depth)
{
    if (auto* c = dyn_cast<ConstantInt>(v))
        return c->getBitWidth() == 1 ? Range::eq(c->isOne()) : Range::eq(c->getSExtValue());
    if (isa<ConstantPointerNull>(v))
        return Range::eq(0);
    auto it = s.env.find(Key{ v, -1, "" });
    if (it != s.env.end())
        return it->second;
    if (depth > 6)
        return Range::all();
    if (auto* c = dyn_cast<CastInst>(v); c && v->getType()->isIntegerTy()) {
        auto r = rangeOf(s, c->getOperand(0), depth + 1);
        if (isa<TruncInst>(c) && !(r.lo >= 0 && r.hi <= 127))
            return Range::all();
        if (isa<ZExtInst>(c) && r.lo < 0)
            return r.nz ? Range::nonzero() : Range::all();
        return r;
    }
    if (auto* c = dyn_cast<ICmpInst>(v)) {
        auto a = rangeOf(s, c->getOperand(0), depth + 1), b = rangeOf(s, c->getOperand(1), depth + 1);
        if (c->getPredicate() == ICmpInst::ICMP_EQ || c->getPredicate() == ICmpInst::ICMP_NE) {
            bool eq = c->getPredicate() == ICmpInst::ICMP_EQ;
            if (a.isConst() && b.isConst())
                return Range::eq((a.lo == b.lo) == eq);
            if (a.meet(b).empty())
                return Range::eq(!eq);
        } else if (a.isConst() && b.isConst() && a.lo >= 0 && b.lo >= 0) {
            return Range::eq(ICmpInst::compare(APInt(64, a.lo), APInt(64, b.lo), c->getPredicate()));
        }
        return { 0, 1, false };
    }
    if (auto* b = dyn_cast<BinaryOperator>(v); b && b->getType()->isIntegerTy(1)) {
        auto x = rangeOf(s, b->getOperand(0), depth + 1), y = rangeOf(s, b->getOperand(1), depth + 1);
        if (b->getOpcode() == Instruction::Xor && x.isConst() && y.isConst())
            return Range::eq((x.lo & 1) ^ (y.lo & 1));
        if (b->getOpcode() == Instruction::And) {
            if ((x.isConst() && x.lo == 0) || (y.isConst() && y.lo == 0))
                return Range::eq(0);
            if (x.isConst() && y.isConst())
                return Range::eq(1);
        }
        if (b->getOpcode() == Instruction::Or) {
            if ((x.isConst() && x.lo != 0) || (y.isConst() && y.lo != 0))
                return Range::eq(1);
            if (x.isConst() && y.isConst())
                return Range::eq(0);
        }
        return { 0, 1, false };
    }
    if (auto* se = dyn_cast<SelectInst>(v)) {
        auto c = rangeOf(s, se->getCondition(), depth + 1);
        if (c.isConst())
            return rangeOf(s, c.lo ? se->getTrueValue() : se->getFalseValue(), depth + 1);
        return rangeOf(s, se->getTrueValue(), depth + 1).join(rangeOf(s, se->getFalseValue(), depth + 1));
    }
    return Range::all();
}

static Range rangeFor(CmpInst::Predicate p, int64_t c)
{
    switch (p) {
    case CmpInst::ICMP_EQ:
        return Range::eq(c);
    case CmpInst::ICMP_NE:
        return c == 0 ? Range::nonzero() : Range::all();
    case CmpInst::ICMP_SGT:
        return Range::ge(c + 1);
    case CmpInst::ICMP_SGE:
        return Range::ge(c);
    case CmpInst::ICMP_SLT:
        return Range::le(c - 1);
    case CmpInst::ICMP_SLE:
        return Range::le(c);
    case CmpInst::ICMP_UGT:
        return c == 0 ? Range::nonzero() : c > 0 ? Range{INT64_MIN, INT64_MAX, true} : Range::all();
    case CmpInst::ICMP_UGE:
        return c > 0 ? Range::nonzero() : Range::all();
    case CmpInst::ICMP_ULT:
        return c > 0 ? Range{ 0, c - 1, false } : Range::all();
    case CmpInst::ICMP_ULE:
        return c >= 0 ? Range{ 0, c, false } : Range::all();
    default:
        return Range::all();
    }
}

std::vector<State> Engine::assume(State s, const Value* v, Range r, int depth)
{
    if (r.isAll())
        return { s };
    if (depth > 16)
        return { s };
    Range have = rangeOf(s, v);
    if (have.meet(r).empty())
        return {};
    if (isa<Constant>(v))
        return { s };
    const bool isBool = v->getType()->isIntegerTy(1);
    if (isBool) {
        // normalise to {0} or {1}
        bool t = !r.contains(0), f = !r.contains(1) && !r.contains(-1);
        if (!t && !f)
            return { s };
        r = Range::eq(t ? 1 : 0);
    }
    auto al = s.alias.find(v);
    std::vector<State> out;
    if (al != s.alias.end()) {
        auto* a = al->second;
        for (auto& x : assume(s, a, r, depth + 1)) {
            State y = x;
            if (isInteresting(v))
                y.env[Key{ v, -1, "" }] = rangeOf(y, v).meet(r);
            out.push_back(std::move(y));
        }
        return out;
    }
    if (auto* c = dyn_cast<ICmpInst>(v)) {
        bool truth = r.lo == 1;
        std::function<const Value*(const Value*)> res = [&](const Value* q) {
            for (int k = 0; k < 8; k++) {
                auto a = s.alias.find(q);
                if (a == s.alias.end())
                    break;
                q = a->second;
            }
            return q;
        };
        auto p = truth ? c->getPredicate() : c->getInversePredicate();
        const Value *a = c->getOperand(0), *b = c->getOperand(1);
        // fold "x == true" with a boolean known in the state
        if (!isa<Constant>(b)) {
            auto rb = rangeOf(s, b);
            auto ra = rangeOf(s, a);
            if (rb.isConst())
                out = assume(s, a, rangeFor(p, rb.lo), depth + 1);
            else if (ra.isConst())
                out = assume(s, b, rangeFor(CmpInst::getSwappedPredicate(p), ra.lo), depth + 1);
            else
                out = { s };
            if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
                for (auto& m : S.cmps)
                    if (m.ne == (p == CmpInst::ICMP_NE) && m.match(c, res))
                        for (auto& x : out)
                            x.gen(FactSet(1) << m.id);
        } else {
            int64_t k = 0;
            bool ok = true;
            if (auto* ci = dyn_cast<ConstantInt>(b))
                k = ci->getBitWidth() == 1 ? ci->isOne() : ci->getSExtValue();
            else if (!isa<ConstantPointerNull>(b))
                ok = false;
            if (ok) {
                out = assume(s, a, rangeFor(p, k), depth + 1);
                if (p == CmpInst::ICMP_NE)
                    for (auto& x : out)
                        gainNe(x, a, k);
                if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
                    for (auto& m : S.cmps)
                        if (m.ne == (p == CmpInst::ICMP_NE) && m.match(c, res))
                            for (auto& x : out)
                                x.gen(FactSet(1) << m.id);
            } else
                out = { s };
        }
        for (auto& m : S.preds)
            if (m.match(c, truth, res))
                for (auto& x : out)
                    x.gen(FactSet(1) << m.id);
    } else if (auto* b = dyn_cast<BinaryOperator>(v); b && isBool) {
        const Value *x = b->getOperand(0), *y = b->getOperand(1);
        bool t = r.lo == 1;
        auto both = [&](Range rx, Range ry) {
            for (auto& q : assume(s, x, rx, depth + 1))
                for (auto& z : assume(q, y, ry, depth + 1))
                    out.push_back(z);
        };
        Range T = Range::eq(1), F = Range::eq(0);
        switch (b->getOpcode()) {
        case Instruction::And:
            if (t)
                both(T, T);
            else {
                for (auto& q : assume(s, x, F, depth + 1))
                    out.push_back(q);
                both(T, F);
            }
            break;
        case Instruction::Or:
            if (!t)
                both(F, F);
            else {
                for (auto& q : assume(s, x, T, depth + 1))
                    out.push_back(q);
                both(F, T);
            }
            break;
        case Instruction::Xor:
            if (auto* cy = dyn_cast<ConstantInt>(y)) {
                out = assume(s, x, Range::eq(t ^ cy->isOne()), depth + 1);
                break;
            }
            if (t) {
                both(T, F);
                both(F, T);
            } else {
                both(T, T);
                both(F, F);
            }
            break;
        default:
            out = { s };
        }
    } else if (auto* se = dyn_cast<SelectInst>(v)) {
        for (auto& q : assume(s, se->getCondition(), Range::eq(1), depth + 1))
            for (auto& z : assume(q, se->getTrueValue(), r, depth + 1))
                out.push_back(z);
        for (auto& q : assume(s, se->getCondition(), Range::eq(0), depth + 1))
            for (auto& z : assume(q, se->getFalseValue(), r, depth + 1))
                out.push_back(z);
    } else if (auto* ca = dyn_cast<CastInst>(v); ca && v->getType()->isIntegerTy() && ca->getOperand(0)->getType()->isIntegerTy()) {
        auto* op = ca->getOperand(0);
        Range q = r;
        if (isBool && !op->getType()->isIntegerTy(1)) // trunc i8 -> i1 of a bool
            q = r.lo ? Range::nonzero() : Range::eq(0);
        out = assume(s, op, q, depth + 1);
    } else if (auto* bo = dyn_cast<BinaryOperator>(v); bo && bo->getOpcode() == Instruction::And && isa<ConstantInt>(bo->getOperand(1)) && !r.contains(0)) {
        out = assume(s, bo->getOperand(0), Range::nonzero(), depth + 1);
    } else if (isa<FreezeInst>(v)) {
        out = assume(s, cast<Instruction>(v)->getOperand(0), r, depth + 1);
    } else {
        out = { s };
    }
    for (auto& x : out) {
        Range nr = have.meet(r);
        if (isInteresting(v))
            x.env[Key{ v, -1, "" }] = nr;
        gainFacts(x, v, nr);
        if (auto* l = dyn_cast<LoadInst>(v)) {
            for (auto& m : S.loads)
                if (nr.within(m.when) && m.match(l))
                    x.gen(FactSet(1) << m.id);
            // the cell itself, if unchanged since the load within the block
            auto k = memKey(l->getPointerOperand());
            if (k) {
                auto it = x.env.find(*k);
                Range cell = it == x.env.end() ? Range::all() : it->second;
                x.env[*k] = cell.meet(nr);
            }
        }
    }
    return out;
}

// the callee only loads through this argument
bool Engine::argReadOnly(const CallBase* cb, const Value* a, const Function* t)
{
    for (unsigned n = 0; n < cb->arg_size() && n < t->arg_size(); n++) {
        if (cb->getArgOperand(n) != a)
            continue;
        auto key = std::make_pair(t, n);
        auto it = readOnly.find(key);
        if (it == readOnly.end()) {
            bool ok = true;
            std::vector<const Value*> work{ t->getArg(n) };
            for (size_t i = 0; ok && i < work.size() && i < 200; i++)
                for (auto* u : work[i]->users()) {
                    if (isa<GetElementPtrInst>(u))
                        work.push_back(u);
                    else if (auto* l = dyn_cast<LoadInst>(u))
                        ok &= !l->getType()->isPointerTy();
                    else if (!isa<ICmpInst>(u) && !isa<DbgInfoIntrinsic>(u))
                        ok = false;
                }
            it = readOnly.emplace(key, ok && work.size() < 200).first;
        }
        if (!it->second)
            return false;
    }
    return true;
}

// the code given to a constructor of srtc::Error
Range Engine::errorCode(const CallBase* cb, const Function* t, const State& s)
{
    if (cb->arg_size() < 2 || P.name(t) != "srtc::Error::Error")
        return Range::all();
    auto* a = cb->getArgOperand(1);
    if (a->getType()->isIntegerTy())
        return rangeOf(s, a);
    APInt off(64, 0);
    auto* b = a->stripAndAccumulateConstantOffsets(P.dl(), off, true);
    if (auto* gv = dyn_cast<GlobalVariable>(b); gv && off.isZero() && contains(llvm::Twine(gv->getName()).str(), "srtc5Error2OKE"))
        return Range::eq(0);
    auto it = s.env.find(Key{ b, off.getSExtValue(), "" });
    return it == s.env.end() ? Range::all() : it->second;
}

std::vector<State> Engine::doCall(const CallBase* cb, State s)
{
    std::vector<State> out;
    auto ts = targets(cb);
    // facts of the call itself
    for (auto* t : ts)
        for (auto& c : S.calls)
            if (c.when.isAll() && c.match(cb, t))
                s.gen(FactSet(1) << c.id);
    if (collectMode)
        for (auto* t : ts)
            if (!t->isDeclaration() && reach.count(t)) {
                Entry e;
                e.facts = s.facts;
                for (unsigned k = 0; k < cb->arg_size() && k < t->arg_size(); k++)
                    if (cb->getArgOperand(k)->getType()->isIntegerTy()) {
                        auto r = rangeOf(s, cb->getArgOperand(k));
                        if (r.isConst())
                            e.args.push_back({ k, r });
                    }
                e.from = cb;
                e.parent = static_cast<const Entry*>(s.ctx);
                auto& v = entries[t];
                bool dup = false;
                for (auto& x : v)
                    if (x.facts == e.facts && x.args == e.args) {
                        dup = true;
                        break;
                    }
                if (!dup) {
                    if (v.size() >= kMaxEntries * 4)
                        e.args.clear();
                    v.push_back(e);
                }
            }
    // memory possibly changed by the callee
    auto havoc = [&](State& st, const Function* t) {
        for (auto& a : cb->args())
            if (a->getType()->isPointerTy()) {
                APInt off(64, 0);
                auto* b = a->stripAndAccumulateConstantOffsets(P.dl(), off, true);
                // a member function of a subobject does not touch what precedes the subobject
                auto from = off.getSExtValue();
                if (t && !t->isDeclaration() && startsWith(P.name(t), "srtc::Error::") && argReadOnly(cb, a, t))
                    continue;
                for (auto it = st.env.begin(); it != st.env.end();)
                    if (it->first.v == b && it->first.off >= 0 && it->first.off >= from && it->first.field.empty() && !isa<GlobalVariable>(b))
                        it = st.env.erase(it);
                    else
                        ++it;
            }
        if (t) {
            auto& m = mods[t];
            for (auto it = st.env.begin(); it != st.env.end();)
                if (!it->first.v && m.count(it->first.field)) {
                    it = st.env.erase(it);
                } else
                    ++it;
            for (auto& ff : S.fields)
                for (auto& fn : m) {
                    auto pos = fn.rfind("::");
                    FieldRef fr;
                    fr.cls = fn.substr(0, pos);
                    fr.name = fn.substr(pos + 2);
                    if (ff.match(fr))
                        st.kill(FactSet(1) << ff.id);
                }
        }
    };
    if (isInteresting(cb))
        s.env.erase(Key{ cb, -1, "" });
    if (ts.empty()) {
        havoc(s, nullptr);
        return { s };
    }
    for (auto* t : ts) {
        auto it = sums.find(t);
        if (t->doesNotReturn())
            continue;
        if (it == sums.end() || !it->second.known || t->isDeclaration()) {
            State x = s;
            havoc(x, t);
            out.push_back(std::move(x));
            continue;
        }
        const auto code = errorCode(cb, t, s);
        for (auto& e : it->second.exits) {
            State x = s;
            havoc(x, t);
            bool impossible = false;
            x.kill(e.kills);
            x.gen(e.facts);
            if (cb->getType()->isIntegerTy() || cb->getType()->isPointerTy()) {
                if (!e.ret.isAll()) {
                    if (isInteresting(cb))
                        x.env[Key{ cb, -1, "" }] = e.ret;
                    gainFacts(x, cb, e.ret);
                }
            }
            for (auto& [k, r] : e.mem)
                if (k.first < cb->arg_size()) {
                    APInt off(64, 0);
                    auto* b = cb->getArgOperand(k.first)->stripAndAccumulateConstantOffsets(P.dl(), off, true);
                    if (isa<AllocaInst>(b) || isa<Argument>(b)) {
                        Key key{ b, off.getSExtValue() + k.second, "" };
                        auto old = x.env.find(key);
                        if (old != x.env.end()) {
                            // the callee only reads it, so the value is the one before the call
                            old->second = old->second.meet(r);
                            impossible |= old->second.empty();
                        } else
                            x.env[key] = r;
                    }
                }
            if (impossible)
                continue;
            if (!code.isAll()) {
                APInt off(64, 0);
                auto* b = cb->getArgOperand(0)->stripAndAccumulateConstantOffsets(P.dl(), off, true);
                if (isa<AllocaInst>(b) || isa<Argument>(b))
                    x.env[Key{ b, off.getSExtValue(), "" }] = code;
            }
            out.push_back(std::move(x));
        }
    }
    return out;
}

void Engine::report(const FlowSpec::Sink& k, const Instruction* at, const Function* f, const State& s, const std::string& extra)
{
    auto where = Program::loc(at);
    if (!reported.insert({ k.rule, where }).second)
        return;
    FlowViolation v;
    v.rule = k.rule;
    v.where = where;
    v.fn = P.name(f);
    std::string held;
    for (size_t i = 0; i < S.factNames.size(); i++)
        if (s.facts >> i & 1)
            held += (held.empty() ? "" : ", ") + S.factNames[i];
    v.detail = "facts held on this path: {" + held + "}" + extra;
    for (auto* e = static_cast<const Entry*>(s.ctx); e && e->from; e = e->parent) {
        v.chain.push_back(P.name(e->from->getFunction()) + " (" + Program::loc(e->from) + ")");
        if (v.chain.size() > 24)
            break;
    }
    R.violations.push_back(std::move(v));
}

void Engine::checkSink(const Instruction& i, const State& s)
{
    if (!collectMode)
        return;
    for (auto& k : S.sinks) {
        if (k.ret) {
            auto* r = dyn_cast<ReturnInst>(&i);
            if (!r || !k.retFn(i.getFunction()))
                continue;
            if (seenSinks.insert({ &k, &i }).second) {
                R.sinkCount[k.rule]++;
                R.sinkSites[k.rule].push_back(P.name(i.getFunction()) + " " + Program::loc(&i));
            }
            std::vector<State> xs = r->getReturnValue() ? assume(s, r->getReturnValue(), k.retRange) : std::vector<State>{ s };
            for (auto& x : xs)
                if (!k.ok(x.facts))
                    report(k, &i, i.getFunction(), x, "");
            continue;
        }
        if (!k.match(&i))
            continue;
        if (seenSinks.insert({ &k, &i }).second) {
            R.sinkCount[k.rule]++;
            R.sinkSites[k.rule].push_back(P.name(i.getFunction()) + " " + Program::loc(&i));
        }
        bool ok = k.okAt ? k.okAt(&i, s.facts) : k.ok(s.facts);
        if (!ok)
            report(k, &i, i.getFunction(), s, "");
    }
}

std::vector<State> Engine::step(const Instruction& i, State s)
{
    if (isa<DbgInfoIntrinsic>(i) || isa<PHINode>(i))
        return { s };
    checkSink(i, s);
    if (auto it = eventKill.find(&i); it != eventKill.end())
        s.kill(it->second);
    if (auto it = eventGen.find(&i); it != eventGen.end())
        s.gen(it->second);
    if (auto* cb = dyn_cast<CallBase>(&i)) {
        if (isa<IntrinsicInst>(cb))
            return { s };
        return doCall(cb, std::move(s));
    }
    if (auto* st = dyn_cast<StoreInst>(&i)) {
        auto k = memKey(st->getPointerOperand());
        auto f = fieldOf(P, st->getPointerOperand());
        Range r = rangeOf(s, st->getValueOperand());
        if (f && f.rest == 0)
            for (auto& ff : S.fields)
                if (ff.match(f)) {
                    if (ff.holds(r) && !r.isAll())
                        s.gen(FactSet(1) << ff.id);
                    else
                        s.kill(FactSet(1) << ff.id);
                }
        if (k) {
            if (r.isAll() || !(st->getValueOperand()->getType()->isIntegerTy() || st->getValueOperand()->getType()->isPointerTy()))
                s.env.erase(*k);
            else
                s.env[*k] = r;
        }
        return { s };
    }
    if (auto* l = dyn_cast<LoadInst>(&i)) {
        s.env.erase(Key{ l, -1, "" });
        if (auto k = memKey(l->getPointerOperand())) {
            auto it = s.env.find(*k);
            if (it != s.env.end() && (l->getType()->isIntegerTy() || l->getType()->isPointerTy()))
                s.env[Key{ l, -1, "" }] = it->second;
            else if (auto* gv = dyn_cast_or_null<GlobalVariable>(k->v); gv && k->off == 0 && l->getType()->isIntegerTy(32) &&
                     contains(llvm::Twine(gv->getName()).str(), "srtc5Error2OKE"))
                s.env[Key{ l, -1, "" }] = Range::eq(0);
        }
        return { s };
    }
    if (auto* se = dyn_cast<SelectInst>(&i); se && isInteresting(se) && !isa<Constant>(se->getCondition())) {
        std::vector<State> out;
        for (int side = 1; side >= 0; side--)
            for (auto& x : assume(s, se->getCondition(), Range::eq(side))) {
                auto* v = side ? se->getTrueValue() : se->getFalseValue();
                auto rg = rangeOf(x, v);
                x.env.erase(Key{ se, -1, "" });
                x.alias.erase(se);
                if (!rg.isAll())
                    x.env[Key{ se, -1, "" }] = rg;
                if (!isa<Constant>(v)) {
                    auto a = x.alias.find(v);
                    x.alias[se] = a != x.alias.end() ? a->second : v;
                } else
                    x.alias[se] = v;
                out.push_back(std::move(x));
            }
        return out;
    }
    if (isInteresting(&i)) {
        s.env.erase(Key{ &i, -1, "" });
        for (auto it = s.alias.begin(); it != s.alias.end();)
            if (it->second == &i) {
                it = s.alias.erase(it);
            } else
                ++it;
    }
    return { s };
}

void Engine::normalise(std::vector<State>& v)
{
    if (collectMode)
        for (auto& s : v)
            s.killed = 0;
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.size() <= kMaxStates)
        return;
    R.widened++;
    // join environments of states with equal facts and context
    std::vector<State> w;
    for (auto& s : v) {
        if (!w.empty() && w.back().facts == s.facts && w.back().killed == s.killed) {
            auto& a = w.back();
            for (auto it = a.env.begin(); it != a.env.end();) {
                auto o = s.env.find(it->first);
                if (o == s.env.end()) {
                    it = a.env.erase(it);
                    continue;
                }
                it->second = it->second.join(o->second);
                if (it->second.isAll())
                    it = a.env.erase(it);
                else
                    ++it;
            }
            for (auto it = a.alias.begin(); it != a.alias.end();) {
                auto o = s.alias.find(it->first);
                if (o == s.alias.end() || o->second != it->second)
                    it = a.alias.erase(it);
                else
                    ++it;
            }
        } else
            w.push_back(s);
    }
    v = std::move(w);
    // drop contexts
    if (v.size() > kMaxStates) {
        for (auto& s : v) {
            s.env.clear();
            s.alias.clear();
        }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
    }
}

std::vector<Exit> Engine::analyse(const Function* f, const std::vector<State>& entry)
{
    cur = f;
    computeInteresting(f);
    computeLive(f);
    std::map<const BasicBlock*, std::set<State>> in;
    std::vector<Exit> exits;
    ReversePostOrderTraversal<const Function*> rpo(f);
    std::map<const BasicBlock*, int> pos;
    int n = 0;
    for (auto* bb : rpo)
        pos[bb] = n++;
    std::map<int, const BasicBlock*> work;
    std::map<const BasicBlock*, std::vector<State>> todo;
    todo[&f->getEntryBlock()] = entry;
    work[0] = &f->getEntryBlock();
    std::map<const BasicBlock*, int> visits;
    while (!work.empty()) {
        auto* bb = work.begin()->second;
        work.erase(work.begin());
        auto fresh = std::move(todo[bb]);
        todo[bb].clear();
        normalise(fresh);
        auto& seen = in[bb];
        std::vector<State> now;
        for (auto& s : fresh)
            if (seen.insert(s).second)
                now.push_back(s);
        if (seen.size() > kMaxStates * 3) {
            // too many: keep facts only
            R.widened++;
            for (auto& s : now) {
                s.env.clear();
                s.alias.clear();
            }
            std::vector<State> keep;
            for (auto& s : now)
                if (seen.insert(s).second || visits[bb] == 0)
                    keep.push_back(s);
            std::sort(keep.begin(), keep.end());
            keep.erase(std::unique(keep.begin(), keep.end()), keep.end());
            now = keep;
        }
        visits[bb]++;
        if (now.empty())
            continue;
        R.states += now.size();
        for (auto& i : *bb) {
            if (i.isTerminator())
                break;
            std::vector<State> next;
            for (auto& s : now)
                for (auto& x : step(i, std::move(s)))
                    next.push_back(std::move(x));
            if (next.size() > 1)
                normalise(next);
            now = std::move(next);
            if (now.empty())
                break;
        }
        if (now.empty())
            continue;
        auto* t = bb->getTerminator();
        auto go = [&](const BasicBlock* to, const State& s0) {
            State s = s0;
            // phis
            std::vector<std::pair<const PHINode*, std::pair<Range, const Value*>>> upd;
            for (auto& ph : to->phis()) {
                if (!isInteresting(&ph))
                    continue;
                auto* v = ph.getIncomingValueForBlock(bb);
                const Value* al = nullptr;
                if (!isa<Constant>(v) || (!S.cmps.empty() || !S.preds.empty())) {
                    al = v;
                    if (auto a = s0.alias.find(v); a != s0.alias.end())
                        al = a->second;
                }
                upd.push_back({ &ph, { rangeOf(s0, v), al } });
            }
            for (auto& [ph, u] : upd) {
                s.alias.erase(ph);
                if (u.first.isAll())
                    s.env.erase(Key{ ph, -1, "" });
                else
                    s.env[Key{ ph, -1, "" }] = u.first;
                if (u.second && u.second != ph)
                    s.alias[ph] = u.second;
            }
            auto& live = liveIn[to];
            for (auto it = s.env.begin(); it != s.env.end();)
                if (it->first.v && it->first.off == -1 && !live.count(it->first.v)) {
                    bool aliased = false;
                    for (auto& a : s.alias)
                        if (a.second == it->first.v && live.count(a.first))
                            aliased = true;
                    if (aliased)
                        ++it;
                    else
                        it = s.env.erase(it);
                } else
                    ++it;
            for (auto it = s.alias.begin(); it != s.alias.end();)
                if (!live.count(it->first))
                    it = s.alias.erase(it);
                else
                    ++it;
            todo[to].push_back(std::move(s));
            work[pos[to]] = to;
        };
        for (auto& s : now) {
            if (auto* r = dyn_cast<ReturnInst>(t)) {
                checkSink(*t, s);
                if (auto it = eventKill.find(t); it != eventKill.end())
                    s.kill(it->second);
                if (auto it = eventGen.find(t); it != eventGen.end())
                    s.gen(it->second);
                auto emit = [&](const State& x, Range ret) {
                    Exit e;
                    e.ret = ret;
                    e.facts = x.facts;
                    e.kills = x.killed;
                    for (auto& [k, v] : x.env)
                        if (auto* a = dyn_cast_or_null<Argument>(k.v); a && k.off >= 0 && k.field.empty())
                            e.mem.push_back({ { a->getArgNo(), k.off }, v });
                    exits.push_back(std::move(e));
                };
                auto* rv = r->getReturnValue();
                if (rv && (rv->getType()->isIntegerTy() || rv->getType()->isPointerTy())) {
                    auto rg = rangeOf(s, rv);
                    if (rg.isConst()) {
                        // facts implied by the value (e.g. returns a comparison)
                        for (auto& x : assume(s, rv, rg))
                            emit(x, rg);
                    } else {
                        for (auto& x : assume(s, rv, Range::eq(0)))
                            emit(x, Range::eq(0));
                        for (auto& x : assume(s, rv, Range::nonzero())) {
                            Range q = rangeOf(x, rv).meet(Range::nonzero());
                            if (rv->getType()->isIntegerTy(1))
                                q = Range::eq(1);
                            if (rv->getType()->isIntegerTy(32) && !q.isConst()) {
                                // split positive / negative so that "> 0" tests see the facts
                                for (auto& y : assume(x, rv, Range::ge(1)))
                                    emit(y, q.meet(Range::ge(1)));
                                for (auto& y : assume(x, rv, Range::le(-1)))
                                    emit(y, q.meet(Range::le(-1)));
                            } else
                                emit(x, q);
                        }
                    }
                } else
                    emit(s, Range::all());
            } else if (auto* b = dyn_cast<BranchInst>(t)) {
                if (b->isUnconditional())
                    go(b->getSuccessor(0), s);
                else {
                    for (auto& x : assume(s, b->getCondition(), Range::eq(1)))
                        go(b->getSuccessor(0), x);
                    for (auto& x : assume(s, b->getCondition(), Range::eq(0)))
                        go(b->getSuccessor(1), x);
                }
            } else if (auto* sw = dyn_cast<SwitchInst>(t)) {
                auto rg = rangeOf(s, sw->getCondition());
                bool covered = false;
                for (auto& c : sw->cases()) {
                    auto k = c.getCaseValue()->getSExtValue();
                    if (rg.isConst() && rg.lo == k)
                        covered = true;
                    for (auto& x : assume(s, sw->getCondition(), Range::eq(k)))
                        go(c.getCaseSuccessor(), x);
                }
                if (!covered) {
                    bool zeroCase = false;
                    for (auto& c : sw->cases())
                        zeroCase |= c.getCaseValue()->isZero();
                    auto dflt = zeroCase ? assume(s, sw->getCondition(), Range::nonzero()) : std::vector<State>{ s };
                    for (auto& x : dflt) {
                        for (auto& c : sw->cases())
                            gainNe(x, sw->getCondition(), c.getCaseValue()->getSExtValue());
                        go(sw->getDefaultDest(), x);
                    }
                }
            } else {
                for (auto* su : successors(bb))
                    go(su, s);
            }
        }
    }
    // merge exits
    std::sort(exits.begin(), exits.end());
    exits.erase(std::unique(exits.begin(), exits.end()), exits.end());
    if (exits.size() > kMaxExits) {
        std::vector<Exit> w;
        for (auto e : exits) {
            e.mem.clear();
            w.push_back(e);
        }
        std::sort(w.begin(), w.end());
        w.erase(std::unique(w.begin(), w.end()), w.end());
        if (w.size() > kMaxExits) {
            R.widened++;
            std::map<Range, std::pair<FactSet, FactSet>> m;
            for (auto& e : w) {
                auto it = m.find(e.ret);
                if (it == m.end())
                    m[e.ret] = { e.facts, e.kills };
                else {
                    it->second.first &= e.facts;
                    it->second.second |= e.kills;
                }
            }
            w.clear();
            for (auto& [k, fs] : m) {
                Exit e;
                e.ret = k;
                e.facts = fs.first;
                e.kills = fs.second & ~fs.first;
                w.push_back(e);
            }
        }
        exits = w;
    }
    return exits;
}

FlowResult Engine::run()
{
    if (!S.only.empty()) {
        for (auto* f : S.only)
            for (auto& i : instructions(f)) {
                for (auto& e : S.events)
                    if (e.match(&i)) {
                        R.factSites[e.id]++;
                        if (e.gens)
                            eventGen[&i] |= FactSet(1) << e.id;
                        eventKill[&i] |= e.kills;
                    }
                if (auto* cb = dyn_cast<CallBase>(&i))
                    for (auto* t : targets(cb))
                        for (auto& c : S.calls)
                            if (c.match(cb, t))
                                R.factSites[c.id]++;
            }
        collectMode = true;
        for (auto* f : S.only) {
            State s;
            analyse(f, { s });
            R.functions++;
        }
        R.factNames = S.factNames;
        return R;
    }
    // relevant functions: reach project code
    std::map<const Function*, std::set<const Function*>> callers;
    for (auto* f : P.all) {
        if (S.skip && S.skip(f))
            continue;
        for (auto& i : instructions(f))
            if (auto* cb = dyn_cast<CallBase>(&i)) {
                if (isa<IntrinsicInst>(cb))
                    continue;
                for (auto* t : targets(cb)) {
                    graph[f].insert(t);
                    callers[t].insert(f);
                }
            }
    }
    std::deque<const Function*> q;
    for (auto* f : P.funcs)
        q.push_back(f);
    while (!q.empty()) {
        auto* f = q.front();
        q.pop_front();
        if (reach.count(f))
            continue;
        reach[f];
        for (auto* c : callers[f])
            q.push_back(c);
    }
    // bottom-up order (iterative DFS post order), recursion detection through Tarjan
    std::map<const Function*, int> idx, low;
    std::vector<const Function*> stk;
    std::set<const Function*> on;
    int counter = 0;
    std::function<void(const Function*)> scc = [&](const Function* f) {
        idx[f] = low[f] = ++counter;
        stk.push_back(f);
        on.insert(f);
        for (auto* t : graph[f]) {
            if (t->isDeclaration())
                continue;
            if (!idx.count(t)) {
                scc(t);
                low[f] = std::min(low[f], low[t]);
            } else if (on.count(t))
                low[f] = std::min(low[f], idx[t]);
        }
        if (low[f] == idx[f]) {
            std::vector<const Function*> comp;
            const Function* w;
            do {
                w = stk.back();
                stk.pop_back();
                on.erase(w);
                comp.push_back(w);
            } while (w != f);
            for (auto* c : comp) {
                if (comp.size() > 1 || graph[c].count(c))
                    inSCC.insert(c);
                order.push_back(c);
            }
        }
    };
    for (auto* f : P.all)
        if (!idx.count(f))
            scc(f);

    // tracked fields: those with facts, plus small integral members tested in conditions
    for (auto* f : P.funcs)
        for (auto& i : instructions(f)) {
            const Value* ptr = nullptr;
            Type* ty = nullptr;
            if (auto* st = dyn_cast<StoreInst>(&i)) {
                ptr = st->getPointerOperand();
                ty = st->getValueOperand()->getType();
            } else if (auto* l = dyn_cast<LoadInst>(&i)) {
                ptr = l->getPointerOperand();
                ty = l->getType();
            }
            if (!ptr)
                continue;
            auto fr = fieldOf(P, ptr);
            if (!fr || fr.rest != 0)
                continue;
            bool want = false;
            for (auto& ff : S.fields)
                if (ff.match(fr))
                    want = true;
            (void)ty;
            if (want)
                trackedFields.insert(fr.str());
        }
    // direct mods and generated facts
    for (auto* f : P.all) {
        FactSet g = 0;
        for (auto& i : instructions(f)) {
            for (auto& e : S.events)
                if (e.match(&i)) {
                    R.factSites[e.id]++;
                    if (e.gens) {
                        eventGen[&i] |= FactSet(1) << e.id;
                        g |= FactSet(1) << e.id;
                    }
                    eventKill[&i] |= e.kills;
                    g |= e.kills;
                }
            if (auto* st = dyn_cast<StoreInst>(&i)) {
                auto fr = fieldOf(P, st->getPointerOperand());
                if (fr && fr.rest == 0 && trackedFields.count(fr.str())) {
                    mods[f].insert(fr.str());
                    for (auto& ff : S.fields)
                        if (ff.match(fr)) {
                            g |= FactSet(1) << ff.id;
                            R.factSites[ff.id]++;
                        }
                }
            } else if (auto* l = dyn_cast<LoadInst>(&i)) {
                auto fr = fieldOf(P, l->getPointerOperand());
                if (fr && fr.rest == 0)
                    for (auto& ff : S.fields)
                        if (ff.match(fr)) {
                            g |= FactSet(1) << ff.id;
                            R.factSites[ff.id]++;
                        }
            } else if (auto* c = dyn_cast<ICmpInst>(&i)) {
                for (auto& m : S.cmps)
                    if (m.match(c, [](const Value* q) { return q; })) {
                        g |= FactSet(1) << m.id;
                        R.factSites[m.id]++;
                    }
                for (auto& m : S.preds)
                    for (bool truth : { true, false })
                        if (m.match(c, truth, [](const Value* q) { return q; })) {
                            g |= FactSet(1) << m.id;
                            R.factSites[m.id]++;
                        }
            } else if (auto* l = dyn_cast<LoadInst>(&i)) {
                for (auto& m : S.loads)
                    if (m.match(l)) {
                        g |= FactSet(1) << m.id;
                        R.factSites[m.id]++;
                    }
            } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                for (auto* t : targets(cb))
                    for (auto& c : S.calls)
                        if (c.match(cb, t)) {
                            g |= FactSet(1) << c.id;
                            R.factSites[c.id]++;
                        }
            }
        }
        mayGen[f] = g;
    }
    for (bool ch = true; ch;) {
        ch = false;
        for (auto* f : order) {
            if (f->isDeclaration())
                continue;
            FactSet g = mayGen[f];
            auto& m = mods[f];
            size_t before = m.size();
            for (auto* t : graph[f]) {
                g |= mayGen[t];
                auto mt = mods.find(t);
                if (mt != mods.end() && t != f)
                    m.insert(mt->second.begin(), mt->second.end());
            }
            if (g != mayGen[f] || m.size() != before) {
                mayGen[f] = g;
                ch = true;
            }
        }
    }
    // sinks make their functions relevant; summaries are needed where facts may be generated
    for (auto* f : order) {
        if (f->isDeclaration())
            continue;
        if (!mayGen[f] && !P.isProject(f))
            continue;
        if (inSCC.count(f))
            continue; // no facts assumed from recursive functions
        if (!mayGen[f]) {
            // still useful: constant returns / Error outputs
            bool small = f->size() <= 12;
            if (!small)
                continue;
        }
        State s;
        Summary sm;
        sm.exits = analyse(f, { s });
        // contexts do not leak into summaries
        if (const char* d = getenv("SA_DUMP"))
            if (contains(P.name(f), d)) {
                errs() << "summary " << P.name(f) << "\n";
                for (auto& e : sm.exits) {
                    errs() << "   ret " << e.ret.str() << " facts";
                    for (size_t i = 0; i < S.factNames.size(); i++)
                        if (e.facts >> i & 1)
                            errs() << " [" << S.factNames[i] << "]";
                    errs() << " kills";
                    for (size_t i = 0; i < S.factNames.size(); i++)
                        if (e.kills >> i & 1)
                            errs() << " [" << S.factNames[i] << "]";
                    errs() << " mem " << e.mem.size() << "\n";
                }
            }
        sm.known = true;
        sm.noReturn = sm.exits.empty();
        sums[f] = std::move(sm);
    }
    // top-down
    collectMode = true;
    std::vector<const Function*> td(order.rbegin(), order.rend());
    for (auto* f : td) {
        if (f->isDeclaration() || !reach.count(f))
            continue;
        if (S.skip && S.skip(f))
            continue;
        auto& es = entries[f];
        bool root = P.callersOf(f).empty() || (P.addressTaken(f)) || (S.isRoot && S.isRoot(f));
        if (root || es.empty())
            es.push_back(Entry{});
        if (es.size() > kMaxEntries) {
            std::deque<Entry> w;
            for (auto e : es) {
                e.args.clear();
                bool dup = false;
                for (auto& x : w)
                    if (x.facts == e.facts) {
                        dup = true;
                        break;
                    }
                if (!dup)
                    w.push_back(e);
            }
            es = w;
        }
        std::vector<State> init;
        for (auto& e : es) {
            State s;
            s.facts = e.facts;
            s.ctx = &e;
            cur = f;
            computeInteresting(f);
            for (auto& [k, r] : e.args)
                if (k < f->arg_size() && isInteresting(f->getArg(k)))
                    s.env[Key{ f->getArg(k), -1, "" }] = r;
            init.push_back(s);
        }
        analyse(f, init);
        R.functions++;
    }
    for (auto& k : S.sinks)
        R.sinkCount[k.rule];
    return R;
}
} // namespace

FlowResult runFlow(Program& p, FlowSpec& spec)
{
    Engine e(p, spec);
    return e.run();
}
