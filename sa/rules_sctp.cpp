// C20 sent data channel fragments stay queued, with the timer armed, until acknowledged
// C21 a data chunk is passed on once
#include "rules.h"
#include "rules_util.h"

namespace
{
constexpr FactSet B(int i) { return FactSet(1) << i; }
const char* kCls = "srtc::sctp::SctpSession";

bool inSession(Program& p, const Function* f) { return startsWith(p.name(f), "srtc::sctp::SctpSession::") || startsWith(p.fullName(f), "srtc::sctp::SctpSession::"); }
bool isField(const FieldRef& r, const char* name) { return r.cls == kCls && r.name == name; }

std::function<bool(const Value*)> memo(std::function<bool(const Value*)> f)
{
    auto known = std::make_shared<std::map<const Value*, bool>>();
    return [known, f](const Value* v) {
        auto it = known->find(v);
        if (it == known->end())
            it = known->emplace(v, f(v)).first;
        return it->second;
    };
}

// the value behind integer casts
const Value* bare(const Value* v)
{
    while (auto* c = dyn_cast<CastInst>(v)) {
        if (!c->getType()->isIntegerTy() || !c->getOperand(0)->getType()->isIntegerTy())
            break;
        v = c->getOperand(0);
    }
    return v;
}

// is the value narrowed below 32 bits on the way from the operation behind it
bool narrowed(const Value* v)
{
    while (auto* c = dyn_cast<CastInst>(v)) {
        if (c->getType()->isIntegerTy() && c->getType()->getIntegerBitWidth() < 32)
            return true;
        v = c->getOperand(0);
    }
    return v->getType()->isIntegerTy() && v->getType()->getIntegerBitWidth() < 32;
}

// a call of a container's member function on the given member
struct Container {
    Program& p;
    const char* field;
    const CallBase* on(const Instruction* i) const
    {
        auto* cb = asCall(i);
        if (!cb || !cb->arg_size() || !cb->getCalledFunction())
            return nullptr;
        for (unsigned n = 0; n < 2 && n < cb->arg_size(); n++)
            if (cb->getArgOperand(n)->getType()->isPointerTy() && isField(p.field(cb->getArgOperand(n)), field) && (n == 0 || cb->hasStructRetAttr()))
                return cb;
        return nullptr;
    }
    bool call(const Instruction* i, std::initializer_list<const char*> names) const
    {
        auto* cb = on(i);
        if (!cb)
            return false;
        auto n = p.name(cb->getCalledFunction());
        auto k = n.rfind("::");
        auto last = k == std::string::npos ? n : n.substr(k + 2);
        if (auto a = last.find("[abi"); a != std::string::npos)
            last = last.substr(0, a);
        if (auto a = last.find('<'); a != std::string::npos && a)
            last = last.substr(0, a);
        for (auto* x : names)
            if (last == x)
                return true;
        return false;
    }
};

// the comparison holds with L op R; op one of "slt sle sgt sge ult ule ugt uge eq ne"
CmpInst::Predicate under(const ICmpInst* c, bool truth) { return truth ? c->getPredicate() : c->getInversePredicate(); }

bool listenerCall(Program& p, const Instruction* i, const char* what)
{
    return callTo(p, i, [&](const Function* f) { return contains(p.name(f), what); });
}
} // namespace

void ruleC20(Program& p, Report& r)
{
    FlowSpec s;
    const int closed = s.fact("every transmission number taken was stored for retransmission");
    const int inv = s.fact("the timer runs or nothing is outstanding");
    const int armed = s.fact("the timer was started");
    const int empty = s.fact("nothing is outstanding");
    const int fresh = s.fact("nothing was added since the queue was looked at");
    const int some = s.fact("something was outstanding");
    const int fired = s.fact("the timer fired");
    const int fired0 = s.fact("the timer fired, nothing added");
    const int built = s.fact("a stored fragment was put into a packet");
    const int sent = s.fact("a packet was sent");
    const int cum = s.fact("the fragment is at or below the acknowledged number");
    const int ge = s.fact("the fragment is not below the acknowledged block");
    const int le = s.fact("the fragment is not above the acknowledged block");

    Container q{ p, "mSentChunks" };
    // functions entered from outside
    std::set<const Function*> outer, timer, stores;
    auto isSubmit = resultOf(p, { "srtc::ScopedScheduler::submit", "srtc::RealScheduler::submit" });
    auto submitted = [&p](const Value* v) {
        return derivesFrom(p, v, [&p](const Value* x) {
            auto* cb = dyn_cast<CallBase>(x);
            if (!cb)
                return false;
            for (auto* t : p.callees(cb))
                if (endsWith(p.name(t), "Scheduler::submit"))
                    return true;
            return false;
        });
    };
    auto isArm = [&p, submitted](const Instruction* i) {
        if (auto* st = dyn_cast<StoreInst>(i))
            return st->getValueOperand()->getType()->isPointerTy() && isField(p.field(st->getPointerOperand()), "mTaskT3Rtx") && p.field(st->getPointerOperand()).rest == 0 && inSession(p, i->getFunction()) && submitted(st->getValueOperand());
        if (auto* cb = asCall(i); cb && cb->arg_size() == 2 && inSession(p, i->getFunction()) && cb->getArgOperand(0)->getType()->isPointerTy() && isField(p.field(cb->getArgOperand(0)), "mTaskT3Rtx")) {
            auto n = cb->getCalledFunction() ? p.name(cb->getCalledFunction()) : "";
            return contains(n, "operator=") && submitted(cb->getArgOperand(1));
        }
        return false;
    };
    std::set<const Instruction*> arms;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (isArm(&i)) {
                arms.insert(&i);
                stores.insert(f);
            }
    for (auto* f : p.all) {
        if (!inSession(p, f) || !p.isProject(f))
            continue;
        if (isCtor(p, f) || contains(p.name(f), "::~"))
            continue;
        bool out = p.callersOf(f).empty();
        for (auto* c : p.callersOf(f))
            if (!inSession(p, c->getFunction()))
                out = true;
        if (!out)
            continue;
        outer.insert(f);
        // the callable handed to the scheduler where the timer is started
        for (auto* g : stores)
            if (contains(p.fullName(f), (p.name(g) + "(").c_str()) && startsWith(p.name(f), (p.name(g) + "(").c_str()) && f != g)
                timer.insert(f);
    }
    r.need("functions of the association entered from outside", outer.size(), 4);
    r.need("tasks started by the retransmission timer", timer.size(), 1);
    for (auto* f : outer)
        r.site("entered from outside", p.name(f));

    auto entryOuter = [&](const Instruction* i, bool t) { return entryOf(i) && outer.count(i->getFunction()) && timer.count(i->getFunction()) == (t ? 1u : 0u); };
    auto takes = [&p](const Instruction* i) {
        auto* st = dyn_cast<StoreInst>(i);
        return st && isField(p.field(st->getPointerOperand()), "mCurrentTsn") && !isCtor(p, i->getFunction());
    };
    auto push = [q](const Instruction* i) { return q.call(i, { "push_back", "emplace_back", "insert", "emplace", "push_front", "emplace_front", "splice" }); };
    auto look = [q](const Instruction* i) { return q.call(i, { "empty", "size" }); };
    auto removes = [q](const Instruction* i) { return q.call(i, { "erase", "pop_front", "pop_back", "clear", "remove", "remove_if", "swap", "operator=", "resize", "assign" }); };
    auto cancels = [&p](const Instruction* i) {
        auto* cb = asCall(i);
        if (!cb || !cb->getCalledFunction())
            return false;
        auto n = p.name(cb->getCalledFunction());
        if (n != "srtc::Task::cancelHelper" && n != "srtc::Task::cancel" && !endsWith(n, "::reset"))
            return false;
        for (auto& a : cb->args())
            if (a->getType()->isPointerTy() && isField(p.field(a), "mTaskT3Rtx"))
                return true;
        return n == "srtc::Task::cancel" && cb->arg_size() && derivesFrom(p, cb->getArgOperand(0), [&p](const Value* v) { return v->getType()->isPointerTy() && isField(p.field(v), "mTaskT3Rtx"); });
    };
    auto ev = [&](int id, std::function<bool(const Instruction*)> m, FactSet kills, bool gens) { s.events.push_back({ id, m, kills, gens }); };
    for (auto id : { closed, inv })
        ev(id, [=](const Instruction* i) { return entryOuter(i, false); }, B(fired) | B(fired0) | B(armed) | B(some) | B(empty), true);
    for (auto id : { closed, fired, fired0 })
        ev(id, [=](const Instruction* i) { return entryOuter(i, true); }, id == closed ? B(inv) | B(armed) | B(some) | B(built) | B(sent) : 0, true);
    ev(closed, takes, B(closed), false);
    ev(closed, push, B(inv) | B(empty) | B(fresh) | B(fired0), true);
    ev(fresh, look, 0, true);
    ev(armed, cancels, B(inv) | B(armed) | B(some), false);
    ev(armed, [&arms](const Instruction* i) { return arms.count(i) != 0; }, B(fired) | B(fired0), true);
    ev(inv, [&arms](const Instruction* i) { return arms.count(i) != 0; }, 0, true);
    s.call(empty, [q](const CallBase* cb, const Function*) { return q.call(cb, { "empty" }); }, Range::nonzero());
    s.call(some, [q](const CallBase* cb, const Function*) { return q.call(cb, { "empty" }); }, Range::eq(0));
    s.call(empty, [q](const CallBase* cb, const Function*) { return q.call(cb, { "size" }); }, Range::eq(0));
    s.call(some, [q](const CallBase* cb, const Function*) { return q.call(cb, { "size" }); }, Range::nonzero());

    // retransmission
    ev(built, [&p, q](const Instruction* i) {
        if (!callTo(p, i, [&](const Function* f) { return p.name(f) == "srtc::sctp::SctpPacketBuilder::addChunk"; }))
            return false;
        auto* cb = cast<CallBase>(i);
        for (auto& a : cb->args())
            if (a->getType()->isPointerTy()) {
                auto fr = p.field(a);
                if (contains(fr.cls, "SentChunk") && fr.name == "body")
                    return true;
                if (derivesFrom(p, a, [&](const Value* v) { auto* i = dyn_cast<Instruction>(v); return i && q.call(i, { "front", "begin" }); }))
                    return true;
            }
        return false; }, 0, true);
    ev(sent, [&p](const Instruction* i) { return listenerCall(p, i, "::onSctpSendPacket"); }, 0, true);

    // acknowledgement
    auto isTsn = [&p, q](const Value* v) {
        auto* l = dyn_cast<LoadInst>(v);
        if (!l || !l->getType()->isIntegerTy(32))
            return false;
        auto fr = p.field(l->getPointerOperand());
        if (fr)
            return contains(fr.cls, "SentChunk") && fr.name == "tsn";
        // the only 32 bit member, through an iterator
        return derivesFrom(p, l->getPointerOperand(), [&](const Value* x) { auto* i = dyn_cast<Instruction>(x); return i && q.call(i, { "begin", "erase", "front", "back" }); });
    };
    // kills when the iteration moves on to another fragment
    ev(cum, [&p](const Instruction* i) {
        auto* l = dyn_cast<LoadInst>(i);
        return l && l->getType()->isPointerTy() && (isa<PHINode>(l->getPointerOperand()) || isa<CallBase>(l->getPointerOperand())) && inSession(p, i->getFunction()); }, B(cum) | B(ge) | B(le), false);
    ev(cum, [q, removes](const Instruction* i) { return removes(i) || q.call(i, { "begin", "front", "back", "rbegin" }); }, B(cum) | B(ge) | B(le), false);
    auto fromTsn = memo([&p, isTsn](const Value* v) { return derivesFrom(p, v, isTsn); });
    // v is (fragment - acknowledged) in full width: +1, (acknowledged - fragment): -1
    auto distance = [=, &p](const Value* v) -> int {
        v = bare(v);
        if (v->getType()->getIntegerBitWidth() < 32)
            return 0;
        if (auto* a = dyn_cast<Argument>(v); a || isa<LoadInst>(v) || isa<PHINode>(v)) {
            const BinaryOperator* found = nullptr;
            int n = 0;
            derivesFrom(p, v, [&](const Value* x) {
                if (auto* b = dyn_cast<BinaryOperator>(x); b && b->getOpcode() == Instruction::Sub) {
                    if (found != b)
                        n++;
                    found = b;
                }
                return false;
            });
            if (n != 1)
                return 0;
            v = found;
        }
        auto* b = dyn_cast<BinaryOperator>(v);
        if (!b || b->getOpcode() != Instruction::Sub || !b->getType()->isIntegerTy(32))
            return 0;
        bool x = fromTsn(b->getOperand(0)), y = fromTsn(b->getOperand(1));
        return x && !y ? 1 : y && !x ? -1 : 0;
    };
    s.preds.push_back({ cum, [=](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>& res) {
                           auto pr = under(c, truth);
                           auto *x = res(c->getOperand(0)), *y = res(c->getOperand(1));
                           if (isa<Constant>(x)) {
                               std::swap(x, y);
                               pr = CmpInst::getSwappedPredicate(pr);
                           }
                           auto* k = dyn_cast<ConstantInt>(y);
                           if (!k || !x->getType()->isIntegerTy() || narrowed(x))
                               return false;
                           int d = distance(x);
                           if (d > 0)
                               return (pr == CmpInst::ICMP_SLE && k->isZero()) || (pr == CmpInst::ICMP_SLT && (k->isZero() || k->isOne())) || (pr == CmpInst::ICMP_EQ && k->isZero());
                           if (d < 0)
                               return (pr == CmpInst::ICMP_SGE && k->isZero()) || (pr == CmpInst::ICMP_SGT && (k->isZero() || k->isMinusOne())) || (pr == CmpInst::ICMP_EQ && k->isZero());
                           return false;
                       } });
    auto bound = [=](bool lower) {
        return [=](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>& res) {
            auto pr = under(c, truth);
            auto *x = res(c->getOperand(0)), *y = res(c->getOperand(1));
            if (!x->getType()->isIntegerTy())
                return false;
            if (fromTsn(bare(y))) {
                std::swap(x, y);
                pr = CmpInst::getSwappedPredicate(pr);
            }
            if (isa<Constant>(y) || fromTsn(bare(y)) || narrowed(x) || distance(x) <= 0)
                return false;
            if (lower)
                return pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_SGE || pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_EQ;
            return pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLE || pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_EQ;
        };
    };
    s.preds.push_back({ ge, bound(true) });
    s.preds.push_back({ le, bound(false) });

    auto sink = [&](const char* rule, std::function<bool(const Instruction*)> m, std::function<bool(FactSet)> ok, int n) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = m;
        k.ok = ok;
        k.minCount = n;
        s.sinks.push_back(k);
    };
    auto known = [=](FactSet f) { return (f & B(inv)) || (f & B(armed)) || ((f & B(empty)) && (f & B(fresh))); };
    sink("a fragment is stored before the next one is numbered", takes, [=](FactSet f) { return (f & B(closed)) != 0; }, 1);
    auto leaves = [&outer](const Instruction* i) { return isa<ReturnInst>(i) && outer.count(i->getFunction()); };
    sink("every numbered fragment is stored for retransmission", leaves, [=](FactSet f) { return (f & B(closed)) != 0; }, 4);
    sink("the retransmission timer runs whenever fragments are outstanding", leaves, [=](FactSet f) { return known(f) || ((f & B(some)) && !(f & B(fired))); }, 4);
    sink("the queue decides about the timer only before fragments are added", look, [=](FactSet f) { return known(f) || (f & B(some)) || (f & B(fired0)); }, 1);
    sink("the timer sends a stored fragment again", [=](const Instruction* i) { return leaves(i) && timer.count(i->getFunction()); },
         [=](FactSet f) { return ((f & B(empty)) && (f & B(fresh))) || ((f & B(built)) && (f & B(sent))); }, 1);
    sink("a stored fragment is dropped only when an acknowledgement covers it", [=, &p](const Instruction* i) { return removes(i) && !contains(p.name(i->getFunction()), "::~"); },
         [=](FactSet f) { return (f & B(cum)) || ((f & B(ge)) && (f & B(le))); }, 1);
    auto res = runFlow(p, s);
    addFlow(r, s, res);
    r.assumptions.push_back("a callback does not call back into the association that made it");
}

void ruleC21(Program& p, Report& r)
{
    FlowSpec s;
    const int notCum = s.fact("above the cumulative acknowledgement point");
    const int notSet = s.fact("not recorded as received out of order");
    const int rec = s.fact("recorded as received");
    const int next = s.fact("the next expected number");
    const int found = s.fact("the number after the acknowledgement point was recorded");
    const int er = s.fact("a recorded number was forgotten");
    const int adv = s.fact("the acknowledgement point advanced");
    const int differs = s.fact("the peer's initial number is new");

    Container q{ p, "mPeerOutOfOrderTsns" };
    auto cumPtr = [&p](const Value* v) { return v->getType()->isPointerTy() && isField(p.field(v), "mPeerCumulativeTsn"); };
    auto isCum = [=](const Value* v) { auto* l = dyn_cast<LoadInst>(v); return l && cumPtr(l->getPointerOperand()); };
    auto read32 = resultOf(p, { "srtc::ByteReader::readU32" });
    auto fromCum = memo([&p, isCum, read32](const Value* v) { return derivesFromNot(p, v, isCum, read32); });
    // the received number: what is inserted into the set
    auto inserts = [q](const Instruction* i) { return q.call(i, { "insert", "emplace", "emplace_hint" }); };
    std::set<const CallBase*> reads;
    auto collect = [&p, read32](const Value* v, std::set<const CallBase*>& out) {
        derivesFromNot(p, v, [&](const Value* x) {
            if (read32(x))
                out.insert(cast<CallBase>(x));
            return false;
        }, read32);
    };
    int nInsert = 0;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (inserts(&i)) {
                nInsert++;
                auto* cb = cast<CallBase>(&i);
                for (unsigned n = 1; n < cb->arg_size(); n++)
                    if (!isField(p.field(cb->getArgOperand(n)), q.field))
                        collect(cb->getArgOperand(n), reads);
            }
    r.need("places that record a number", nInsert);
    r.need("reads of a received transmission number", reads.size());
    // the first number of a data chunk
    for (auto* c : reads) {
        r.site("received transmission number", Program::loc(c));
        bool first = true;
        for (auto& i : instructions(c->getFunction())) {
            if (&i == c)
                break;
            if (read32(&i) || callTo(p, &i, [&](const Function* f) { return startsWith(p.name(f), "srtc::ByteReader::read"); }))
                first = false;
        }
        r.obligation(first);
        if (!first)
            r.viol("the recorded number is the transmission number of the chunk", Program::loc(c), p.name(c->getFunction()), "the number recorded as received is not the first field of the chunk");
    }
    auto isRead = [&reads](const Value* v) { auto* cb = dyn_cast<CallBase>(v); return cb && reads.count(cb); };
    auto fromRead = [&p, isRead, read32](const Value* v) { return derivesFromNot(p, v, isRead, read32); };
    auto numbers = memo([=, &p](const Value* v) { // only the received number
        std::set<const CallBase*> c;
        collect(v, c);
        if (c.empty())
            return false;
        for (auto* x : c)
            if (!reads.count(x))
                return false;
        return true;
    });
    // (received - cumulative): +1, (cumulative - received): -1
    auto distance = [=](const Value* v) -> int {
        auto* b = dyn_cast<BinaryOperator>(bare(v));
        if (!b || b->getOpcode() != Instruction::Sub || !b->getType()->isIntegerTy(32) || narrowed(v))
            return 0;
        auto *x = b->getOperand(0), *y = b->getOperand(1);
        if (numbers(x) && fromCum(y) && !fromCum(x))
            return 1;
        if (numbers(y) && fromCum(x) && !fromCum(y))
            return -1;
        return 0;
    };
    s.preds.push_back({ notCum, [=](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>& res) {
                           auto pr = under(c, truth);
                           auto *x = res(c->getOperand(0)), *y = res(c->getOperand(1));
                           if (isa<Constant>(x)) {
                               std::swap(x, y);
                               pr = CmpInst::getSwappedPredicate(pr);
                           }
                           auto* k = dyn_cast<ConstantInt>(y);
                           if (!k || !x->getType()->isIntegerTy())
                               return false;
                           int d = distance(x);
                           if (d > 0)
                               return (pr == CmpInst::ICMP_SGT && (k->isZero() || k->getSExtValue() > 0)) || (pr == CmpInst::ICMP_SGE && k->getSExtValue() > 0) || (pr == CmpInst::ICMP_EQ && k->isOne());
                           if (d < 0)
                               return (pr == CmpInst::ICMP_SLT && k->getSExtValue() <= 0) || (pr == CmpInst::ICMP_SLE && k->getSExtValue() < 0);
                           return false;
                       } });
    // number == cumulative + 1
    s.preds.push_back({ next, [=](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>& res) {
                           if (under(c, truth) != CmpInst::ICMP_EQ)
                               return false;
                           auto *x = res(c->getOperand(0)), *y = res(c->getOperand(1));
                           if (isa<Constant>(x))
                               std::swap(x, y);
                           if (auto* k = dyn_cast<ConstantInt>(y))
                               return k->isOne() && distance(x) > 0;
                           if (!x->getType()->isIntegerTy(32))
                               return false;
                           if (fromCum(x))
                               std::swap(x, y);
                           if (!numbers(x) || fromCum(x))
                               return false;
                           bool plus1 = false;
                           auto* b = dyn_cast<BinaryOperator>(originOf(y));
                           if (b && b->getOpcode() == Instruction::Add && isa<ConstantInt>(b->getOperand(1)))
                               plus1 = cast<ConstantInt>(b->getOperand(1))->isOne() && fromCum(b->getOperand(0));
                           return plus1;
                       } });
    // is this a search of the recorded numbers, and for what
    auto searchFor = [=, &p](const Value* v, bool received) -> bool {
        auto* cb = dyn_cast<CallBase>(bare(v));
        if (!cb || !q.call(cb, { "count", "contains", "find" }) || cb->arg_size() < 2)
            return false;
        return received ? numbers(cb->getArgOperand(1)) && !derivesFrom(p, cb->getArgOperand(1), isCum) : derivesFrom(p, cb->getArgOperand(1), isCum);
    };
    auto isEnd = [q](const Value* v) { auto* cb = dyn_cast<CallBase>(v); return cb && q.call(cb, { "end", "cend" }); };
    auto search = [=](bool received, bool present) {
        return [=](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>& res) {
            auto pr = under(c, truth);
            auto *x = res(c->getOperand(0)), *y = res(c->getOperand(1));
            if (isEnd(x) || isa<Constant>(x)) {
                std::swap(x, y);
                pr = CmpInst::getSwappedPredicate(pr);
            }
            if (isEnd(y))
                return searchFor(x, received) && pr == (present ? CmpInst::ICMP_NE : CmpInst::ICMP_EQ);
            auto* k = dyn_cast<ConstantInt>(y);
            if (!k || !searchFor(x, received))
                return false;
            if (present)
                return (k->isZero() && (pr == CmpInst::ICMP_NE || pr == CmpInst::ICMP_UGT)) || (k->isOne() && (pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_EQ));
            return (k->isZero() && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_ULE)) || (k->isOne() && pr == CmpInst::ICMP_ULT);
        };
    };
    s.preds.push_back({ notSet, search(true, false) });
    s.preds.push_back({ found, search(false, true) });
    s.call(notSet, [=](const CallBase* cb, const Function*) { return searchFor(cb, true); }, Range::eq(0));
    s.call(found, [=](const CallBase* cb, const Function*) { return cb->getType()->isIntegerTy() && searchFor(cb, false); }, Range::nonzero());
    auto initial = [&p](const Value* v) {
        return derivesFrom(p, v, [&p](const Value* x) { auto* l = dyn_cast<LoadInst>(x); return l && isField(p.field(l->getPointerOperand()), "mPeerInitialTsn"); });
    };
    s.preds.push_back({ differs, [=](const ICmpInst* c, bool truth, const std::function<const Value*(const Value*)>&) {
                           return under(c, truth) == CmpInst::ICMP_NE && c->getOperand(0)->getType()->isIntegerTy(32) && (initial(c->getOperand(0)) || initial(c->getOperand(1)));
                       } });
    s.loads.push_back({ differs, [&p](const LoadInst* l) { auto f = p.field(l->getPointerOperand()); return isField(f, "mPeerInitialTsn") && l->getType()->isIntegerTy(8); }, Range::eq(0) });

    auto ev = [&](int id, std::function<bool(const Instruction*)> m, FactSet kills, bool gens) { s.events.push_back({ id, m, kills, gens }); };
    auto inRecv = [&p](const Instruction* i) { return inSession(p, i->getFunction()) && !isCtor(p, i->getFunction()) && !contains(p.name(i->getFunction()), "::~"); };
    auto moves = [=](const Instruction* i) { auto* st = dyn_cast<StoreInst>(i); return st && inRecv(i) && cumPtr(st->getPointerOperand()); };
    auto erases = [q](const Instruction* i) { return q.call(i, { "erase", "extract" }); };
    auto wipes = [=](const Instruction* i) { return inRecv(i) && q.call(i, { "clear", "swap", "operator=", "merge" }); };
    auto looks = [q](const Instruction* i) { return q.call(i, { "find", "count", "contains", "begin" }); };
    // a new chunk
    ev(rec, [&](const Instruction* i) { return isRead(i); }, B(notCum) | B(notSet) | B(rec) | B(next) | B(found) | B(er) | B(adv), false);
    ev(found, looks, B(found) | B(er) | B(adv), false);
    ev(rec, inserts, 0, true);
    auto movesTo = [=](const Instruction* i) { return moves(i) && fromRead(cast<StoreInst>(i)->getValueOperand()); };
    ev(rec, movesTo, 0, true);
    ev(adv, moves, 0, true);
    ev(next, moves, B(next), false);
    ev(er, erases, 0, true);

    auto sink = [&](const char* rule, std::function<bool(const Instruction*)> m, std::function<bool(FactSet)> ok, int n) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = m;
        k.ok = ok;
        k.minCount = n;
        s.sinks.push_back(k);
    };
    auto passes = [=, &p](const Instruction* i) {
        if (!inRecv(i))
            return false;
        if (callTo(p, i, [&](const Function* f) { return startsWith(p.name(f), "srtc::sctp::DataChannelReceiveBuffer::") && !isCtor(p, f) && !contains(p.name(f), "::~"); }))
            return true;
        return Container{ p, "mDataChannels" }.call(i, { "emplace_back", "push_back", "emplace_front", "push_front", "insert", "emplace" });
    };
    sink("a chunk is passed on only when it is above the acknowledgement point", passes, [=](FactSet f) { return (f & B(notCum)) != 0; }, 1);
    sink("a chunk is passed on only when it was not received out of order before", passes, [=](FactSet f) { return (f & B(notSet)) != 0; }, 1);
    sink("a chunk is recorded as received when it is passed on", passes, [=](FactSet f) { return (f & B(rec)) != 0; }, 1);
    sink("the acknowledgement point moves only to the next number", moves, [=](FactSet f) { return (f & (B(next) | B(found) | B(differs))) != 0; }, 1);
    sink("a recorded number is forgotten only when the acknowledgement point passes it", [=](const Instruction* i) { return looks(i) || (isa<ReturnInst>(i) && inRecv(i)); },
         [=](FactSet f) { return !(f & B(er)) || (f & B(adv)); }, 1);
    sink("the recorded numbers are forgotten only for a new association", wipes, [=](FactSet f) { return (f & B(differs)) != 0; }, 1);
    // the drain moves by one
    int steps = 0;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (moves(&i) && !movesTo(&i)) {
                auto* v = bare(cast<StoreInst>(&i)->getValueOperand());
                if (!fromCum(v))
                    continue;
                steps++;
                auto* b = dyn_cast<BinaryOperator>(v);
                bool ok = !b || (b->getOpcode() == Instruction::Add && isa<ConstantInt>(b->getOperand(1)) && cast<ConstantInt>(b->getOperand(1))->isOne());
                r.obligation(ok);
                r.site("advance over recorded numbers", Program::loc(&i));
                if (!ok)
                    r.viol("the acknowledgement point moves over one recorded number at a time", Program::loc(&i), p.name(f), "the acknowledgement point does not move by one");
            }
    r.counts["advances over recorded numbers"] = steps;
    auto res = runFlow(p, s);
    addFlow(r, s, res);
}
