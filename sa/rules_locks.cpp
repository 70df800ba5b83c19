// C15 (locksets of shared members) and C16 (lock order, waiting and callbacks under a lock).
#include "rules.h"
#include "rules_util.h"
#include <algorithm>

namespace
{
FactSet B(int i) { return FactSet(1) << i; }

struct LockOp {
    enum Kind { None, Acquire, Release } kind = None;
    FieldRef mutex;
};

bool isLockClass(const std::string& n)
{
    return startsWith(n, "std::lock_guard") || startsWith(n, "std::unique_lock") || startsWith(n, "std::scoped_lock") || startsWith(n, "std::shared_lock");
}

// what a call does to a mutex that is a member of a project class
LockOp lockOp(Program& p, const Instruction* i)
{
    LockOp r;
    auto* cb = asCall(i);
    auto* f = cb ? cb->getCalledFunction() : nullptr;
    if (!f || !cb->arg_size())
        return r;
    auto n = p.fullName(f);
    if (startsWith(n, "std::mutex::") || startsWith(n, "std::recursive_mutex::") || startsWith(n, "std::shared_mutex::")) {
        r.mutex = p.field(cb->getArgOperand(0));
        if (contains(n, "::lock(") || contains(n, "::try_lock(") || contains(n, "::lock_shared("))
            r.kind = LockOp::Acquire;
        else if (contains(n, "::unlock"))
            r.kind = LockOp::Release;
    } else if (isLockClass(n)) {
        auto* obj = stripCasts(cb->getArgOperand(0));
        auto mutexOf = [&](const CallBase* c) {
            for (unsigned k = 1; k < c->arg_size(); k++)
                if (auto fr = p.field(c->getArgOperand(k)))
                    return fr;
            return FieldRef();
        };
        auto k = n.rfind(">::");
        auto m = k == std::string::npos ? std::string() : n.substr(k + 3);
        bool ctor = isLockClass(m.empty() ? "" : "std::" + m);
        if (ctor) {
            r.kind = LockOp::Acquire;
            r.mutex = mutexOf(cb);
        } else {
            bool rel = startsWith(m, "~") || startsWith(m, "unlock"), acq = startsWith(m, "lock(");
            if (!rel && !acq)
                return r;
            for (auto* u : obj->users())
                if (auto* c = dyn_cast<CallBase>(u); c && c->getCalledFunction() && c->arg_size() > 1 && stripCasts(c->getArgOperand(0)) == obj) {
                    auto q = p.fullName(c->getCalledFunction());
                    auto j = q.rfind(">::");
                    if (isLockClass(q) && j != std::string::npos && isLockClass("std::" + q.substr(j + 3)))
                        r.mutex = mutexOf(c);
                }
            r.kind = rel ? LockOp::Release : LockOp::Acquire;
        }
    }
    if (!r.mutex || !startsWith(r.mutex.cls, "srtc::"))
        r.kind = LockOp::None;
    return r;
}

const char* lastOf(const std::string& n)
{
    auto k = n.rfind("::");
    return k == std::string::npos ? n.c_str() : n.c_str() + k + 2;
}

// public member functions according to the class definition
bool isPublicMethod(const Function* f)
{
    auto* sp = f->getSubprogram();
    if (!sp)
        return false;
    if (auto* d = sp->getDeclaration())
        sp = d;
    if (sp->getName() == "operator()")
        return false; // function objects
    return (sp->getFlags() & DINode::FlagAccessibility) == DINode::FlagPublic;
}

bool isDtor(Program& p, const Function* f) { return contains(p.name(f), "::~"); }

struct Mutexes {
    std::vector<std::string> names; // fact id -> class::member
    int id(const FieldRef& f) const
    {
        for (size_t i = 0; i < names.size(); i++)
            if (names[i] == f.str())
                return i;
        return -1;
    }
};

Mutexes findMutexes(Program& p)
{
    std::set<std::string> s;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (auto o = lockOp(p, &i); o.kind == LockOp::Acquire)
                s.insert(o.mutex.str());
    return { { s.begin(), s.end() } };
}

// one fact per mutex: held
void addLockFacts(Program& p, FlowSpec& s, const Mutexes& m)
{
    for (size_t k = 0; k < m.names.size(); k++) {
        int id = s.fact("holding " + m.names[k]);
        auto is = [&p, &m, k](const Instruction* i, LockOp::Kind kind) {
            auto o = lockOp(p, i);
            return o.kind == kind && m.id(o.mutex) == int(k);
        };
        s.events.push_back({ id, [=](const Instruction* i) { return is(i, LockOp::Acquire); }, 0, true });
        s.events.push_back({ id, [=](const Instruction* i) { return is(i, LockOp::Release); }, B(id), false });
    }
}

std::string lockNames(const Mutexes& m, FactSet f)
{
    std::string s;
    for (size_t k = 0; k < m.names.size(); k++)
        if (f & B(k))
            s += (s.empty() ? "" : ", ") + m.names[k];
    return s.empty() ? "no lock" : s;
}

bool isSyncType(const DIType* t)
{
    auto n = Program::typeName(Program::strip(t));
    return contains(n, "mutex") || contains(n, "condition_variable") || contains(n, "atomic<") || contains(n, "std::thread::id");
}

struct Access {
    FieldRef f;
    bool write;
};

// accesses of members of cls made by one instruction
std::vector<Access> accessesOf(Program& p, const Instruction* i, const std::function<bool(const FieldRef&)>& mine)
{
    std::vector<Access> r;
    auto take = [&](const Value* ptr, bool w) {
        auto f = p.field(ptr);
        if (f && mine(f) && !(f.type && isSyncType(f.type)))
            r.push_back({ f, w });
    };
    if (auto* st = dyn_cast<StoreInst>(i))
        take(st->getPointerOperand(), true);
    else if (auto* l = dyn_cast<LoadInst>(i))
        take(l->getPointerOperand(), false);
    else if (auto* cb = asCall(i); cb && !isa<DbgInfoIntrinsic>(cb)) {
        if (auto* mi = dyn_cast<MemIntrinsic>(cb)) {
            take(mi->getDest(), true);
            if (auto* mt = dyn_cast<MemTransferInst>(mi))
                take(mt->getSource(), false);
            return r;
        }
        if (isa<IntrinsicInst>(cb))
            return r;
        auto* f = cb->getCalledFunction();
        for (unsigned k = 0; k < cb->arg_size(); k++) {
            auto* a = cb->getArgOperand(k);
            if (!a->getType()->isPointerTy())
                continue;
            bool w = false;
            if (f && !p.isProject(f)) {
                auto n = p.fullName(f);
                auto base = p.name(f);
                std::string last = lastOf(base);
                if (k == 0 && !cb->paramHasAttr(0, Attribute::StructRet)) {
                    static const std::set<std::string> readers = { "begin", "end", "cbegin", "cend", "front", "back", "find", "empty", "size", "length", "data", "c_str", "at", "operator[]", "get", "operator bool",
                        "operator->", "operator*", "count", "joinable", "get_id", "has_value", "value", "capacity", "rbegin", "rend", "operator()", "_M_get_use_count", "use_count", "lower_bound", "upper_bound" };
                    w = !endsWith(n, " const") && !readers.count(last);
                } else if (contains(n, "&&") && (contains(last, "operator=") || contains(last, "swap") || contains(last, "move")))
                    w = true;
                else if (contains(last, "swap"))
                    w = true;
            } else
                continue; // its own accesses are seen in the callee
            take(a, w);
        }
    }
    return r;
}
} // namespace

// releasing a shared pointer runs a destructor chosen at run time; the resolution by type of the call is useless there
static std::function<bool(const Function*)> skipErased(Program& p)
{
    return [&p](const Function* f) { return contains(p.fullName(f), "std::_Sp_counted_base<"); };
}

void ruleC15(Program& p, Report& r)
{
    auto mx = findMutexes(p);
    r.need("mutexes", mx.names.size(), 3);
    if (mx.names.size() > 40) {
        r.errors.push_back("too many mutexes");
        return;
    }
    // 1. the connection object: application threads against the worker
    {
        FlowSpec s;
        addLockFacts(p, s, mx);
        s.skip = skipErased(p);
        int W = s.fact("on the worker thread"), A = s.fact("on an application thread"), idle = s.fact("the worker does not exist yet");
        const std::string cls = "srtc::PeerConnection";
        s.events.push_back({ W, [&p](const Instruction* i) { return entryOf(i) && p.name(i->getFunction()) == "srtc::PeerConnection::networkThreadWorkerFunc"; }, 0, true });
        auto app = [&p, cls](const Function* f) { return startsWith(p.name(f), (cls + "::").c_str()) && p.name(f).find_first_of(":($", cls.size() + 2) == std::string::npos && isPublicMethod(f) && !isCtor(p, f) && !isDtor(p, f); };
        s.events.push_back({ A, [=](const Instruction* i) { return entryOf(i) && app(i->getFunction()); }, 0, true });
        s.isRoot = [=](const Function* f) { return app(f); };
        s.fields.push_back({ idle, [](const FieldRef& f) { return f.cls == "srtc::PeerConnection" && f.name == "mIsStarted"; }, Range::eq(0) });
        struct Rec {
            const Instruction* at;
            bool write;
            FactSet facts;
        };
        auto recs = std::make_shared<std::map<std::string, std::vector<Rec>>>();
        auto mine = [cls](const FieldRef& f) { return f.cls == cls; };
        FlowSpec::Sink k;
        k.rule = "accesses of members of the connection";
        k.match = [&p, mine](const Instruction* i) { return !isDtor(p, i->getFunction()) && !accessesOf(p, i, mine).empty(); };
        k.okAt = [&p, mine, recs](const Instruction* i, FactSet f) {
            for (auto& a : accessesOf(p, i, mine)) {
                auto& v = (*recs)[a.f.name];
                bool dup = false;
                for (auto& x : v)
                    dup |= x.at == i && x.write == a.write && x.facts == f;
                if (!dup)
                    v.push_back({ i, a.write, f });
            }
            return true;
        };
        s.sinks.push_back(k);
        auto fr = runFlow(p, s);

        int apps = 0;
        for (auto* f : p.funcs)
            apps += app(f);
        r.need("public functions of the connection", apps, 5);
        r.counts["functions analysed"] = fr.functions;
        const FactSet locks = (FactSet(1) << mx.names.size()) - 1;
        for (auto& [name, v] : *recs) {
            std::set<std::pair<std::string, std::string>> seen;
            bool shared = false;
            for (auto& x : v)
                for (auto& y : v) {
                    if (!x.write)
                        continue;
                    auto side = [&](const Rec& q) { return q.facts & B(W) ? 'W' : (q.facts & B(A)) ? ((q.facts & B(idle)) ? 'P' : 'A') : '-'; };
                    char a = side(x), b = side(y);
                    if (a == '-' || b == '-' || (a == 'W' && b == 'W') || (a == 'W' && b == 'P') || (a == 'P' && b == 'W'))
                        continue;
                    shared = true;
                    bool ok = (x.facts & y.facts & locks) != 0;
                    r.obligation(ok);
                    if (ok)
                        continue;
                    // name the side that holds less
                    const Rec *bad = &x, *other = &y;
                    if ((x.facts & locks) && !(y.facts & locks))
                        std::swap(bad, other);
                    if (seen.insert({ Program::loc(bad->at), "" }).second)
                        r.viol("members shared between threads are accessed under one lock", Program::loc(bad->at), p.name(bad->at->getFunction()),
                               cls + "::" + name + " is " + (bad->write ? "written" : "read") + " with " + lockNames(mx, bad->facts) + " here and " + (other->write ? "written" : "read") + " with " +
                                   lockNames(mx, other->facts) + " in " + p.name(other->at->getFunction()) + " (" + Program::loc(other->at) + ")");
                }
            if (shared)
                r.site("members shared between threads are accessed under one lock", cls + "::" + name + ": " + std::to_string(v.size()) + " accesses");
        }
    }
    // 2. the schedulers: every member that changes after construction is accessed with the object's mutex held
    for (const char* cls : { "srtc::ThreadScheduler", "srtc::ScopedScheduler" }) {
        int mid = -1;
        for (size_t k = 0; k < mx.names.size(); k++)
            if (startsWith(mx.names[k], (std::string(cls) + "::").c_str()))
                mid = k;
        bool present = false;
        for (auto* f : p.funcs)
            present |= startsWith(p.name(f), (std::string(cls) + "::").c_str());
        if (!present)
            continue;
        if (mid < 0) {
            r.errors.push_back(std::string(cls) + ": no mutex found");
            continue;
        }
        auto owned = [cls](const FieldRef& f) { return f.cls == cls || f.cls == std::string(cls) + "::TaskImpl"; };
        auto inCls = [&p, cls](const Function* f) { return startsWith(p.name(f), (std::string(cls) + "::").c_str()); };
        std::set<std::string> written;
        for (auto* f : p.funcs)
            if (!isCtor(p, f) && !isDtor(p, f))
                for (auto& i : instructions(f))
                    for (auto& a : accessesOf(p, &i, owned))
                        if (a.write)
                            written.insert(a.f.str());
        FlowSpec s;
        addLockFacts(p, s, mx);
        s.skip = skipErased(p);
        auto app = [=](const Function* f) { return inCls(f) && isPublicMethod(f); };
        s.isRoot = app;
        auto mine = [owned, written](const FieldRef& f) { return owned(f) && written.count(f.str()); };
        FlowSpec::Sink k;
        k.rule = std::string("changing members of ") + cls + " are accessed with its mutex held";
        k.match = [&p, mine](const Instruction* i) { return !isCtor(p, i->getFunction()) && !accessesOf(p, i, mine).empty() && !contains(p.name(i->getFunction()), "TaskImpl::~"); };
        k.ok = [mid](FactSet f) { return (f & B(mid)) != 0; };
        // the members themselves are destroyed after the destructor's body
        auto m0 = k.match;
        k.match = [&p, m0](const Instruction* i) {
            if (!m0(i))
                return false;
            auto* cb = asCall(i);
            return !(isDtor(p, i->getFunction()) && cb && cb->getCalledFunction() && contains(p.name(cb->getCalledFunction()), "::~"));
        };
        s.sinks.push_back(k);
        addFlow(r, s, runFlow(p, s));
    }
    // 3. a thread started by a constructor starts after every member has been initialised
    for (auto* f : p.funcs) {
        if (!isCtor(p, f) || f->arg_empty())
            continue;
        for (auto& i : instructions(f)) {
            auto* cb = asCall(&i);
            if (!cb || !cb->getCalledFunction() || !startsWith(p.fullName(cb->getCalledFunction()), "std::thread::thread<"))
                continue;
            auto self = p.field(cb->getArgOperand(0));
            if (!self)
                continue;
            std::set<const BasicBlock*> seen;
            std::vector<std::pair<const BasicBlock*, const Instruction*>> todo = { { i.getParent(), i.getNextNode() } };
            bool ok = true;
            while (!todo.empty()) {
                auto [bb, from] = todo.back();
                todo.pop_back();
                for (auto* q = from; q; q = q->getNextNode()) {
                    const Value* ptr = nullptr;
                    if (auto* st = dyn_cast<StoreInst>(q))
                        ptr = st->getPointerOperand();
                    else if (auto* c = asCall(q); c && c->arg_size() && c->getArgOperand(0)->getType()->isPointerTy() && !isa<DbgInfoIntrinsic>(c)) {
                        if (auto* mi = dyn_cast<MemIntrinsic>(c))
                            ptr = mi->getDest();
                        else if (c->getCalledFunction() && !isa<IntrinsicInst>(c) && isCtor(p, c->getCalledFunction()))
                            ptr = c->getArgOperand(0);
                    }
                    if (!ptr || stripCasts(ptr)->stripInBoundsOffsets() != f->getArg(0))
                        continue;
                    auto fr = p.field(ptr);
                    if (fr && fr.cls == self.cls && fr.name != self.name) {
                        ok = false;
                        r.viol("a thread starts after the members it uses are initialised", Program::loc(&i), p.name(f), fr.str() + " is initialised after the thread was started");
                    }
                }
                for (auto* sux : successors(bb))
                    if (seen.insert(sux).second)
                        todo.push_back({ sux, &sux->front() });
            }
            r.obligation(ok);
            r.site("a thread starts after the members it uses are initialised", p.name(f) + " " + Program::loc(&i));
        }
    }
}

void ruleC16(Program& p, Report& r)
{
    auto mx = findMutexes(p);
    r.need("mutexes", mx.names.size(), 3);
    if (mx.names.size() > 40) {
        r.errors.push_back("too many mutexes");
        return;
    }
    const FactSet locks = (FactSet(1) << mx.names.size()) - 1;
    auto isPC = [&](int k) { return startsWith(mx.names[k], "srtc::PeerConnection::"); };
    FlowSpec s;
    addLockFacts(p, s, mx);
    s.skip = skipErased(p);
    int W = s.fact("on a scheduler's own thread"), notSelf = s.fact("the thread is known to be another one");
    s.events.push_back({ W, [&p](const Instruction* i) { return entryOf(i) && p.name(i->getFunction()) == "srtc::ThreadScheduler::threadFunc"; }, 0, true });
    s.call(notSelf, [&p](const CallBase*, const Function* f) { return contains(p.fullName(f), "operator==(std::thread::id"); }, Range::eq(0));
    s.call(notSelf, [&p](const CallBase*, const Function* f) { return contains(p.fullName(f), "operator!=(std::thread::id"); }, Range::nonzero());
    auto tid = [&p](const Value* v) {
        // a thread id is a single word: get_id results compared after inlining
        if (auto* cb = dyn_cast<CallBase>(v))
            for (auto* t : p.callees(cb))
                if (contains(p.name(t), "get_id") || t->getName() == "pthread_self")
                    return true;
        if (auto* l = dyn_cast<LoadInst>(v))
            return contains(Program::typeName(Program::strip(p.field(l->getPointerOperand()).type)), "thread");
        return false;
    };
    s.cmps.push_back({ notSelf, [=](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) { return tid(originOf(res(c->getOperand(0)))) && tid(originOf(res(c->getOperand(1)))); }, true });
    s.isRoot = [&p](const Function* f) { return isPublicMethod(f) && (startsWith(p.name(f), "srtc::PeerConnection::") || startsWith(p.name(f), "srtc::ThreadScheduler::") || startsWith(p.name(f), "srtc::ScopedScheduler::")); };
    // order edges
    auto edges = std::make_shared<std::map<std::pair<int, int>, const Instruction*>>();
    {
        FlowSpec::Sink k;
        k.rule = "locks of the connection are never taken again while held";
        k.match = [&p](const Instruction* i) { return lockOp(p, i).kind == LockOp::Acquire; };
        k.okAt = [&p, mx, edges, isPC](const Instruction* i, FactSet f) {
            int id = mx.id(lockOp(p, i).mutex);
            for (size_t h = 0; h < mx.names.size(); h++)
                if ((f & B(h)) && int(h) != id)
                    edges->insert({ { int(h), id }, i });
            return id < 0 || !isPC(id) || !(f & B(id));
        };
        s.sinks.push_back(k);
    }
    // callbacks of the application
    auto isCallback = [&p](const Instruction* i) {
        auto* cb = asCall(i);
        if (!cb)
            return false;
        if (auto* f = cb->getCalledFunction()) {
            if (!contains(p.fullName(f), ">::operator()(") || !startsWith(p.fullName(f), "std::function<") || !cb->arg_size())
                return false;
            auto fr = p.field(cb->getArgOperand(0));
            return fr.cls == "srtc::PeerConnection" && contains(fr.name, "Listener");
        }
        // a virtual call on the data channel listener
        auto* l = dyn_cast<LoadInst>(cb->getCalledOperand());
        return l && cb->arg_size() && contains(p.pointeeName(cb->getArgOperand(0)), "DataChannelListener");
    };
    {
        FlowSpec::Sink k;
        k.rule = "the application is not called back while the state lock is held";
        k.match = isCallback;
        k.ok = [mx](FactSet f) {
            for (size_t h = 0; h < mx.names.size(); h++)
                if ((f & B(h)) && mx.names[h] == "srtc::PeerConnection::mMutex")
                    return false;
            return true;
        };
        k.minCount = 4;
        s.sinks.push_back(k);
    }
    // waiting
    auto waitsWith = [&p](const Instruction* i) -> std::optional<std::string> {
        auto* cb = asCall(i);
        auto* f = cb ? cb->getCalledFunction() : nullptr;
        if (!f)
            return {};
        auto n = p.fullName(f);
        auto b = p.name(f);
        if (b == "std::thread::join")
            return std::string();
        if (startsWith(b, "std::condition_variable::wait") && p.isProject(i->getFunction())) {
            auto* obj = stripCasts(cb->getArgOperand(1));
            for (auto* u : obj->users())
                if (auto o = isa<Instruction>(u) ? lockOp(p, cast<Instruction>(u)) : LockOp(); o.kind == LockOp::Acquire)
                    return o.mutex.str();
            return std::string();
        }
        return {};
    };
    {
        FlowSpec::Sink k;
        k.rule = "no thread is waited for with a lock held";
        k.match = [=](const Instruction* i) { return waitsWith(i).has_value(); };
        k.okAt = [=](const Instruction* i, FactSet f) {
            auto own = *waitsWith(i);
            // the connection's own tasks run in its event loop (LoopScheduler), never on a ThreadScheduler
            bool ts = startsWith(own, "srtc::ThreadScheduler::");
            for (size_t h = 0; h < mx.names.size(); h++)
                if ((f & B(h)) && mx.names[h] != own && !(ts && isPC(h)))
                    return false;
            return true;
        };
        k.minCount = 2;
        s.sinks.push_back(k);
    }
    {
        FlowSpec::Sink k;
        k.rule = "a scheduler's thread does not wait for a task that it runs itself";
        k.match = [&p](const Instruction* i) {
            auto* cb = asCall(i);
            auto* f = cb ? cb->getCalledFunction() : nullptr;
            if (!f || !p.isProject(i->getFunction()))
                return false;
            auto b = p.name(f);
            return startsWith(b, "std::condition_variable::wait") && !contains(b, "wait_for") && !contains(b, "wait_until") && startsWith(p.name(i->getFunction()), "srtc::ThreadScheduler::") &&
                   p.name(i->getFunction()) != "srtc::ThreadScheduler::threadFunc";
        };
        k.ok = [=](FactSet f) { return (f & B(notSelf)) != 0; };
        k.minCount = 0;
        s.sinks.push_back(k);
    }
    (void)W;
    addFlow(r, s, runFlow(p, s));
    // one global order
    const int n = mx.names.size();
    std::vector<std::vector<bool>> reach(n, std::vector<bool>(n));
    for (auto& [e, at] : *edges)
        if (e.second >= 0)
            reach[e.first][e.second] = true;
    for (int k = 0; k < n; k++)
        for (int a = 0; a < n; a++)
            for (int b = 0; b < n; b++)
                if (reach[a][k] && reach[k][b])
                    reach[a][b] = true;
    for (auto& [e, at] : *edges) {
        if (e.second < 0)
            continue;
        bool ok = !reach[e.second][e.first];
        r.obligation(ok);
        r.site("locks are taken in one order", mx.names[e.first] + " before " + mx.names[e.second] + " (" + Program::loc(at) + ")");
        if (!ok)
            r.viol("locks are taken in one order", Program::loc(at), p.name(at->getFunction()), mx.names[e.second] + " is taken while " + mx.names[e.first] + " is held, and elsewhere the other way round");
    }
    // the schedulers' own locks, followed through calls on the same object only
    {
        FlowSpec q;
        addLockFacts(p, q, mx);
        q.skip = skipErased(p);
        q.isRoot = s.isRoot;
        q.events.push_back({ 0, [&p](const Instruction* i) {
                                auto* cb = asCall(i);
                                return cb && !isa<IntrinsicInst>(cb) && !cb->getCalledFunction();
                            },
                             locks, false });
        FlowSpec::Sink k;
        k.rule = "locks of the schedulers are never taken again while held";
        k.match = [&p, mx, isPC](const Instruction* i) {
            auto o = lockOp(p, i);
            return o.kind == LockOp::Acquire && mx.id(o.mutex) >= 0 && !isPC(mx.id(o.mutex));
        };
        k.okAt = [&p, mx](const Instruction* i, FactSet f) { return !(f & B(mx.id(lockOp(p, i).mutex))); };
        q.sinks.push_back(k);
        addFlow(r, q, runFlow(p, q));
    }
}
