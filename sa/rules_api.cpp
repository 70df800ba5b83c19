// C18 (connection state) and C23 (public calls in the wrong state or direction).
#include "rules.h"
#include "rules_util.h"
#include <algorithm>

static const char* PC = "srtc::PeerConnection";
static FactSet B(int i) { return FactSet(1) << i; }
static bool pcField(const FieldRef& f, const char* n) { return f.cls == PC && f.name == n && f.rest == 0; }
static std::function<bool(const FieldRef&)> pcMatch(const char* n)
{
    return [n](const FieldRef& f) { return pcField(f, n); };
}
static bool ofClass(Program& p, const Function* f) { return startsWith(p.name(f), "srtc::PeerConnection::"); }

// the requirements are decided one by one, each with the facts it speaks of only
static void runEach(Program& p, Report& r, FlowSpec& s, const std::vector<FactSet>& needs)
{
    for (size_t n = 0; n < s.sinks.size(); n++) {
        FlowSpec one = s;
        one.sinks = { s.sinks[n] };
        auto use = needs[n];
        auto keep = [&](auto& v) { v.erase(std::remove_if(v.begin(), v.end(), [&](auto& x) { return !(use & B(x.id)); }), v.end()); };
        keep(one.calls);
        keep(one.fields);
        keep(one.cmps);
        keep(one.events);
        addFlow(r, one, runFlow(p, one));
    }
}

void ruleC18(Program& p, Report& r)
{
    auto vFailed = enumValue(p, "PeerConnection::ConnectionState", "Failed"), vClosed = enumValue(p, "PeerConnection::ConnectionState", "Closed"),
         vConnected = enumValue(p, "PeerConnection::ConnectionState", "Connected"), vDone = enumValue(p, "::DtlsState", "Completed");
    if (!vFailed || !vClosed || !vConnected || !vDone) {
        r.errors.push_back("enumerations ConnectionState / DtlsState not found");
        return;
    }
    const int64_t failed = *vFailed, closed = *vClosed, connected = *vConnected, done = *vDone;
    auto stateStore = [&p](const Instruction* i) -> const StoreInst* {
        auto* st = dyn_cast<StoreInst>(i);
        if (!st || !pcField(p.field(st->getPointerOperand()), "mConnectionState") || isCtor(p, st->getFunction()))
            return nullptr;
        return st;
    };
    auto isListener = [&p](const Function* f, const char* m) {
        auto& n = p.fullName(f);
        return contains(n, "std::function<void (srtc::PeerConnection::ConnectionState)>") && contains(n, m);
    };
    auto listenerCall = [=](const Instruction* i) -> const CallBase* {
        auto* cb = asCall(i);
        if (!cb || !cb->getCalledFunction() || !isListener(cb->getCalledFunction(), ">::operator()"))
            return nullptr;
        return cb;
    };
    // functions from which, by direct calls, the state is stored / the listener is called
    std::set<const Function*> stores, reports;
    std::vector<const StoreInst*> sts;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f)) {
            if (auto* st = stateStore(&i)) {
                stores.insert(f);
                sts.push_back(st);
            }
            if (listenerCall(&i))
                reports.insert(f);
        }
    auto close = [&](std::set<const Function*>& s) {
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto* f : p.funcs) {
                if (s.count(f))
                    continue;
                for (auto& i : instructions(f))
                    if (auto* cb = asCall(&i))
                        if (auto* t = cb->getCalledFunction(); t && s.count(t)) {
                            s.insert(f);
                            ch = true;
                            break;
                        }
            }
        }
    };
    close(stores);
    close(reports);
    r.need("stores of the connection state", sts.size());
    std::set<const Function*> owners;
    for (auto* f : stores)
        if (reports.count(f)) {
            bool minimal = true;
            for (auto& i : instructions(f))
                if (auto* cb = asCall(&i))
                    if (auto* t = cb->getCalledFunction(); t && t != f && stores.count(t) && reports.count(t))
                        minimal = false;
            // a function that calls an owner is an owner itself only if it stores or reports in addition
            bool own = minimal;
            for (auto& i : instructions(f))
                own |= stateStore(&i) != nullptr;
            if (own)
                owners.insert(f);
        }
    // every store lies in (or is called from) an owner
    std::set<const Function*> under;
    std::function<void(const Function*)> down = [&](const Function* f) {
        if (!under.insert(f).second)
            return;
        for (auto& i : instructions(f))
            if (auto* cb = asCall(&i))
                if (auto* t = cb->getCalledFunction(); t && !t->isDeclaration() && p.isProject(t))
                    down(t);
    };
    for (auto* f : owners)
        down(f);
    for (auto* st : sts) {
        bool ok = under.count(st->getFunction());
        r.obligation(ok);
        r.site("an accepted state change is reported", Program::loc(st));
        if (!ok)
            r.viol("an accepted state change is reported", Program::loc(st), p.name(st->getFunction()), "the state is changed where the listener is never called");
    }
    // the reported value is the stored one
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (auto* cb = listenerCall(&i); cb && cb->arg_size() >= 2) {
                auto* v = originOf(cb->getArgOperand(cb->arg_size() - 1));
                const Value* stored = nullptr;
                for (auto* st : sts)
                    if (st->getFunction() == f)
                        stored = originOf(st->getValueOperand());
                bool ok = true;
                if (auto* l = dyn_cast<LoadInst>(v); l && pcField(p.field(l->getPointerOperand()), "mConnectionState"))
                    ok = true;
                else if (isa<ConstantInt>(v))
                    ok = stored && isa<ConstantInt>(stored) && stored == v;
                else if (stored && isa<Argument>(v) && isa<Argument>(stored))
                    ok = v == stored;
                r.obligation(ok);
                r.site("the state reported is the state stored", Program::loc(&i));
                if (!ok)
                    r.viol("the state reported is the state stored", Program::loc(&i), p.name(f), "the listener is given another value than the one stored");
            }

    FlowSpec s;
    int nf = s.fact("the state is not failed"), nc = s.fact("the state is not closed"), chg = s.fact("the new state differs"), stored = s.fact("the state was changed"),
        told = s.fact("the listener was told"), hs = s.fact("the handshake of the candidate is completed"), keys = s.fact("the candidate has media keys"),
        ended = s.fact("closed was announced"), auth = s.fact("a packet under the candidate's media keys was authentic");
    s.differs(nf, pcMatch("mConnectionState"), failed);
    s.differs(nc, pcMatch("mConnectionState"), closed);
    auto isState = [&p](const Value* v) {
        auto* l = dyn_cast<LoadInst>(v);
        return l && pcField(p.field(l->getPointerOperand()), "mConnectionState");
    };
    s.cmps.push_back({ chg, [=](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
                          auto *a = originOf(res(c->getOperand(0))), *b = originOf(res(c->getOperand(1)));
                          return (isState(a) && !isa<ConstantInt>(b)) || (isState(b) && !isa<ConstantInt>(a));
                      },
                       true });
    s.events.push_back({ stored, [=](const Instruction* i) { return stateStore(i) != nullptr; }, B(told), true });
    s.events.push_back({ told, [=](const Instruction* i) { return listenerCall(i) != nullptr; }, B(stored), true });
    s.call(told, [=](const CallBase*, const Function* f) { return isListener(f, "::operator bool"); }, Range::eq(0));
    s.fields.push_back({ hs, [](const FieldRef& f) { return f.cls == "srtc::PeerCandidate" && f.name == "mDtlsState"; }, Range::eq(done) });
    s.fields.push_back({ keys, [](const FieldRef& f) { return f.cls == "srtc::PeerCandidate" && f.name == "mSrtpConnection" && f.rest == 0; }, Range::nonzero() });
    // a packet under those keys was authentic; used because the test of the keys themselves does not survive the calls in between
    s.call(auth, [&p](const CallBase*, const Function* f) { return startsWith(p.name(f), "srtc::SrtpConnection::unprotectReceive"); }, Range::nonzero());
    auto passes = [=](const CallBase* cb, int64_t v) {
        auto* t = cb->getCalledFunction();
        if (!t || !stores.count(t))
            return false;
        for (auto& a : cb->args())
            if (auto* c = dyn_cast<ConstantInt>(a); c && c->getBitWidth() == 32 && c->getSExtValue() == v)
                return true;
        return false;
    };
    s.call(ended, [=](const CallBase* cb, const Function*) { return passes(cb, closed); });

    std::vector<FactSet> needs;
    auto sink = [&](FlowSpec::Sink k, FactSet use) {
        needs.push_back(use);
        s.sinks.push_back(std::move(k));
    };
    {
        FlowSpec::Sink k;
        k.rule = "a final state is never replaced";
        k.match = [=](const Instruction* i) { return stateStore(i) != nullptr; };
        k.ok = [=](FactSet f) { return (f & (B(nf) | B(nc))) == (B(nf) | B(nc)); };
        sink(k, B(nf) | B(nc));
    }
    {
        FlowSpec::Sink k;
        k.rule = "a state is entered only from another one";
        k.match = [=](const Instruction* i) { return stateStore(i) && !isa<ConstantInt>(originOf(stateStore(i)->getValueOperand())); };
        k.ok = [=](FactSet f) { return (f & B(chg)) != 0; };
        k.minCount = 0;
        sink(k, B(chg));
    }
    {
        FlowSpec::Sink k;
        k.rule = "an accepted state change is reported";
        k.ret = true;
        k.retFn = [=](const Function* f) { return owners.count(f) != 0; };
        k.ok = [=](FactSet f) { return !(f & B(stored)) || (f & B(told)); };
        k.minCount = 0;
        sink(k, B(stored) | B(told));
    }
    {
        FlowSpec::Sink k;
        k.rule = "the listener is called only after a state change";
        k.match = [=](const Instruction* i) { return listenerCall(i) != nullptr; };
        k.ok = [=](FactSet f) { return (f & B(stored)) != 0; };
        sink(k, B(stored) | B(told));
    }
    {
        FlowSpec::Sink k;
        k.rule = "connected is entered only for a candidate whose handshake completed";
        k.match = [=](const Instruction* i) {
            if (auto* st = stateStore(i)) {
                auto* c = dyn_cast<ConstantInt>(originOf(st->getValueOperand()));
                return c && c->getSExtValue() == connected;
            }
            auto* cb = asCall(i);
            return cb && passes(cb, connected);
        };
        k.ok = [=](FactSet f) { return (f & (B(hs) | B(keys) | B(auth))) != 0; };
        sink(k, B(hs) | B(keys) | B(auth));
    }
    {
        FlowSpec::Sink k;
        k.rule = "the worker ends only after announcing that the connection is closed";
        k.ret = true;
        k.retFn = [&p](const Function* f) { return p.name(f) == "srtc::PeerConnection::networkThreadWorkerFunc"; };
        k.ok = [=](FactSet f) { return (f & B(ended)) != 0; };
        k.minCount = 0;
        sink(k, B(ended));
    }
    runEach(p, r, s, needs);
    r.assumptions.push_back("that the handshake completes only with the peer's certificate verified, and media keys exist only after it, is property C05 / C11");
}

void ruleC23(Program& p, Report& r)
{
    auto vPub = enumValue(p, "srtc::Direction", "Publish"), vSub = enumValue(p, "srtc::Direction", "Subscribe"),
         vFailed = enumValue(p, "PeerConnection::ConnectionState", "Failed"), vClosed = enumValue(p, "PeerConnection::ConnectionState", "Closed"),
         vConnected = enumValue(p, "PeerConnection::ConnectionState", "Connected");
    if (!vPub || !vSub || !vFailed || !vClosed || !vConnected) {
        r.errors.push_back("enumerations Direction / ConnectionState not found");
        return;
    }
    const int64_t pub = *vPub, sub = *vSub;
    FlowSpec s;
    int dp = s.fact("the connection publishes"), ds = s.fact("the connection subscribes"), conn = s.fact("the connection is up"), nf = s.fact("the connection is not failed"),
        nc = s.fact("the connection is not closed"), found = s.fact("the track belongs to the connection"), searched = s.fact("the track was searched"),
        hit = s.fact("the search ended before the end"), neg = s.fact("data channels were negotiated"), o0 = s.fact("no offer is set"), a0 = s.fact("no answer is set"),
        idle = s.fact("the connection is not started"), dir = s.fact("the directions agree"), arg0 = s.fact("the description given is empty"),
        o1 = s.fact("an offer is set"), a1 = s.fact("an answer is set"), inSub = s.fact("entered through a call for subscribers"),
        inPub = s.fact("entered through a call for publishers"), size = s.fact("the size limit was looked at"),
        marked = s.fact("the connection was just marked as started");
    auto fld = [&](int id, const char* n, Range rg) { s.fields.push_back({ id, pcMatch(n), rg }); };
    fld(dp, "mDirection", Range::eq(pub));
    fld(ds, "mDirection", Range::eq(sub));
    // two values only
    s.differs(dp, pcMatch("mDirection"), sub);
    s.differs(ds, pcMatch("mDirection"), pub);
    fld(conn, "mConnectionState", Range::eq(*vConnected));
    s.differs(nf, pcMatch("mConnectionState"), *vFailed);
    s.differs(nc, pcMatch("mConnectionState"), *vClosed);
    fld(neg, "mDataChannelsNegotiated", Range::nonzero());
    fld(o0, "mSdpOffer", Range::eq(0));
    fld(a0, "mSdpAnswer", Range::eq(0));
    fld(o1, "mSdpOffer", Range::nonzero());
    fld(a1, "mSdpAnswer", Range::nonzero());
    fld(idle, "mIsStarted", Range::eq(0));
    fld(size, "mDataChannelMaxMessageSize", Range::all());
    auto isDir = [&p](const Value* v) {
        if (auto* l = dyn_cast<LoadInst>(v))
            return p.field(l->getPointerOperand()).name == "mDirection";
        if (auto* cb = dyn_cast<CallBase>(v))
            for (auto* t : p.callees(cb))
                if (endsWith(p.name(t), "::getDirection"))
                    return true;
        return false;
    };
    auto isTrack = [&p](const Value* v) {
        auto* l = dyn_cast<LoadInst>(v);
        return l && p.field(l->getPointerOperand()).name == "track" && contains(p.field(l->getPointerOperand()).cls, "TrackEntry");
    };
    auto two = [](std::function<bool(const Value*)> a, std::function<bool(const Value*)> b) {
        return [=](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
            auto *x = originOf(res(c->getOperand(0))), *y = originOf(res(c->getOperand(1)));
            return (a(x) && b(y)) || (a(y) && b(x));
        };
    };
    s.cmps.push_back({ dir, two(isDir, isDir) });
    // two stored track pointers, by the aliasing type of the load (elements reached through an iterator carry no other type)
    auto trackPtr = [](const Value* v) {
        auto* l = dyn_cast<LoadInst>(v);
        auto* md = l ? l->getMetadata(LLVMContext::MD_tbaa) : nullptr;
        auto* base = md && md->getNumOperands() ? dyn_cast<MDNode>(md->getOperand(0)) : nullptr;
        auto* nm = base && base->getNumOperands() ? dyn_cast<MDString>(base->getOperand(0)) : nullptr;
        return nm && nm->getString().contains("shared_ptrIN4srtc5TrackE");
    };
    s.cmps.push_back({ found, two(isTrack, [](const Value* v) { return !isa<Constant>(v); }) });
    s.cmps.push_back({ found, two(trackPtr, trackPtr) });
    s.call(found, [&p](const CallBase* cb, const Function* f) {
        return startsWith(p.name(f), "std::operator==") && contains(p.fullName(f), "srtc::Track") && cb->arg_size() == 2 &&
               (p.field(cb->getArgOperand(0)).name == "track" || p.field(cb->getArgOperand(1)).name == "track");
    }, Range::nonzero());
    s.call(searched, [&p](const CallBase*, const Function* f) { return (startsWith(p.name(f), "std::find") || startsWith(p.name(f), "std::any_of")) && contains(p.fullName(f), "TrackEntry"); });
    s.call(hit, [&p](const CallBase*, const Function* f) { return startsWith(p.name(f), "std::any_of") && contains(p.fullName(f), "TrackEntry"); }, Range::nonzero());
    auto isEnd = [&p](const Value* v) {
        auto* cb = dyn_cast<CallBase>(v);
        if (cb)
            for (auto* t : p.callees(cb))
                if (endsWith(p.name(t), "::end") || endsWith(p.name(t), "::cend"))
                    return true;
        return false;
    };
    s.cmps.push_back({ hit, two(isEnd, [](const Value* v) { return !isa<Constant>(v); }), true });
    s.cmps.push_back({ arg0, [](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
                          auto *x = res(c->getOperand(0)), *y = res(c->getOperand(1));
                          if (isa<ConstantPointerNull>(x))
                              std::swap(x, y);
                          auto* l = dyn_cast<LoadInst>(x);
                          return isa<ConstantPointerNull>(y) && l && isa<Argument>(l->getPointerOperand());
                      } });
    auto enters = [&p](const Instruction* i, bool subscriber) {
        if (!entryOf(i) || !ofClass(p, i->getFunction()))
            return false;
        auto n = p.name(i->getFunction());
        if (subscriber)
            return contains(n, "::createSubscribe") || contains(n, "::parseSubscribe") || contains(n, "::requestPictureLoss");
        return contains(n, "::createPublish") || contains(n, "::parsePublish") || contains(n, "::publish") || contains(n, "::setVideoCodecSpecificData") || contains(n, "::updateVideoSimulcastLayer");
    };
    s.events.push_back({ inSub, [=](const Instruction* i) { return enters(i, true); }, 0, true });
    s.events.push_back({ inPub, [=](const Instruction* i) { return enters(i, false); }, 0, true });

    std::vector<FactSet> needs;
    auto sink = [&](const char* rule, std::function<bool(const Instruction*)> m, FactSet use, std::function<bool(FactSet)> ok, int n = 1) {
        needs.push_back(use);
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = m;
        k.ok = ok;
        k.minCount = n;
        s.sinks.push_back(k);
    };
    auto grows = [&p](const Instruction* i, const char* field) {
        auto* cb = asCall(i);
        if (!cb || !cb->arg_size() || !cb->getCalledFunction() || !pcField(p.field(cb->getArgOperand(0)), field))
            return false;
        auto& n = p.fullName(cb->getCalledFunction());
        for (auto* m : { "::push_back", "::push_front", "::emplace", "::insert", "::splice", "::_M_insert" })
            if (contains(n, m))
                return true;
        return false;
    };
    auto frames = [=](const Instruction* i) { return grows(i, "mFrameSendQueue"); };
    auto datas = [=](const Instruction* i) { return grows(i, "mDataSendQueue"); };
    auto direction = [=](FactSet f) { return (f & (B(inSub) | B(inPub))) && (!(f & B(inSub)) || (f & B(ds))) && (!(f & B(inPub)) || (f & B(dp))); };
    const FactSet dirs = B(dp) | B(ds) | B(inSub) | B(inPub);
    sink("frames and requests are queued only on a connection of the right direction", frames, dirs, direction);
    sink("frames and requests are queued only while connected", frames, B(conn), [=](FactSet f) { return (f & B(conn)) != 0; });
    sink("frames and requests are queued only for a track of the connection", frames, B(found) | B(searched) | B(hit),
         [=](FactSet f) { return (f & B(found)) || ((f & B(searched)) && (f & B(hit))); });
    sink("messages are queued only when data channels were negotiated", datas, B(neg), [=](FactSet f) { return (f & B(neg)) != 0; });
    sink("messages are not queued on a failed or closed connection", datas, B(nf) | B(nc) | B(conn), [=](FactSet f) { return (f & B(conn)) || ((f & B(nf)) && (f & B(nc))); });
    sink("messages are queued only after the size limit was looked at", datas, B(size), [=](FactSet f) { return (f & B(size)) != 0; });
    auto sets = [&p](const Instruction* i, const char* field) {
        if (isCtor(p, i->getFunction()) || contains(p.name(i->getFunction()), "::~"))
            return false;
        if (auto* st = dyn_cast<StoreInst>(i))
            return pcField(p.field(st->getPointerOperand()), field) && !isa<ConstantPointerNull>(st->getValueOperand());
        auto* cb = asCall(i);
        if (!cb || !cb->arg_size() || !cb->getCalledFunction() || !pcField(p.field(cb->getArgOperand(0)), field))
            return false;
        auto& n = p.fullName(cb->getCalledFunction());
        return contains(n, "::operator=") || contains(n, "::swap(");
    };
    auto offer = [=](const Instruction* i) { return sets(i, "mSdpOffer"); };
    auto answer = [=](const Instruction* i) { return sets(i, "mSdpAnswer"); };
    sink("an offer is set once", offer, B(o0), [=](FactSet f) { return (f & B(o0)) != 0; });
    sink("an offer is set before the connection starts", offer, B(idle), [=](FactSet f) { return (f & B(idle)) != 0; });
    sink("an offer is set only when its direction is the connection's", offer, B(dir), [=](FactSet f) { return (f & B(dir)) != 0; });
    sink("an answer is set once", answer, B(a0), [=](FactSet f) { return (f & B(a0)) != 0; });
    sink("an answer is set before the connection starts", answer, B(idle), [=](FactSet f) { return (f & B(idle)) != 0; });
    sink("an answer is set only when its direction is the offer's", answer, B(dir) | B(o0) | B(arg0), [=](FactSet f) { return (f & (B(dir) | B(o0) | B(arg0))) != 0; });
    auto start = [&p](const Instruction* i) {
        auto* cb = asCall(i);
        if (!cb || !cb->getCalledFunction() || !ofClass(p, i->getFunction()))
            return false;
        return contains(p.fullName(cb->getCalledFunction()), "std::thread::thread<");
    };
    auto marks = [&p](const Instruction* i) {
        auto* st = dyn_cast<StoreInst>(i);
        auto* c = st ? dyn_cast<ConstantInt>(st->getValueOperand()) : nullptr;
        return c && !c->isZero() && pcField(p.field(st->getPointerOperand()), "mIsStarted");
    };
    s.events.push_back({ marked, marks, 0, true });
    s.events.push_back({ marked, [=](const Instruction* i) { return start(i); }, B(marked), false });
    sink("the connection is marked as started once", marks, B(idle), [=](FactSet f) { return (f & B(idle)) != 0; });
    sink("the worker is started once", start, B(idle) | B(marked), [=](FactSet f) { return (f & (B(idle) | B(marked))) != 0; });
    sink("the worker is started only with both descriptions", start, B(o1) | B(a1), [=](FactSet f) { return (f & B(o1)) && (f & B(a1)); });
    auto toFn = [&p](const char* name) {
        return [&p, name](const Instruction* i) { return ofClass(p, i->getFunction()) && callTo(p, i, [&](const Function* f) { return p.name(f) == name; }); };
    };
    sink("an offer is made only by a connection of its direction", toFn("srtc::SdpOffer::SdpOffer"), dirs, direction);
    sink("an answer is parsed only by a connection of its direction", toFn("srtc::SdpAnswer::parse"), dirs, direction);
    // the offer carries the direction of the call that made it
    int nOffer = 0;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (toFn("srtc::SdpOffer::SdpOffer")(&i)) {
                nOffer++;
                auto n = p.name(f);
                auto* cb = cast<CallBase>(&i);
                for (auto& a : cb->args())
                    if (auto* c = dyn_cast<ConstantInt>(a); c && c->getBitWidth() == 32 && (contains(n, "createPublish") || contains(n, "createSubscribe"))) {
                        bool ok = c->getSExtValue() == (contains(n, "createPublish") ? pub : sub);
                        r.obligation(ok);
                        r.site("an offer has the direction of the call that made it", Program::loc(&i));
                        if (!ok)
                            r.viol("an offer has the direction of the call that made it", Program::loc(&i), n, "the offer is made for the other direction");
                    }
            }
    r.need("offers made", nOffer);
    runEach(p, r, s, needs);
    r.assumptions.push_back("while the connection is not (yet, or any longer) up, frames and picture loss requests are ignored without an error, by design");
}
