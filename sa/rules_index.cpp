// C14: packet indices of outgoing packets
#include "rules.h"
#include "rules_keys.h"
#include "rules_util.h"
#include "sym.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/IR/Dominators.h"

// the call that makes an outgoing RtpPacket and where its rollover and sequence operands are
struct MakePacket {
    const CallBase* cb;
    unsigned track, rollover, sequence;
};
static std::optional<MakePacket> makePacket(Program& p, const Instruction* i)
{
    auto* cb = asCall(i);
    if (!cb || !p.isProject(i->getFunction()))
        return std::nullopt;
    auto* t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
    if (!t || !startsWith(p.fullName(t), "srtc::RtpPacket::RtpPacket(std::shared_ptr<srtc::Track>"))
        return std::nullopt;
    if (cb->arg_size() == 8 || cb->arg_size() == 9)
        return MakePacket{ cb, 1, 3, 4 };
    return std::nullopt; // a received packet
}

static bool isDraw(Program& p, const Function* f) { auto n = p.name(f); return n == "srtc::RtpPacketSource::getNextSequence" || n == "srtc::RtcpPacketSource::getNextSequence"; }

static std::string byteIn(Sym& s, const Value* v, unsigned k, const Instruction* at)
{
    return v->getType()->isPointerTy() ? s.memAt(v, k, at) : s.byteOf(v, k);
}

// media packets carry the freshly drawn index of their own track
static void mediaDraws(Program& p, Report& r)
{
    const char* rule = "an outgoing media packet is built with the rollover and sequence of one fresh draw from its own track";
    auto has = [&](const Function* f) {
        for (auto& i : instructions(f))
            if (makePacket(p, &i))
                return true;
        return false;
    };
    std::vector<const Function*> work;
    std::set<const Function*> seen, inl;
    for (auto* f : p.funcs)
        if (has(f)) {
            work.push_back(f);
            inl.insert(f);
        }
    int sites = 0;
    while (!work.empty()) {
        auto* f0 = work.back();
        work.pop_back();
        if (!seen.insert(f0).second)
            continue;
        Program::SpecOpts o;
        o.keep = [&](const Function* g) { return p.isProject(g) && !inl.count(g); };
        auto* f = p.specialise(f0, o);
        Sym s(p, f);
        std::map<std::string, const CallBase*> drawAt;
        for (auto& i : instructions(f)) {
            auto m = makePacket(p, &i);
            if (!m)
                continue;
            auto rb = byteIn(s, m->cb->getArgOperand(m->rollover), 0, m->cb);
            if (startsWith(rb, "arg") || startsWith(rb, "mem[arg") || startsWith(rb, "*arg")) {
                // a helper that is given the index
                inl.insert(f0);
                for (auto* c : p.callersOf(f0))
                    if (p.isProject(c->getFunction()))
                        work.push_back(c->getFunction());
                continue;
            }
            sites++;
            std::string bad;
            for (unsigned k = 0; k < 6 && bad.empty(); k++) {
                auto b = byteIn(s, m->cb->getArgOperand(k < 4 ? m->rollover : m->sequence), k < 4 ? k : k - 4, m->cb);
                auto want = "srtc::RtpPacketSource::getNextSequence()[" + std::to_string(k) + "]";
                if (b != want)
                    bad = std::string(k < 4 ? "the rollover" : "the sequence") + " is not the drawn one but " + b;
            }
            // the source belongs to the track of the packet
            auto* src = [&]() -> const CallBase* {
                for (auto& j : instructions(f))
                    if (auto* cb = asCall(&j); cb && cb->getCalledFunction() && isDraw(p, cb->getCalledFunction()))
                        return cb;
                return nullptr;
            }();
            if (bad.empty() && src) {
                auto rtp = resultOf(p, { "srtc::Track::getRtpPacketSource" });
                const CallBase* g = nullptr;
                if (!derivesFrom(p, src->getArgOperand(0), [&](const Value* v) {
                        if (!rtp(v))
                            return false;
                        g = cast<CallBase>(v);
                        return true;
                    }))
                    bad = "the index is not drawn from the media packet source of a track";
                else if (g) {
                    // the object the getter is called on, and the object given to the packet
                    auto obj = g->getArgOperand(g->arg_size() - 1);
                    auto trackObj = [&](const Value* v) {
                        v = originOf(v);
                        while (auto* c = dyn_cast<CallBase>(v)) { // operator-> / get
                            if (!c->arg_size())
                                break;
                            v = originOf(c->getArgOperand(0));
                        }
                        return s.addr(v);
                    };
                    auto strip = [](std::string x) { return x.substr(std::min(x.find_first_not_of('*'), x.size())); };
                    auto owner = strip(trackObj(m->cb->getArgOperand(m->track)));
                    if (!startsWith(strip(trackObj(obj)), owner.c_str()))
                        bad = "the index is drawn from " + trackObj(obj) + " but the packet belongs to " + trackObj(m->cb->getArgOperand(m->track));
                }
            }
            r.obligation(bad.empty());
            r.site(rule, Program::loc(m->cb));
            if (!bad.empty())
                r.viol(rule, Program::loc(m->cb), p.name(f0), bad);
        }
    }
    r.need("outgoing media packets built", sites);
    // freshness on every path
    FlowSpec fs;
    int fresh = fs.fact("an unused index was drawn");
    FactSet F = FactSet(1) << fresh;
    auto draws = [&p](const Instruction* i) { return callTo(p, i, [&p](const Function* f) { return isDraw(p, f); }); };
    auto isMake = [&p](const Instruction* i) { return makePacket(p, i).has_value(); };
    auto isCtl = [&p](const Instruction* i) {
        return callTo(p, i, [&p](const Function* f) { return p.name(f) == "srtc::SrtpConnection::protectSendControl"; });
    };
    auto rtx = [&p](const Instruction* i) { return isa<ReturnInst>(i) && p.name(i->getFunction()) == "srtc::RtpPacket::generateRtx"; };
    fs.events.push_back({ fresh, [&](const Instruction* i) { return isMake(i) || isCtl(i) || rtx(i) || (entryOf(i) && p.name(i->getFunction()) == "srtc::RtpPacket::generateRtx"); }, F, false });
    fs.events.push_back({ fresh, draws, 0, true });
    auto sink = [&](const char* rl, std::function<bool(const Instruction*)> m) {
        FlowSpec::Sink k;
        k.rule = rl;
        k.match = m;
        k.ok = [F](FactSet f) { return (f & F) != 0; };
        fs.sinks.push_back(k);
    };
    sink("every media packet uses an index that no earlier packet used", isMake);
    sink("every control packet uses an index that no earlier packet used", isCtl);
    sink("every retransmission uses an index that no earlier packet used", rtx);
    addFlow(r, fs, runFlow(p, fs));
}

// the sources themselves: the new value is the old one plus one, the rollover follows the wrap
static void counters(Program& p, Report& r)
{
    const char* rule = "a draw advances the index and never repeats one";
    auto store = [&](Function* f, const char* field) {
        std::vector<const StoreInst*> v;
        for (auto& i : instructions(f))
            if (auto* st = dyn_cast<StoreInst>(&i); st && p.field(st->getPointerOperand()).name == field)
                v.push_back(st);
        return v;
    };
    auto plusOne = [&](Sym& s, const Value* v, const char* field) {
        v = stripCasts(v);
        while (isa<ZExtInst>(v) || isa<TruncInst>(v))
            v = cast<Instruction>(v)->getOperand(0);
        auto* b = dyn_cast<BinaryOperator>(v);
        if (!b || b->getOpcode() != Instruction::Add)
            return false;
        auto* k = dyn_cast<ConstantInt>(b->getOperand(1));
        auto* l = b->getOperand(0);
        while (isa<ZExtInst>(l) || isa<TruncInst>(l))
            l = cast<Instruction>(l)->getOperand(0);
        auto* ld = dyn_cast<LoadInst>(l);
        return k && k->isOne() && ld && p.field(ld->getPointerOperand()).name == field;
    };
    auto check = [&](const Function* f0, const Instruction* at, bool ok, const std::string& why) {
        r.obligation(ok);
        r.site(rule, Program::loc(at));
        if (!ok)
            r.viol(rule, Program::loc(at), p.name(f0), why);
    };
    // control
    if (auto* f0 = findFn(p, "srtc::RtcpPacketSource::getNextSequence")) {
        Program::SpecOpts o;
        auto* f = p.specialise(f0, o);
        Sym s(p, f);
        auto st = store(f, "mNextSequence");
        bool ok = st.size() == 1 && plusOne(s, st[0]->getValueOperand(), "mNextSequence");
        DominatorTree dt(*f);
        for (auto& bb : *f)
            if (auto* ret = dyn_cast<ReturnInst>(bb.getTerminator())) {
                check(f0, ret, ok && dt.dominates(st[0], ret), "the counter is not advanced by one on every draw");
                if (ok) {
                    auto* v = ret->getReturnValue();
                    auto* l = dyn_cast<LoadInst>(v);
                    bool same = v == st[0]->getValueOperand() || (l && p.field(l->getPointerOperand()).name == "mNextSequence");
                    // the value before the increment is just as unique
                    check(f0, ret, same, "the drawn index is not the counter");
                }
            }
    } else
        r.errors.push_back("srtc::RtcpPacketSource::getNextSequence not found");
    // media: in general, when the sequence wraps, when it does not
    auto* f0 = findFn(p, "srtc::RtpPacketSource::getNextSequence");
    if (!f0) {
        r.errors.push_back("srtc::RtpPacketSource::getNextSequence not found");
        return;
    }
    for (int wrap = 0; wrap < 2; wrap++) {
        Program::SpecOpts o;
        o.assume = [&](const Value* v) -> std::optional<int64_t> {
            // the comparison that detects the wrap: sequence after the increment with zero (before it with 65535)
            if (auto* c = dyn_cast<ICmpInst>(v); c && c->isEquality()) {
                auto* k = dyn_cast<ConstantInt>(c->getOperand(1));
                auto* x = c->getOperand(0);
                while (isa<ZExtInst>(x) || isa<TruncInst>(x) || isa<FreezeInst>(x))
                    x = cast<Instruction>(x)->getOperand(0);
                const LoadInst* l = dyn_cast<LoadInst>(x);
                bool after = false;
                if (auto* b = dyn_cast<BinaryOperator>(x); b && b->getOpcode() == Instruction::Add) {
                    auto* y = b->getOperand(0);
                    while (isa<ZExtInst>(y) || isa<TruncInst>(y))
                        y = cast<Instruction>(y)->getOperand(0);
                    l = dyn_cast<LoadInst>(y);
                    after = true;
                }
                if (k && l && p.field(l->getPointerOperand()).name == "mNextSequence" && (after ? k->isZero() : (k->getZExtValue() & 0xffff) == 0xffff))
                    return (c->getPredicate() == ICmpInst::ICMP_EQ) == bool(wrap);
            }
            // it is not the first draw
            if (auto* l = dyn_cast<LoadInst>(v); l && p.field(l->getPointerOperand()).name == "mGeneratedCount")
                return 7;
            return std::nullopt;
        };
        auto* f = p.specialise(f0, o);
        Sym s(p, f);
        DominatorTree dt(*f);
        auto sq = store(f, "mNextSequence"), ro = store(f, "mRollover");
        const Instruction* at = f->getEntryBlock().getTerminator();
        bool seqOk = sq.size() == 1 && plusOne(s, sq[0]->getValueOperand(), "mNextSequence");
        check(f0, at, seqOk, "the sequence number is not advanced by exactly one");
        bool roOk = wrap ? ro.size() == 1 && plusOne(s, ro[0]->getValueOperand(), "mRollover") : ro.empty();
        check(f0, ro.empty() ? at : ro[0], roOk, wrap ? "the rollover counter is not advanced when the sequence number wraps" : "the rollover counter changes although the sequence number did not wrap");
        for (auto& bb : *f)
            if (auto* ret = dyn_cast<ReturnInst>(bb.getTerminator())) {
                if (seqOk)
                    check(f0, ret, dt.dominates(sq[0], ret), "a draw can leave the sequence number unchanged");
                if (wrap && roOk)
                    check(f0, ret, dt.dominates(ro[0], ret), "the rollover counter is not always advanced when the sequence number wraps");
                if (!seqOk || !roOk)
                    continue;
                // returned pair: rollover in the low half, sequence above it
                auto field = [&](unsigned k) { return s.byteOf(ret->getReturnValue(), k); };
                auto want = [&](const Value* v, unsigned k) { return s.byteOf(v, k); };
                std::string bad;
                for (unsigned k = 0; k < 2 && bad.empty(); k++) {
                    auto g = field(4 + k);
                    if (g != want(sq[0]->getValueOperand(), k) && !startsWith(g, "mem[arg0.mNextSequence"))
                        bad = "the drawn sequence is " + g;
                }
                for (unsigned k = 0; k < 4 && bad.empty(); k++) {
                    auto g = field(k);
                    bool mem = startsWith(g, "mem[arg0.mRollover");
                    if (wrap ? (g != want(ro[0]->getValueOperand(), k)) && !mem : !mem)
                        bad = "the drawn rollover is " + g;
                }
                check(f0, ret, bad.empty(), bad);
            }
    }
}

// the generated bytes: sequence and SSRC where the cipher looks for them, and the rollover that belongs to them
static void packetBytes(Program& p, Report& r)
{
    const char* rule = "the generated packet carries the index it is protected with";
    struct { const char* fn; bool rtx; } gen[] = { { "srtc::RtpPacket::generate", false }, { "srtc::RtpPacket::generateRtx", true } };
    for (auto& g : gen) {
        auto* f0 = findFn(p, g.fn);
        if (!f0) {
            r.errors.push_back(std::string(g.fn) + " not found");
            continue;
        }
        Program::SpecOpts o;
        o.keep = [&](const Function* h) { auto n = p.name(h); return startsWith(n, "srtc::ByteBuffer::") || startsWith(n, "srtc::ByteWriter::") || startsWith(n, "srtc::RtpExtension") || isDraw(p, h) || n == "srtc::log" || n == "srtc::Track::getRtxPacketSource" || n == "srtc::Track::getRtpPacketSource"; };
        auto* f = p.specialise(f0, o);
        Sym s(p, f);
        std::vector<const CallBase*> ws;
        const CallBase* draw = nullptr;
        ReversePostOrderTraversal<Function*> rpo(f);
        for (auto* bb : rpo)
            for (auto& i : *bb)
                if (auto* cb = asCall(&i); cb && cb->getCalledFunction()) {
                    auto n = p.name(cb->getCalledFunction());
                    if (startsWith(n, "srtc::ByteWriter::write"))
                        ws.push_back(cb);
                    if (isDraw(p, cb->getCalledFunction()))
                        draw = cb;
                }
        auto check = [&](const Instruction* at, bool ok, const std::string& why) {
            r.obligation(ok);
            r.site(rule, Program::loc(at));
            if (!ok)
                r.viol(rule, Program::loc(at), g.fn, why);
        };
        // byte positions of what is written first
        std::vector<std::string> out;
        for (auto* w : ws) {
            if (out.size() >= 12 || w->arg_size() < 2 || !w->getArgOperand(1)->getType()->isIntegerTy())
                break;
            auto n = p.name(w->getCalledFunction());
            unsigned k = endsWith(n, "U8") ? 1 : endsWith(n, "U16") ? 2 : endsWith(n, "U32") ? 4 : 0;
            if (!k)
                break;
            for (unsigned j = k; j-- > 0;)
                out.push_back(s.byteOf(w->getArgOperand(1), j));
        }
        const Instruction* at = ws.empty() ? f->getEntryBlock().getTerminator() : ws[0];
        if (out.size() < 12) {
            check(at, false, "the fixed header is not written as one sequence of integers");
            continue;
        }
        std::string bad;
        for (unsigned k = 0; k < 2 && bad.empty(); k++) {
            auto want = g.rtx ? "srtc::RtpPacketSource::getNextSequence()[" + std::to_string(4 + 1 - k) + "]" : "mem[arg1.mSequence" + std::string(k == 0 ? "+1" : "") + "]";
            if (out[2 + k] != want)
                bad = "sequence byte " + std::to_string(k) + " is " + out[2 + k];
        }
        for (unsigned k = 0; k < 4 && bad.empty(); k++) {
            bool ok = g.rtx ? contains(out[8 + k], "mRtxSSRC") || contains(out[8 + k], "mSSRC") : startsWith(out[8 + k], "mem[arg1.mSSRC");
            if (g.rtx && ok) // the retransmission stream's own SSRC
                ok = contains(out[8 + k], "mRtxSSRC") || contains(out[8 + k], "RtxPacketSource");
            if (!ok)
                bad = "SSRC byte " + std::to_string(k) + " is " + out[8 + k];
        }
        if (g.rtx && bad.empty()) {
            bool own = draw && derivesFrom(p, draw->getArgOperand(0), resultOf(p, { "srtc::Track::getRtxPacketSource" }));
            if (!own)
                bad = "the index of a retransmission is not drawn from the retransmission source";
        }
        check(at, bad.empty(), bad);
        // the result's rollover
        auto* ot = p.composite("srtc::RtpPacket::Output");
        int64_t ro = memberOffset(ot, "rollover");
        int stores = 0;
        for (auto& i : instructions(f))
            if (auto* st = dyn_cast<StoreInst>(&i)) {
                Lin l = s.lin(st->getPointerOperand());
                if (l.c != ro || l.t.size() != 1 || l.t.begin()->first != f->getArg(0))
                    continue;
                stores++;
                std::string b2;
                for (unsigned k = 0; k < 4 && b2.empty(); k++) {
                    auto got = s.byteOf(st->getValueOperand(), k);
                    auto want = g.rtx ? "srtc::RtpPacketSource::getNextSequence()[" + std::to_string(k) + "]" : "mem[arg1.mRollover" + (k ? "+" + std::to_string(k) : std::string()) + "]";
                    if (got != want && got != "0x00")
                        b2 = "the rollover handed to the cipher is " + got;
                    else if (got == "0x00" && isa<Constant>(st->getValueOperand()) && !cast<Constant>(st->getValueOperand())->isNullValue())
                        b2 = "the rollover handed to the cipher is constant";
                }
                check(st, b2.empty(), b2);
            }
        r.need(std::string(g.fn) + ": rollover of the result", stores);
    }
    // constructors keep what they are given
    int ctors = 0;
    for (auto* f0 : std::vector<Function*>(p.funcs)) {
        if (p.name(f0) != "srtc::RtpPacket::RtpPacket" || f0->arg_size() < 8)
            continue;
        Program::SpecOpts o;
        auto* f = p.specialise(f0, o);
        unsigned sq = 0;
        for (auto& a : f->args())
            if (a.getType()->isIntegerTy(16))
                sq = a.getArgNo();
        if (!sq)
            continue;
        ctors++;
        for (auto& i : instructions(f))
            if (auto* st = dyn_cast<StoreInst>(&i)) {
                auto n = p.field(st->getPointerOperand());
                if (n.cls != "srtc::RtpPacket" || (n.name != "mRollover" && n.name != "mSequence"))
                    continue;
                auto* want = f->getArg(n.name == "mSequence" ? sq : sq - 1);
                bool ok = st->getValueOperand() == want;
                r.obligation(ok);
                if (!ok)
                    r.viol(rule, Program::loc(st), "srtc::RtpPacket::RtpPacket", n.name + " is not the value given to the constructor");
            }
    }
    r.need("RtpPacket constructors", ctors);
    // nothing changes them afterwards
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (auto* st = dyn_cast<StoreInst>(&i); st && !isCtor(p, f)) {
                auto n = p.field(st->getPointerOperand());
                if (n.cls == "srtc::RtpPacket" && (n.name == "mRollover" || n.name == "mSequence" || n.name == "mSSRC")) {
                    r.obligation(false);
                    r.viol(rule, Program::loc(st), p.name(f), n.name + " is changed after the packet was built");
                }
            }
}

// the protection calls
static void protectCalls(Program& p, Report& r)
{
    const char* rule = "a packet is protected with the index it was generated with";
    const char* one = "all control packets of a connection draw from one index counter";
    int media = 0, ctl = 0;
    std::set<std::string> sources;
    for (auto* f : p.funcs) {
        if (startsWith(p.name(f), "srtc::SrtpC"))
            continue;
        for (auto& i : instructions(f)) {
            auto* cb = asCall(&i);
            if (!cb)
                continue;
            if (callTo(p, cb, [&](const Function* t) { return p.name(t) == "srtc::SrtpConnection::protectSendMedia"; })) {
                media++;
                // packet and rollover belong to the same generated output
                const Value *buf = nullptr, *ro = nullptr;
                buf = getUnderlyingObject(originOf(cb->getArgOperand(1)));
                auto* v = originOf(cb->getArgOperand(2));
                if (auto* l = dyn_cast<LoadInst>(v))
                    ro = getUnderlyingObject(l->getPointerOperand());
                bool ok = buf && buf == ro;
                if (!ok) // resolved through locals
                    ok = derivesFrom(p, cb->getArgOperand(2), [&](const Value* x) { return x == buf; });
                r.obligation(ok);
                r.site(rule, Program::loc(cb));
                if (!ok)
                    r.viol(rule, Program::loc(cb), p.name(f), "the rollover does not belong to the packet");
            }
            if (callTo(p, cb, [&](const Function* t) { return p.name(t) == "srtc::SrtpConnection::protectSendControl"; })) {
                ctl++;
                bool ok = derivesFrom(p, cb->getArgOperand(2), resultOf(p, { "srtc::RtcpPacketSource::getNextSequence" }));
                r.obligation(ok);
                r.site(rule, Program::loc(cb));
                if (!ok)
                    r.viol(rule, Program::loc(cb), p.name(f), "the index of the control packet is not drawn from a control packet source");
                // which counters can it be
                derivesFrom(p, cb->getArgOperand(2), [&](const Value* x) {
                    if (auto* l = dyn_cast<LoadInst>(x); l && 0)
                        return false;
                    auto fr = p.field(x);
                    if (fr && !startsWith(fr.cls, "std::") && fr.cls != "srtc::RtcpPacketSource" && x->getType()->isPointerTy() && contains(p.pointeeName(x), "RtcpPacketSource"))
                        sources.insert(fr.str());
                    else if (auto* c2 = dyn_cast<CallBase>(x); c2 && resultOf(p, { "srtc::Track::getRtcpPacketSource" })(x))
                        sources.insert("srtc::Track::mRtcpPacketSource");
                    return false;
                });
                // through every caller
                std::vector<const Function*> w{ f };
                std::set<const Function*> seen;
                while (!w.empty()) {
                    auto* g = w.back();
                    w.pop_back();
                    if (!seen.insert(g).second)
                        continue;
                    for (auto* c : p.callersOf(g))
                        for (auto& a : c->args()) {
                            if (auto* t = p.pointee(a.get()); t && contains(Program::typeName(t), "RtcpPacketSource>")) {
                                derivesFrom(p, a.get(), [&](const Value* x) {
                                    auto fr = p.field(x);
                                    if (fr && !startsWith(fr.cls, "std::") && fr.cls != "srtc::RtcpPacketSource" && x->getType()->isPointerTy() && contains(p.pointeeName(x), "RtcpPacketSource"))
                                        sources.insert(fr.str());
                                    else if (resultOf(p, { "srtc::Track::getRtcpPacketSource" })(x))
                                        sources.insert("srtc::Track::mRtcpPacketSource");
                                    return false;
                                });
                                w.push_back(c->getFunction());
                            } }
                }
            }
        }
    }
    // the connection hands the index on unchanged
    int forwarded = 0;
    for (auto* f0 : std::vector<Function*>(p.funcs)) {
        auto fn = p.name(f0);
        if (fn != "srtc::SrtpConnection::protectSendMedia" && fn != "srtc::SrtpConnection::protectSendControl")
            continue;
        Program::SpecOpts o;
        o.keep = [&](const Function* g) { return startsWith(p.name(g), "srtc::SrtpCrypto::") || p.name(g) == "srtc::log"; };
        auto* f = p.specialise(f0, o);
        for (auto& i : instructions(f))
            if (auto* cb = asCall(&i); cb && cb->getCalledFunction() && startsWith(p.name(cb->getCalledFunction()), "srtc::SrtpCrypto::protectSend")) {
                forwarded++;
                bool same = stripCasts(cb->getArgOperand(2)) == f->getArg(2) && stripCasts(cb->getArgOperand(1)) == f->getArg(1);
                r.obligation(same);
                r.site(rule, Program::loc(cb));
                if (!same)
                    r.viol(rule, Program::loc(cb), fn, "the packet or the index given to the cipher is not the caller's");
            }
    }
    r.need("indices handed on to the cipher", forwarded, 2);
    r.need("media protection calls", media);
    r.need("control protection calls", ctl);
    bool ok = sources.size() == 1 && !sources.count("srtc::Track::mRtcpPacketSource");
    r.obligation(ok);
    std::string list;
    for (auto& x : sources)
        list += (list.empty() ? "" : ", ") + x;
    r.site(one, list);
    if (!ok)
        r.viol(one, "src/peer_candidate.cpp", "srtc::SrtpConnection::protectSendControl", "the index is drawn from several counters that can be used with the same SSRC: " + list);
}

// counters restart only before keys exist
static void restarts(Program& p, Report& r)
{
    FlowSpec s;
    int fst = s.fact("first time this candidate is selected"), mark = s.fact("the selection is recorded");
    s.fields.push_back({ fst, [](const FieldRef& f) { return f.cls == "srtc::PeerCandidate" && f.name == "mSentUseCandidate"; }, Range::eq(0) });
    s.events.push_back({ mark, [&p](const Instruction* i) {
                            auto* st = dyn_cast<StoreInst>(i);
                            auto* k = st ? dyn_cast<ConstantInt>(st->getValueOperand()) : nullptr;
                            return k && !k->isZero() && p.field(st->getPointerOperand()).name == "mSentUseCandidate";
                        }, 0, true });
    FlowSpec::Sink k;
    k.rule = "index counters restart only once per candidate, before its SRTP keys exist";
    k.match = [&p](const Instruction* i) {
        return callTo(p, i, [&p](const Function* f) { auto n = p.name(f); return n == "srtc::RtpPacketSource::clear" || n == "srtc::RtcpPacketSource::clear"; });
    };
    k.ok = [=](FactSet f) { return f >> mark & 1; };
    k.minCount = 0;
    s.sinks.push_back(k);
    FlowSpec::Sink first;
    first.rule = "a candidate is selected only once";
    first.match = s.events[0].match;
    first.ok = [=](FactSet f) { return f >> fst & 1; };
    s.sinks.push_back(first);
    addFlow(r, s, runFlow(p, s));
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (auto* st = dyn_cast<StoreInst>(&i); st && !isCtor(p, f) && p.field(st->getPointerOperand()).name == "mSentUseCandidate") {
                auto* c = dyn_cast<ConstantInt>(st->getValueOperand());
                bool ok = c && !c->isZero();
                r.obligation(ok);
                if (!ok)
                    r.viol(k.rule, Program::loc(st), p.name(f), "mSentUseCandidate is reset");
            }
}

// a packet taken from the send history is sent again unchanged
static void resend(Program& p, Report& r)
{
    const char* rule = "a packet that was already sent is not modified and sent again under the same index";
    std::map<const Function*, bool> memo;
    std::function<bool(const Function*, int)> modifies = [&](const Function* f, int d) {
        if (p.name(f) == "srtc::RtpPacket::setExtension")
            return true;
        if (d > 6 || !p.isProject(f))
            return false;
        auto m = memo.find(f);
        if (m != memo.end())
            return m->second;
        memo[f] = false;
        bool res = false;
        for (auto& i : instructions(f))
            res = res || callTo(p, &i, [&](const Function* t) { return modifies(t, d + 1); });
        return memo[f] = res;
    };
    for (auto* f : p.funcs) {
        bool hist = false;
        for (auto& i : instructions(f))
            hist = hist || callTo(p, &i, [&](const Function* t) { return p.name(t) == "srtc::SendRtpHistory::find"; });
        if (!hist)
            continue;
        r.site(rule, p.name(f));
        for (auto& i : instructions(f))
            if (callTo(p, &i, [&](const Function* t) { return modifies(t, 0); })) {
                r.obligation(false);
                r.viol(rule, Program::loc(&i), p.name(f), "a packet from the send history is modified");
            }
        r.obligation(true);
    }
}

void packetIndices(Program& p, Report& r)
{
    mediaDraws(p, r);
    counters(p, r);
    packetBytes(p, r);
    protectCalls(p, r);
    restarts(p, r);
    resend(p, r);
}
