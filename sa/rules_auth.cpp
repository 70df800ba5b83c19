// C05 authentication before effect, C06 replay, C07 DTLS fingerprint gate, C08 STUN gate, C09 SCTP gate
#include "rules.h"
#include "rules_keys.h"
#include "rules_util.h"

static bool isUnprotectCrypto(Program& p, const Function* f)
{
    return startsWith(p.name(f), "srtc::SrtpCrypto::unprotect");
}
static bool isUnprotectConn(Program& p, const Function* f)
{
    return startsWith(p.name(f), "srtc::SrtpConnection::unprotect");
}

struct AuthFacts {
    FactSet hinit, hupd, hfin, memcmp, tagset, final, all;
    bool auth(FactSet f) const
    {
        return ((f & memcmp) && (f & hupd) && (f & hfin) && (f & hinit)) || ((f & tagset) && (f & final));
    }
};

static AuthFacts addAuthFacts(Program& p, FlowSpec& s)
{
    AuthFacts a{};
    auto bit = [&](const char* n) { return s.fact(n); };
    int hinit = bit("MAC keyed"), hupd = bit("MAC over data"), hfin = bit("MAC finished"), mc = bit("MAC compared equal"),
        ts = bit("GCM tag set"), fin = bit("GCM final verified");
    a.hinit = FactSet(1) << hinit;
    a.hupd = FactSet(1) << hupd;
    a.hfin = FactSet(1) << hfin;
    a.memcmp = FactSet(1) << mc;
    a.tagset = FactSet(1) << ts;
    a.final = FactSet(1) << fin;
    a.all = a.hinit | a.hupd | a.hfin | a.memcmp | a.tagset | a.final;
    auto c = [](const char* n) {
        return [n](const CallBase* cb, const Function* f) { return f->getName() == n; };
    };
    s.call(hinit, c("EVP_MAC_init"));
    s.call(mc, c("CRYPTO_memcmp"), Range::eq(0));
    s.call(fin, c("EVP_DecryptFinal_ex"), Range::ge(1));
    s.call(
        ts,
        [](const CallBase* cb, const Function* f) {
            if (f->getName() != "EVP_CIPHER_CTX_ctrl")
                return false;
            auto* k = dyn_cast<ConstantInt>(cb->getArgOperand(1));
            auto* n = dyn_cast<ConstantInt>(cb->getArgOperand(2));
            return k && k->getZExtValue() == 0x11 && n && n->getZExtValue() == 16;
        },
        Range::nonzero());
    s.events.push_back({ hinit, [](const Instruction* i) { return calls(i, "EVP_MAC_init"); }, a.hupd | a.hfin | a.memcmp, false });
    s.events.push_back({ hupd, [](const Instruction* i) { return calls(i, "EVP_MAC_update"); }, a.hfin | a.memcmp, true });
    s.events.push_back({ hfin, [](const Instruction* i) { return calls(i, "EVP_MAC_final"); }, a.memcmp, true });
    s.events.push_back({ ts, [](const Instruction* i) { return calls(i, "EVP_DecryptInit_ex"); }, a.tagset | a.final, false });
    return a;
}

static void ruleC05(Program& p, Report& r)
{
    FlowSpec s;
    auto a = addAuthFacts(p, s);
    // a packet starts unauthenticated
    s.events.push_back({ 0,
        [&](const Instruction* i) {
            return entryOf(i) && (isUnprotectCrypto(p, i->getFunction()) || isUnprotectConn(p, i->getFunction()) ||
                                     p.name(i->getFunction()) == "srtc::PeerCandidate::onReceivedRtcMessage");
        },
        a.all, false });
    int acc = s.fact("packet accepted by SrtpConnection");
    const FactSet ACC = FactSet(1) << acc;
    s.call(acc, [&p](const CallBase*, const Function* f) { return isUnprotectConn(p, f); }, Range::nonzero());
    s.events.push_back({ acc, [&](const Instruction* i) { return entryOf(i) && p.name(i->getFunction()) == "srtc::PeerCandidate::onReceivedRtcMessage"; }, ACC, false });
    s.events.push_back({ acc, [&](const Instruction* i) {
                            auto* cb = asCall(i);
                            return cb && cb->getCalledFunction() && isUnprotectConn(p, cb->getCalledFunction());
                        }, ACC, false });
    auto ok = [a](FactSet f) { return a.auth(f); };
    auto okAccepted = [ACC](FactSet f) { return (f & ACC) != 0; };
    auto retSink = [&](const char* rule, bool (*which)(Program&, const Function*), int n) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.ret = true;
        k.retFn = [&p, which](const Function* f) { return which(p, f); };
        k.retRange = Range::nonzero();
        k.ok = ok;
        k.minCount = n;
        s.sinks.push_back(k);
    };
    retSink("decryption reports success only after the integrity check passed", isUnprotectCrypto, 5);
    retSink("a packet is accepted only after the integrity check passed", isUnprotectConn, 2);
    auto callSink = [&](const char* rule, std::function<bool(const Function*)> m, int n, std::function<bool(const CallBase*)> extra = {}) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = [&p, m, extra](const Instruction* i) {
            auto* cb = asCall(i);
            if (!cb || !p.isProject(i->getFunction()))
                return false;
            for (auto* t : p.callees(cb))
                if (m(t))
                    return !extra || extra(cb);
            return false;
        };
        k.ok = extra || contains(rule, "parsed") ? std::function<bool(FactSet)>(okAccepted) : ok;
        k.minCount = n;
        s.sinks.push_back(k);
    };
    auto named = [&p](const char* n) { return [&p, n](const Function* f) { return p.name(f) == n; }; };
    callSink("the replay window is advanced only by an authenticated packet", named("srtc::ReplayProtection::set"), 2);
    callSink("received RTCP is parsed only after authentication", named("srtc::RtcpPacket::fromUdpPacket"), 1);
    callSink("received RTP is parsed only after authentication", named("srtc::RtpPacket::fromUdpPacket"), 1);
    callSink("received-traffic statistics count only authenticated packets",
        [&p](const Function* f) {
            auto n = p.name(f);
            return startsWith(n, "srtc::TrackStats::incrementReceived") || n == "srtc::TrackStats::setReceivedSenderReport" ||
                   n == "srtc::TrackStats::setReceivedHighestSeqEx";
        },
        2, [&p](const CallBase* cb) { return startsWith(p.name(cb->getFunction()), "srtc::PeerCandidate"); });
    callSink("media and feedback are delivered only after authentication",
        [&p](const Function* f) { return contains(p.name(f), "::onCandidateReceived"); }, 3,
        [&p](const CallBase* cb) { return startsWith(p.name(cb->getFunction()), "srtc::PeerCandidate"); });
    FlowSpec::Sink k;
    k.rule = "per-stream rollover and sequence state changes only after authentication";
    k.match = [&p](const Instruction* i) {
        auto* st = dyn_cast<StoreInst>(i);
        if (!st || !p.isProject(i->getFunction()))
            return false;
        auto f = p.field(st->getPointerOperand());
        if (!endsWith(f.cls, "SrtpConnection::ChannelValue") || f.name == "replayProtection")
            return false;
        APInt o(64, 0);
        return !isa<AllocaInst>(st->getPointerOperand()->stripAndAccumulateConstantOffsets(p.dl(), o, true)) &&
               !isCtor(p, i->getFunction());
    };
    k.ok = ok;
    k.minCount = 2;
    s.sinks.push_back(k);
    addFlow(r, s, runFlow(p, s));
    srtpCoverage(p, r);
}

void ruleReplayWindow(Program& p, Report& r);

static void ruleC06(Program& p, Report& r)
{
    ruleReplayWindow(p, r);
    FlowSpec s;
    auto a = addAuthFacts(p, s);
    int can = s.fact("replay window allows the packet"), set = s.fact("packet recorded in the replay window");
    const FactSet CAN = FactSet(1) << can, SET = FactSet(1) << set;
    s.events.push_back({ 0, [&](const Instruction* i) { return entryOf(i) && isUnprotectConn(p, i->getFunction()); }, a.all | CAN | SET, false });
    s.events.push_back({ 0, [&](const Instruction* i) { return entryOf(i) && isUnprotectCrypto(p, i->getFunction()); }, a.all, false });
    s.call(can, [&p](const CallBase*, const Function* f) { return p.name(f) == "srtc::ReplayProtection::canProceed"; }, Range::nonzero());
    s.call(set, [&p](const CallBase*, const Function* f) { return p.name(f) == "srtc::ReplayProtection::set"; });
    // a stream without an entry has no recorded packets: find(key) == end()
    s.cmps.push_back({ can, [&p](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
                          bool find = false, end = false;
                          for (auto& o : c->operands())
                              if (auto* cb = dyn_cast<CallBase>(res(originOf(o))))
                                  for (auto* t : p.callees(cb)) {
                                      auto n = p.name(t);
                                      if (!contains(n, "SrtpConnection::ChannelKey") || !contains(n, "ChannelValue"))
                                          continue;
                                      find |= endsWith(n, ">::find");
                                      end |= endsWith(n, ">::end") || endsWith(n, ">::cend");
                                  }
                          return find && end;
                      } });
    FlowSpec::Sink k;
    k.rule = "a packet is decrypted only after the replay window allowed it";
    k.match = [&p](const Instruction* i) {
        auto* cb = asCall(i);
        if (!cb || isUnprotectCrypto(p, i->getFunction()))
            return false;
        for (auto* t : p.callees(cb))
            if (isUnprotectCrypto(p, t))
                return true;
        return false;
    };
    k.ok = [CAN](FactSet f) { return (f & CAN) != 0; };
    k.minCount = 2;
    s.sinks.push_back(k);
    FlowSpec::Sink k2;
    k2.rule = "the replay window records a packet only when it authenticated";
    k2.match = [&p](const Instruction* i) {
        auto* cb = asCall(i);
        if (!cb)
            return false;
        for (auto* t : p.callees(cb))
            if (p.name(t) == "srtc::ReplayProtection::set")
                return true;
        return false;
    };
    k2.ok = [a](FactSet f) { return a.auth(f); };
    k2.minCount = 2;
    s.sinks.push_back(k2);
    FlowSpec::Sink k3;
    k3.rule = "an accepted packet was allowed by the replay window, authenticated and recorded";
    k3.ret = true;
    k3.retFn = [&p](const Function* f) { return isUnprotectConn(p, f); };
    k3.retRange = Range::nonzero();
    k3.ok = [a, CAN, SET](FactSet f) { return a.auth(f) && (f & CAN) && (f & SET); };
    k3.minCount = 2;
    s.sinks.push_back(k3);
    addFlow(r, s, runFlow(p, s));
}

static FieldRef storeField(Program& p, const Instruction* i)
{
    if (auto* st = dyn_cast<StoreInst>(i))
        return p.field(st->getPointerOperand());
    return {};
}

static void ruleC07(Program& p, Report& r)
{
    auto vCompleted = enumValue(p, "::DtlsState", "Completed"), vFailed = enumValue(p, "::DtlsState", "Failed");
    if (!vCompleted || !vFailed) {
        r.errors.push_back("enumeration DtlsState not found");
        return;
    }
    FlowSpec s;
    int hs = s.fact("DTLS handshake returned success"), hscall = s.fact("DTLS handshake attempted"), want = s.fact("handshake needs more data"),
        cert = s.fact("peer presented a certificate"), fp = s.fact("certificate fingerprint equals the signalled one"),
        createOk = s.fact("SRTP set-up succeeded"), completed = s.fact("mDtlsState is Completed"), failed = s.fact("mDtlsState is Failed"),
        emitted = s.fact("failure reported"), becameOk = s.fact("mDtlsState was set to Completed"), becameFailed = s.fact("mDtlsState was set to Failed");
    auto B = [](int i) { return FactSet(1) << i; };
    s.call(hs, [](const CallBase*, const Function* f) { return f->getName() == "SSL_do_handshake"; }, Range::eq(1));
    s.call(hscall, [](const CallBase*, const Function* f) { return f->getName() == "SSL_do_handshake"; });
    s.call(want, [](const CallBase*, const Function* f) { return f->getName() == "SSL_get_error"; }, Range::eq(2));
    auto isPeerCert = [](const Value* v) {
        auto* cb = dyn_cast<CallBase>(v);
        return cb && (callee(cb) == "SSL_get1_peer_certificate" || callee(cb) == "SSL_get_peer_certificate" || callee(cb) == "SSL_get0_peer_certificate");
    };
    s.call(cert, [isPeerCert](const CallBase* cb, const Function*) { return isPeerCert(cb); }, Range::nonzero());
    // buffers holding the SHA-256 digest of the peer's certificate
    auto isDigestBuf = [&p, isPeerCert](const Value* v) {
        if (!isa<AllocaInst>(v) && !isa<Argument>(v))
            return false;
        for (auto* u : v->users())
            if (auto* cb = dyn_cast<CallBase>(u))
                if (callee(cb) == "X509_digest" && cb->getArgOperand(2)->stripPointerCasts() == v &&
                    derivesFrom(p, cb->getArgOperand(0), isPeerCert) && derivesFrom(p, cb->getArgOperand(1), [](const Value* d) {
                        auto* c = dyn_cast<CallBase>(d);
                        if (c && callee(c) == "EVP_sha256")
                            return true;
                        if (c && callee(c) == "EVP_get_digestbyname")
                            if (auto* g = dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts()))
                                if (auto* cd = dyn_cast_or_null<ConstantDataArray>(g->getInitializer()))
                                    return cd->isCString() && cd->getAsCString().lower() == "sha256";
                        return false;
                    }))
                    return true;
        return false;
    };
    auto expected = resultOf(p, { "srtc::X509Hash::getBin" });
    auto compares = [&p, isDigestBuf, expected](const CallBase* cb, const Function* f) {
        auto n = p.name(f);
        bool eq = n == "srtc::ByteBuffer::operator==" || n == "srtc::SrtpCrypto::secureEquals";
        bool cmp = f->getName() == "CRYPTO_memcmp" || f->getName() == "memcmp" || f->getName() == "bcmp";
        if (!eq && !cmp)
            return false;
        bool e = false, d = false;
        for (unsigned k = 0; k < 2; k++) {
            e |= derivesFrom(p, cb->getArgOperand(k), expected);
            d |= derivesFrom(p, cb->getArgOperand(k), isDigestBuf);
        }
        return e && d;
    };
    s.call(fp, [&p, compares](const CallBase* cb, const Function* f) { return startsWith(p.name(f), "srtc::") && compares(cb, f); }, Range::nonzero());
    s.call(fp, [&p, compares](const CallBase* cb, const Function* f) { return !startsWith(p.name(f), "srtc::") && compares(cb, f); }, Range::eq(0));
    auto created = resultOf(p, { "srtc::SrtpConnection::create" });
    s.call(createOk, [&p, created](const CallBase* cb, const Function* f) { return p.name(f) == "srtc::Error::isOk" && derivesFrom(p, cb->getArgOperand(0), created); }, Range::nonzero());
    s.call(createOk, [&p, created](const CallBase* cb, const Function* f) { return p.name(f) == "srtc::Error::isError" && derivesFrom(p, cb->getArgOperand(0), created); }, Range::eq(0));
    auto isState = [](const FieldRef& f) { return f.cls == "srtc::PeerCandidate" && f.name == "mDtlsState"; };
    s.fields.push_back({ completed, isState, Range::eq(*vCompleted) });
    s.fields.push_back({ failed, isState, Range::eq(*vFailed) });
    s.call(emitted, [&p](const CallBase*, const Function* f) { return endsWith(p.name(f), "::onCandidateFailedToConnect"); });
    // a received datagram is judged on its own
    s.events.push_back({ hs, [&](const Instruction* i) { return calls(i, "SSL_do_handshake"); }, B(hs) | B(hscall) | B(want) | B(cert) | B(fp) | B(createOk) | B(emitted) | B(becameOk) | B(becameFailed), false });
    for (auto [fact, val] : { std::pair<int, int64_t>{ becameOk, *vCompleted }, { becameFailed, *vFailed } })
        s.events.push_back({ fact, [&p, isState, val = val](const Instruction* i) {
                                auto* st = dyn_cast<StoreInst>(i);
                                if (!st || !isState(storeField(p, i)))
                                    return false;
                                auto* c = dyn_cast<ConstantInt>(st->getValueOperand());
                                return c && c->getSExtValue() == val;
                            }, 0, true });

    const FactSet gate = B(hs) | B(cert) | B(fp);
    auto callSink = [&](const char* rule, std::function<bool(const Function*)> m, FactSet need, std::function<bool(FactSet)> alt = {}) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = [&p, m](const Instruction* i) { return p.isProject(i->getFunction()) && callTo(p, i, m); };
        k.ok = [need, alt](FactSet f) { return (f & need) == need || (alt && alt(f)); };
        s.sinks.push_back(k);
    };
    auto named = [&p](const char* n) { return [&p, n](const Function* f) { return p.name(f) == n; }; };
    callSink("SRTP keys are derived only after handshake, certificate and fingerprint were verified", named("srtc::SrtpConnection::create"), gate);
    callSink("the sender is created only after verification and SRTP set-up", named("srtc::SendPacer::SendPacer"), gate | B(createOk));
    callSink("the SCTP association is started only after verification", named("srtc::sctp::SctpSession::start"), gate);
    callSink("decrypted DTLS data is read only in the verified state", [](const Function* f) { return f->getName() == "SSL_read"; }, B(completed));
    callSink("SCTP input is processed only in the verified state", named("srtc::sctp::SctpSession::onReceiveData"), B(completed));
    callSink("DTLS data is sent only in the verified state", [](const Function* f) { return f->getName() == "SSL_write"; }, B(completed));
    {
        FlowSpec::Sink k;
        k.rule = "the candidate becomes connected only after verification and SRTP set-up";
        k.match = [&p, isState, vCompleted](const Instruction* i) {
            auto* st = dyn_cast<StoreInst>(i);
            if (!st || !isState(storeField(p, i)))
                return false;
            auto* c = dyn_cast<ConstantInt>(st->getValueOperand());
            return !c || c->getSExtValue() == *vCompleted;
        };
        FactSet need = gate | B(createOk);
        k.ok = [need](FactSet f) { return (f & need) == need; };
        s.sinks.push_back(k);
    }
    {
        FlowSpec::Sink k;
        k.rule = "a finished handshake ends verified, or failed and reported";
        k.ret = true;
        k.retFn = [&p](const Function* f) { return p.name(f) == "srtc::PeerCandidate::onReceivedDtlsMessage"; };
        k.retRange = Range::all();
        FactSet good = B(becameOk), bad = B(becameFailed) | B(emitted), hc = B(hscall), w = B(want);
        k.ok = [=](FactSet f) { return !(f & hc) || (f & w) || (f & good) || (f & bad) == bad; };
        s.sinks.push_back(k);
    }
    addFlow(r, s, runFlow(p, s));
}

static bool isStunFind(Program& p, const Value* v)
{
    return resultOf(p, { "stun::stun_message_find" })(v);
}

static void ruleC08(Program& p, Report& r)
{
    auto vActivating = enumValue(p, "::DtlsState", "Activating");
    if (!vActivating) {
        r.errors.push_back("enumeration DtlsState not found");
        return;
    }
    FlowSpec s;
    auto B = [](int i) { return FactSet(1) << i; };
    int ctx = s.fact("handling a received STUN message"), integ = s.fact("message integrity equals the computed one"),
        fpr = s.fact("fingerprint equals the computed one"), user = s.fact("username equals the expected one"),
        forget = s.fact("an outstanding transaction was matched and forgotten"), req = s.fact("request verified"), resp = s.fact("response verified"),
        idEq = s.fact("transaction id equal in full"), erased = s.fact("transaction removed");
    auto entry = [&p](const char* n) { return [&p, n](const Instruction* i) { return entryOf(i) && p.name(i->getFunction()) == n; }; };
    FactSet all = B(integ) | B(fpr) | B(user) | B(forget) | B(req) | B(resp) | B(idEq) | B(erased);
    s.events.push_back({ ctx, entry("srtc::PeerCandidate::onReceivedStunMessage"), all, true });
    s.events.push_back({ ctx, [&p](const Instruction* i) { return isa<ReturnInst>(i) && p.name(i->getFunction()) == "srtc::PeerCandidate::onReceivedStunMessage"; }, B(ctx), false });
    auto verify = [&p](const Function* f) { return startsWith(p.name(f), "srtc::IceAgent::verify"); };
    s.events.push_back({ integ, [verify](const Instruction* i) { return entryOf(i) && verify(i->getFunction()); }, B(integ) | B(fpr) | B(user), false });
    s.events.push_back({ idEq, entry("srtc::IceAgent::forgetTransaction"), B(idEq) | B(erased), false });

    // buffers filled by stun_sha1 over the received message
    auto isSha1Out = [&p](const Value* v) {
        if (!isa<AllocaInst>(v) && !isa<Argument>(v))
            return false;
        for (auto* u : v->users())
            if (auto* cb = dyn_cast<CallBase>(u))
                for (auto* t : p.callees(cb))
                    if (p.name(t) == "stun::stun_sha1" && cb->getArgOperand(3)->stripPointerCasts() == v)
                        return true;
        return false;
    };
    auto found = [&p](const Value* v) { return isStunFind(p, v); };
    auto cmpIntegrity = [&p, isSha1Out, found](const CallBase* cb) {
        if (cb->arg_size() < 3)
            return false;
        bool a = false, b = false;
        for (unsigned k = 0; k < 2; k++) {
            a |= derivesFrom(p, cb->getArgOperand(k), isSha1Out);
            b |= derivesFrom(p, cb->getArgOperand(k), found);
        }
        auto* n = dyn_cast<ConstantInt>(originOf(cb->getArgOperand(2)));
        return a && b && n && n->getZExtValue() == 20;
    };
    s.call(integ, [&p, cmpIntegrity](const CallBase* cb, const Function* f) { return p.name(f) == "srtc::SrtpCrypto::secureEquals" && cmpIntegrity(cb); }, Range::nonzero());
    s.call(integ, [cmpIntegrity](const CallBase* cb, const Function* f) { return f->getName() == "CRYPTO_memcmp" && cmpIntegrity(cb); }, Range::eq(0));
    auto fprCalc = resultOf(p, { "stun::stun_fingerprint" });
    s.cmps.push_back({ fpr, [&p, fprCalc, found](const ICmpInst* c, const std::function<const Value*(const Value*)>&) {
                          if (!c->getOperand(0)->getType()->isIntegerTy(32))
                              return false;
                          bool a = false, b = false;
                          for (auto& o : c->operands()) {
                              a |= fprCalc(originOf(o));
                              b |= !isa<CallBase>(originOf(o)) && derivesFrom(p, o, found);
                          }
                          return a && b;
                      } });
    s.call(user, [&p, found](const CallBase* cb, const Function* f) {
        if (!startsWith(p.name(f), "std::operator==<char"))
            return false;
        for (auto& a : cb->args())
            if (derivesFrom(p, a.get(), found))
                return true;
        return false;
    }, Range::nonzero());
    s.call(forget, [&p](const CallBase*, const Function* f) { return p.name(f) == "srtc::IceAgent::forgetTransaction"; }, Range::nonzero());
    s.call(req, [&p](const CallBase*, const Function* f) { return p.name(f) == "srtc::IceAgent::verifyRequestMessage"; }, Range::nonzero());
    s.call(resp, [&p](const CallBase*, const Function* f) { return p.name(f) == "srtc::IceAgent::verifyResponseMessage"; }, Range::nonzero());
    auto idArg = [&p](const Value* v) { auto* a = dyn_cast<Argument>(v); return a && p.name(a->getParent()) == "srtc::IceAgent::forgetTransaction" && a->getArgNo() == 1; };
    uint64_t idSize = 0;
    {
        DebugInfoFinder dif;
        dif.processModule(*p.mod);
        for (auto* t : dif.types())
            if (t->getName() == "StunTransactionId")
                idSize = Program::strip(t)->getSizeInBits() / 8;
    }
    s.call(idEq, [&p, idArg, idSize](const CallBase* cb, const Function* f) {
        if (f->getName() != "memcmp" && f->getName() != "bcmp" && f->getName() != "CRYPTO_memcmp")
            return false;
        auto* n = dyn_cast<ConstantInt>(originOf(cb->getArgOperand(2)));
        return n && n->getZExtValue() == idSize && (derivesFrom(p, cb->getArgOperand(0), idArg) || derivesFrom(p, cb->getArgOperand(1), idArg));
    }, Range::eq(0));
    s.call(erased, [&p](const CallBase* cb, const Function* f) {
        return contains(p.name(f), "::erase") && cb->arg_size() && p.field(cb->getArgOperand(contains(p.name(f), "erase") && cb->hasStructRetAttr() ? 1 : 0)).name == "mTransactionList";
    });

    const FactSet reqNeed = B(integ) | B(fpr) | B(user) | B(req), respNeed = B(integ) | B(fpr) | B(resp) | B(forget);
    auto inCtx = [ctx, B](FactSet need) { return [=](FactSet f) { return !(f & B(ctx)) || (f & need) == need; }; };
    auto sinkCall = [&](const char* rule, std::function<bool(const Function*)> m, std::function<bool(FactSet)> ok) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = [&p, m](const Instruction* i) { return p.isProject(i->getFunction()) && callTo(p, i, m); };
        k.ok = ok;
        s.sinks.push_back(k);
    };
    auto named = [&p](const char* n) { return [&p, n](const Function* f) { return p.name(f) == n; }; };
    sinkCall("a binding request is answered only after fingerprint, username and integrity were verified", named("srtc::IceAgent::initResponse"), inCtx(reqNeed));
    sinkCall("connection progress is reported only for a verified response to an outstanding transaction", [&p](const Function* f) { return contains(p.name(f), "::onCandidateIceConnected") || contains(p.name(f), "::onCandidateConnected") || contains(p.name(f), "::onCandidateDtlsConnected") || contains(p.name(f), "::onCandidateConnecting"); }, inCtx(respNeed));
    sinkCall("datagrams are sent in reaction to a STUN message only after verification", [&p](const Function* f) { return contains(p.name(f), "::onCandidateHasDataToSend"); },
        [=](FactSet f) { return !(f & B(ctx)) || (f & reqNeed) == reqNeed || (f & respNeed) == respNeed; });
    {
        FlowSpec::Sink k;
        k.rule = "candidate state changes on a STUN message only after verification";
        k.match = [&p](const Instruction* i) {
            auto f = storeField(p, i);
            return f && f.cls == "srtc::PeerCandidate" && !isCtor(p, i->getFunction());
        };
        k.ok = [=](FactSet f) { return !(f & B(ctx)) || (f & reqNeed) == reqNeed || (f & respNeed) == respNeed; };
        s.sinks.push_back(k);
    }
    {
        FlowSpec::Sink k;
        k.rule = "timers are armed or replaced in reaction to a STUN message only after verification";
        k.match = [&p](const Instruction* i) { return callTo(p, i, [&p](const Function* f) { auto n = p.name(f); return endsWith(n, "Scheduler::submit") || endsWith(n, "Task::cancelHelper"); }) && startsWith(p.name(i->getFunction()), "srtc::PeerCandidate"); };
        k.ok = [=](FactSet f) { return !(f & B(ctx)) || (f & reqNeed) == reqNeed || (f & respNeed) == respNeed; };
        s.sinks.push_back(k);
    }
    {
        FlowSpec::Sink k;
        k.rule = "a transaction matches only with the full id and is removed when matched";
        k.ret = true;
        k.retFn = [&p](const Function* f) { return p.name(f) == "srtc::IceAgent::forgetTransaction"; };
        k.retRange = Range::nonzero();
        FactSet need = B(idEq) | B(erased);
        k.ok = [need](FactSet f) { return (f & need) == need; };
        s.sinks.push_back(k);
    }
    addFlow(r, s, runFlow(p, s));

    // credentials handed to the verification
    auto offerPw = resultOf(p, { "srtc::SdpOffer::getIcePassword" }), answerPw = resultOf(p, { "srtc::SdpAnswer::getIcePassword" });
    auto offerU = resultOf(p, { "srtc::SdpOffer::getIceUFrag" }), answerU = resultOf(p, { "srtc::SdpAnswer::getIceUFrag" });
    auto credential = [=](const Value* v) { return offerPw(v) || answerPw(v) || offerU(v) || answerU(v); };
    auto from = [&p, credential](const Value* v, std::function<bool(const Value*)> pred) { return derivesFromNot(p, v, pred, [=](const Value* x) { return credential(x) && !pred(x); }); };
    int nreq = 0, nresp = 0, nkey = 0;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f)) {
            auto* cb = asCall(&i);
            if (!cb)
                continue;
            for (auto* t : p.callees(cb)) {
                auto n = p.name(t);
                if (n == "srtc::IceAgent::verifyRequestMessage") {
                    nreq++;
                    bool ok = from(cb->getArgOperand(3), offerPw);
                    bool ok2 = from(cb->getArgOperand(2), offerU) && from(cb->getArgOperand(2), answerU);
                    r.obligation(ok);
                    r.obligation(ok2);
                    r.site("requests are verified with the local credentials", Program::loc(&i));
                    if (!ok)
                        r.viol("requests are verified with the local credentials", Program::loc(&i), p.name(f), "the password does not come from SdpOffer::getIcePassword");
                    if (!ok2)
                        r.viol("requests are verified with the local credentials", Program::loc(&i), p.name(f), "the user name does not combine both user fragments");
                }
                if (n == "srtc::IceAgent::verifyResponseMessage") {
                    nresp++;
                    bool ok = from(cb->getArgOperand(2), answerPw);
                    r.obligation(ok);
                    r.site("responses are verified with the peer's password", Program::loc(&i));
                    if (!ok)
                        r.viol("responses are verified with the peer's password", Program::loc(&i), p.name(f), "the password does not come from SdpAnswer::getIcePassword");
                }
                if (n == "stun::stun_sha1") {
                    nkey++;
                    bool ok = derivesFrom(p, cb->getArgOperand(4), offerPw) || derivesFrom(p, cb->getArgOperand(4), answerPw);
                    bool full = true;
                    for (auto& pw : { cb->getArgOperand(5) })
                        full &= derivesFrom(p, pw, offerPw) || derivesFrom(p, pw, answerPw);
                    r.obligation(ok && full);
                    r.site("integrity is keyed with a session password", Program::loc(&i));
                    if (!ok || !full)
                        r.viol("integrity is keyed with a session password", Program::loc(&i), p.name(f), "the key or its length does not come from the session's passwords");
                }
            }
        }
    r.need("calls to verifyRequestMessage", nreq);
    r.need("calls to verifyResponseMessage", nresp);
    r.need("calls to stun_sha1", nkey);
}

static void ruleC09(Program& p, Report& r)
{
    auto vEstablished = enumValue(p, "SctpSession::State", "Established"), vEchoed = enumValue(p, "SctpSession::State", "CookieEchoed"),
         vWait = enumValue(p, "SctpSession::State", "CookieWait"), vOpen = enumValue(p, "SctpSession::DataChannelState", "kOpen");
    if (!vEstablished || !vEchoed || !vWait || !vOpen) {
        r.errors.push_back("enumeration SctpSession::State / DataChannelState not found");
        return;
    }
    FlowSpec s;
    auto B = [](int i) { return FactSet(1) << i; };
    int rx = s.fact("handling a received packet"), initCtx = s.fact("handling an INIT"), crc = s.fact("checksum equals the computed one"),
        tag = s.fact("verification tag equals ours"), tag0 = s.fact("verification tag is zero"), cookie = s.fact("cookie hash equals the computed one"),
        tx = s.fact("application send"), est = s.fact("mState is Established"), echoed = s.fact("mState is CookieEchoed"), wait = s.fact("mState is CookieWait"),
        open = s.fact("channel is open");
    const char* kRecv = "srtc::sctp::SctpSession::onReceiveData";
    const char* kInit = "srtc::sctp::SctpSession::onReceiveInit";
    const char* kSend = "srtc::sctp::SctpSession::send";
    auto at = [&p](const char* n, bool ret) {
        return [&p, n, ret](const Instruction* i) { return (ret ? isa<ReturnInst>(i) : entryOf(i)) && p.name(i->getFunction()) == n; };
    };
    FactSet pkt = B(crc) | B(tag) | B(tag0) | B(cookie) | B(initCtx);
    s.events.push_back({ rx, at(kRecv, false), pkt, true });
    s.events.push_back({ rx, at(kRecv, true), pkt | B(rx), false });
    s.events.push_back({ initCtx, at(kInit, false), 0, true });
    s.events.push_back({ initCtx, at(kInit, true), B(initCtx), false });
    s.events.push_back({ tx, at(kSend, false), 0, true });
    s.events.push_back({ tx, at(kSend, true), B(tx) | B(open), false });
    s.events.push_back({ crc, [&p](const Instruction* i) { return entryOf(i) && p.name(i->getFunction()) == "srtc::sctp::SctpPacket::parse"; }, B(crc), false });
    auto isCrc = resultOf(p, { "srtc::sctp::crc32c_finalize" });
    s.cmps.push_back({ crc, [isCrc](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
                          bool a = false, b = false;
                          for (auto& o : c->operands()) {
                              auto* v = originOf(res(o));
                              if (isCrc(v))
                                  a = true;
                              else if (!isa<Constant>(v))
                                  b = true;
                          }
                          return a && b && c->getOperand(0)->getType()->isIntegerTy(32);
                      } });
    auto isTag = [&p](const Value* v) {
        v = originOf(v);
        if (resultOf(p, { "srtc::sctp::SctpPacket::verificationTag" })(v))
            return true;
        auto* l = dyn_cast<LoadInst>(v);
        return l && p.field(l->getPointerOperand()).name == "mVerificationTag";
    };
    auto isOurs = [&p](const Value* v) {
        auto* l = dyn_cast<LoadInst>(originOf(v));
        return l && p.field(l->getPointerOperand()).str() == "srtc::sctp::SctpSession::mInitiateTag";
    };
    s.cmps.push_back({ tag, [=](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
                          auto *a = res(c->getOperand(0)), *b = res(c->getOperand(1));
                          return (isTag(a) && isOurs(b)) || (isTag(b) && isOurs(a));
                      } });
    s.cmps.push_back({ tag0, [=](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
                          auto *a = res(c->getOperand(0)), *b = res(c->getOperand(1));
                          auto zero = [](const Value* v) { auto* k = dyn_cast<ConstantInt>(v); return k && k->isZero(); };
                          return (isTag(a) && zero(b)) || (isTag(b) && zero(a));
                      } });
    auto isHmacOut = [&p](const Value* v) {
        if (!isa<AllocaInst>(v))
            return false;
        for (auto* u : v->users())
            if (auto* cb = dyn_cast<CallBase>(u))
                for (auto* t : p.callees(cb))
                    if (p.name(t) == "srtc::HmacSha1::final")
                        return true;
        return false;
    };
    auto chunkData = [&p](const Value* v) {
        auto* l = dyn_cast<LoadInst>(v);
        return l && p.field(l->getPointerOperand()).name == "data" && endsWith(p.field(l->getPointerOperand()).cls, "SctpPacket::Chunk");
    };
    auto cmpCookie = [&p, isHmacOut, chunkData](const CallBase* cb) {
        if (cb->arg_size() < 3)
            return false;
        bool a = false, b = false;
        for (unsigned k = 0; k < 2; k++) {
            a |= derivesFrom(p, cb->getArgOperand(k), isHmacOut);
            b |= derivesFrom(p, cb->getArgOperand(k), chunkData);
        }
        auto* n = dyn_cast<ConstantInt>(originOf(cb->getArgOperand(2)));
        return a && b && n && n->getZExtValue() == 20;
    };
    s.call(cookie, [&p, cmpCookie](const CallBase* cb, const Function* f) {
        auto n = p.name(f);
        return (endsWith(n, "::constTimeEqual") || n == "srtc::SrtpCrypto::secureEquals") && cmpCookie(cb);
    }, Range::nonzero());
    s.call(cookie, [cmpCookie](const CallBase* cb, const Function* f) { return f->getName() == "CRYPTO_memcmp" && cmpCookie(cb); }, Range::eq(0));
    auto state = [](const FieldRef& f) { return f.str() == "srtc::sctp::SctpSession::mState"; };
    s.fields.push_back({ est, state, Range::eq(*vEstablished) });
    s.fields.push_back({ echoed, state, Range::eq(*vEchoed) });
    s.fields.push_back({ wait, state, Range::eq(*vWait) });
    s.fields.push_back({ open, [](const FieldRef& f) { return f.str() == "srtc::sctp::SctpSession::DataChannel::state"; }, Range::eq(*vOpen) });

    auto okRx = [=](FactSet f) {
        if (!(f & B(rx)))
            return true;
        return (f & B(crc)) && ((f & B(tag)) || ((f & B(initCtx)) && (f & B(tag0))));
    };
    auto inSession = [&p](const Instruction* i) { return contains(p.name(i->getFunction()), "SctpSession::"); };
    auto listenerCall = [&p](const Instruction* i) {
        return callTo(p, i, [&p](const Function* f) { auto n = p.name(f); auto k = n.rfind("::"); return k != std::string::npos && startsWith(n.substr(k + 2), "onSctp"); });
    };
    auto sink = [&](const char* rule, std::function<bool(const Instruction*)> m, std::function<bool(FactSet)> ok, int n = 1) {
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = m;
        k.ok = ok;
        k.minCount = n;
        s.sinks.push_back(k);
    };
    sink("association state changes on a received packet only after checksum and tag were verified", [&p](const Instruction* i) {
        auto f = storeField(p, i);
        return f && startsWith(f.cls, "srtc::sctp::SctpSession") && !isCtor(p, i->getFunction());
    }, okRx);
    sink("the listener is called on a received packet only after checksum and tag were verified", [=](const Instruction* i) { return inSession(i) && listenerCall(i); }, okRx);
    sink("channel data is reassembled only after checksum and tag were verified", [&p](const Instruction* i) {
        return callTo(p, i, [&p](const Function* f) { return p.name(f) == "srtc::sctp::DataChannelReceiveBuffer::receive"; }) && p.isProject(i->getFunction());
    }, okRx);
    sink("a cookie is acknowledged only when its keyed hash verified", [&p](const Instruction* i) {
        auto* cb = asCall(i);
        if (!cb || !callTo(p, i, [&p](const Function* f) { return p.name(f) == "srtc::sctp::SctpPacketBuilder::addChunk"; }))
            return false;
        auto* k = cb->arg_size() > 1 ? dyn_cast<ConstantInt>(originOf(cb->getArgOperand(1))) : nullptr;
        return k && k->getZExtValue() == 11;
    }, [=](FactSet f) { return (f & B(cookie)) != 0; });
    auto toNet = [&p](const Instruction* i) { return callTo(p, i, [&p](const Function* f) { return endsWith(p.name(f), "::onSctpSendPacket"); }); };
    sink("a channel message is sent only on an open channel of an established association", toNet,
        [=](FactSet f) { return !(f & B(tx)) || ((f & B(est)) && (f & B(open))); });
    sink("a channel message is queued only on an open channel of an established association", [&p](const Instruction* i) {
        auto* cb = asCall(i);
        if (!cb || !cb->arg_size())
            return false;
        auto n = cb->getCalledFunction() ? p.name(cb->getCalledFunction()) : "";
        return (endsWith(n, "::emplace_back") || endsWith(n, "::push_back") || contains(n, "::emplace_back<")) && p.field(cb->getArgOperand(0)).name == "mPendingSend";
    }, [=](FactSet f) { return (f & B(est)) && (f & B(open)); });
    auto constStore = [&p](const char* field, std::optional<int64_t> v) {
        return [&p, field, v](const Instruction* i) {
            auto* st = dyn_cast<StoreInst>(i);
            if (!st || isCtor(p, i->getFunction()) || storeField(p, i).str() != std::string("srtc::sctp::SctpSession::") + field)
                return false;
            if (!v)
                return true;
            auto* c = dyn_cast<ConstantInt>(st->getValueOperand());
            return !c || c->getSExtValue() == *v;
        };
    };
    sink("the association becomes established only after a cookie was echoed", constStore("mState", vEstablished), [=](FactSet f) { return (f & B(echoed)) != 0; });
    sink("the peer's tag is taken only while waiting for the cookie", constStore("mPeerTag", std::nullopt), [=](FactSet f) { return (f & B(wait)) != 0; });
    addFlow(r, s, runFlow(p, s));
}

void registerAuth(std::vector<Rule>& v)
{
    v.push_back({ "C05", "flow", ruleC05 });
    v.push_back({ "C06", "flow", ruleC06 });
    v.push_back({ "C07", "flow", ruleC07 });
    v.push_back({ "C08", "flow", ruleC08 });
    v.push_back({ "C09", "flow", ruleC09 });
}
