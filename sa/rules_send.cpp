// C10 nothing leaves unencrypted, C12 crypto failures, C11 comparisons
#include "rules.h"
#include "rules_util.h"
#include "llvm/Support/raw_ostream.h"

static bool isProtectConn(Program& p, const Function* f) { return startsWith(p.name(f), "srtc::SrtpConnection::protectSend"); }
static bool isProtectCrypto(Program& p, const Function* f) { return startsWith(p.name(f), "srtc::SrtpCrypto::protectSend"); }
static bool isSocketSend(Program& p, const Function* f) { return p.name(f) == "srtc::Socket::send"; }

// the ByteBuffer whose bytes the value denotes: data()/size() of an object, or the object itself
static const Value* bufferObject(Program& p, const Value* v)
{
    v = originOf(v->stripPointerCasts());
    if (auto* cb = dyn_cast<CallBase>(v))
        for (auto* t : p.callees(cb)) {
            auto n = p.name(t);
            if (n == "srtc::ByteBuffer::data" || n == "srtc::ByteBuffer::size" || n == "srtc::ByteBuffer::begin")
                return cb->getArgOperand(0)->stripPointerCasts();
        }
    return v;
}

// is the object (always) the output of a protect call made in the same function / by every caller
static bool isProtectedOutput(Program& p, const Value* obj, int depth = 0)
{
    if (depth > 4)
        return false;
    obj = obj->stripPointerCasts();
    if (auto* a = dyn_cast<Argument>(obj)) {
        auto& cs = p.callersOf(a->getParent());
        if (cs.empty())
            return false;
        for (auto* c : cs)
            if (a->getArgNo() >= c->arg_size() || !isProtectedOutput(p, bufferObject(p, c->getArgOperand(a->getArgNo())), depth + 1))
                return false;
        return true;
    }
    const Function* f = nullptr;
    if (auto* i = dyn_cast<Instruction>(obj))
        f = i->getFunction();
    if (!f)
        return false;
    for (auto& i : instructions(f)) {
        auto* cb = asCall(&i);
        if (!cb)
            continue;
        for (auto* t : p.callees(cb))
            if (isProtectConn(p, t) && sameAddress(cb->getArgOperand(cb->arg_size() - 1), obj))
                return true;
    }
    return false;
}

static void ruleC10(Program& p, Report& r)
{
    FlowSpec s, sp;
    auto B = [](int i) { return FactSet(1) << i; };
    int enc = s.fact("payload encrypted"), encCall = s.fact("cipher keyed"), tagGet = s.fact("authentication tag produced");
    auto anyCall = [&p](bool (*m)(Program&, const Function*)) {
        return [&p, m](const Instruction* i) { return callTo(p, i, [&p, m](const Function* f) { return m(p, f); }); };
    };
    // one fact per function that protects packets, so that callbacks in between do not matter
    std::map<const Function*, int> protBy;
    FactSet anyProt = 0;
    for (auto* f : p.funcs)
        for (auto& i : instructions(f))
            if (anyCall(isProtectConn)(&i) && !protBy.count(f)) {
                int id = protBy[f] = sp.fact("SRTP protection succeeded in " + p.name(f));
                anyProt |= B(id);
                sp.events.push_back({ id, [f, m = anyCall(isProtectConn)](const Instruction* i) { return i->getFunction() == f && (entryOf(i) || m(i)); }, B(id), false });
                sp.call(id, [&p, f](const CallBase* cb, const Function* t) { return cb->getFunction() == f && isProtectConn(p, t); }, Range::nonzero());
            }
    const int prot = enc;
    s.events.push_back({ prot, [](const Instruction* i) { return calls(i, "EVP_EncryptInit_ex"); }, B(enc) | B(tagGet), false });
    s.events.push_back({ prot, [&p](const Instruction* i) { return entryOf(i) && isProtectCrypto(p, i->getFunction()); }, B(enc) | B(encCall) | B(tagGet), false });
    s.call(encCall, [](const CallBase* cb, const Function* f) { return f->getName() == "EVP_EncryptInit_ex" && !isa<ConstantPointerNull>(cb->getArgOperand(3)); }, Range::nonzero());
    s.call(enc, [](const CallBase* cb, const Function* f) { return f->getName() == "EVP_EncryptUpdate" && !isa<ConstantPointerNull>(cb->getArgOperand(1)); }, Range::nonzero());
    s.call(tagGet, [](const CallBase* cb, const Function* f) {
        if (f->getName() != "EVP_CIPHER_CTX_ctrl")
            return false;
        auto* k = dyn_cast<ConstantInt>(cb->getArgOperand(1));
        return k && k->getZExtValue() == 0x10;
    }, Range::nonzero());
    s.call(tagGet, [](const CallBase*, const Function* f) { return f->getName() == "EVP_MAC_final"; });

    struct Site {
        const CallBase* cb;
        bool queue;
    };
    std::vector<Site> sites;
    auto queueField = [&p](const Value* v) {
        auto f = p.field(v);
        return f.name == "mRawSendQueue";
    };
    for (auto* f : p.funcs) {
        if (startsWith(p.name(f), "srtc::Socket::"))
            continue;
        for (auto& i : instructions(f)) {
            auto* cb = asCall(&i);
            if (!cb)
                continue;
            for (auto* t : p.callees(cb))
                if (isSocketSend(p, t))
                    sites.push_back({ cb, false });
            auto c = callee(cb);
            if (c == "send" || c == "sendto" || c == "sendmsg" || c == "sendmmsg" || c == "writev") {
                r.obligation(false);
                r.viol("only Socket::send reaches the network", Program::loc(cb), p.name(f), "direct call of " + c);
            }
        }
    }
    r.need("calls of Socket::send", sites.size());
    std::set<const Instruction*> needProt;
    for (auto& st : sites) {
        auto* cb = st.cb;
        bool ok = true;
        std::string why;
        auto* obj = bufferObject(p, cb->getArgOperand(1));
        r.site("every sent datagram is protected output or comes from the raw queue", Program::loc(cb) + " " + p.name(cb->getFunction()));
        bool fromQueue = isa<AllocaInst>(obj) && !isProtectedOutput(p, obj) ? derivesFrom(p, obj, queueField) : (!isa<AllocaInst>(obj) && !isProtectedOutput(p, obj) && derivesFrom(p, obj, queueField));
        if (fromQueue) {
        } else if (isProtectedOutput(p, obj)) {
            needProt.insert(cb);
            if (cb->arg_size() > 2 && !sameAddress(bufferObject(p, cb->getArgOperand(2)), obj)) {
                ok = false;
                why = "the length does not belong to the protected buffer";
            }
        } else {
            ok = false;
            why = "the bytes are neither the output of SRTP protection nor an element of the raw send queue";
        }
        r.obligation(ok);
        if (!ok)
            r.viol("every sent datagram is protected output or comes from the raw queue", Program::loc(cb), p.name(cb->getFunction()), why);
    }
    // what enters the raw queue: STUN messages and the output of the DTLS engine
    int ins = 0;
    auto rawOk = [&p](const Value* v) {
        if (auto f = p.field(v); f.name == "mIceMessageBuffer")
            return true;
        auto* a = dyn_cast<Argument>(v);
        return a && a->getParent()->arg_size() == 3 && contains(p.name(a->getParent()), "dgram_write") && a->getArgNo() == 1;
    };
    for (auto* f : p.funcs)
        for (auto& i : instructions(f)) {
            auto* cb = asCall(&i);
            if (!cb || cb->arg_size() < 2)
                continue;
            auto* t = cb->getCalledFunction();
            if (!t)
                continue;
            auto n = p.name(t);
            bool insert = contains(n, "::push_back") || contains(n, "::emplace") || contains(n, "::insert") || contains(n, "::push_front");
            if (!insert || p.field(cb->getArgOperand(0)).name != "mRawSendQueue")
                continue;
            ins++;
            // every buffer that can get here
            auto* v = cb->getArgOperand(cb->arg_size() - 1)->stripPointerCasts();
            std::vector<std::pair<const Value*, const Instruction*>> leaves;
            std::set<const Value*> seen;
            std::function<void(const Value*, const Instruction*)> expand = [&](const Value* x, const Instruction* at) {
                x = x->stripPointerCasts();
                if (!seen.insert(x).second)
                    return;
                if (auto* a = dyn_cast<Argument>(x)) {
                    for (auto* c : p.callersOf(a->getParent()))
                        if (a->getArgNo() < c->arg_size())
                            expand(c->getArgOperand(a->getArgNo()), c);
                    return;
                }
                leaves.push_back({ x, at });
            };
            expand(v, cb);
            for (auto& [x, at] : leaves) {
                bool ok = derivesFrom(p, x, rawOk);
                r.obligation(ok);
                r.site("the raw send queue receives only STUN messages and DTLS records", Program::loc(at) + " " + p.name(at->getFunction()));
                if (!ok)
                    r.viol("the raw send queue receives only STUN messages and DTLS records", Program::loc(at), p.name(at->getFunction()), "the buffer comes neither from the STUN message buffer nor from the DTLS engine's output callback");
            }
        }
    r.need("insertions into the raw send queue", ins);
    // what is written into the STUN message buffer
    for (auto* f : p.funcs)
        for (auto& i : instructions(f)) {
            auto* cb = dyn_cast<CallBase>(&i);
            if (!cb)
                continue;
            auto c = callee(cb);
            bool copy = isa<MemTransferInst>(cb) || c == "memcpy" || c == "memmove";
            if (!copy)
                continue;
            auto* d = cb->getArgOperand(0);
            if (startsWith(p.name(f), "srtc::PeerCandidate") && derivesFrom(p, d, [&p](const Value* v) { return p.field(v).name == "mIceMessageBuffer"; })) {
                r.obligation(false);
                r.viol("the STUN message buffer is filled only by the STUN encoder", Program::loc(cb), p.name(f), "bytes are copied into it directly");
            }
        }

    FlowSpec::Sink k;
    k.rule = "a datagram that must be protected is sent only when protection succeeded";
    k.match = [needProt](const Instruction* i) { return needProt.count(i) != 0; };
    k.okAt = [=](const Instruction* i, FactSet f) {
        auto it = protBy.find(i->getFunction());
        return (f & (it == protBy.end() ? anyProt : B(it->second))) != 0;
    };
    sp.sinks.push_back(k);
    addFlow(r, sp, runFlow(p, sp));
    FlowSpec::Sink k2;
    k2.rule = "protection succeeds only after encryption and authentication";
    k2.ret = true;
    k2.retFn = [&p](const Function* f) { return isProtectCrypto(p, f) || isProtectConn(p, f); };
    k2.retRange = Range::nonzero();
    k2.ok = [=](FactSet f) { return (f & B(enc)) && (f & B(encCall)) && (f & B(tagGet)); };
    s.sinks.push_back(k2);
    addFlow(r, s, runFlow(p, s));
}

// ---------------------------------------------------------------------------------------------------------------
// C12: the outcome of every fallible cryptographic operation decides the outcome of the enclosing operation

static const std::map<std::string, Range>& fallibleOps()
{
    static const std::map<std::string, Range> ops = {
        { "EVP_EncryptInit_ex", Range::nonzero() },   { "EVP_EncryptUpdate", Range::nonzero() },
        { "EVP_EncryptFinal_ex", Range::nonzero() },  { "EVP_DecryptInit_ex", Range::nonzero() },
        { "EVP_DecryptUpdate", Range::nonzero() },    { "EVP_DecryptFinal_ex", Range::ge(1) },
        { "EVP_CipherInit_ex", Range::nonzero() },    { "EVP_CipherUpdate", Range::nonzero() },
        { "EVP_CipherFinal_ex", Range::nonzero() },   { "EVP_CIPHER_CTX_ctrl", Range::nonzero() },
        { "EVP_MAC_init", Range::nonzero() },         { "EVP_MAC_update", Range::nonzero() },
        { "EVP_MAC_final", Range::nonzero() },        { "EVP_DigestInit_ex", Range::nonzero() },
        { "EVP_DigestUpdate", Range::nonzero() },     { "EVP_DigestFinal_ex", Range::nonzero() },
        { "EVP_DigestSign", Range::ge(1) },           { "EVP_DigestVerify", Range::ge(1) },
        { "EVP_PKEY_derive", Range::ge(1) },          { "EVP_PKEY_keygen", Range::ge(1) },
        { "EVP_PKEY_keygen_init", Range::ge(1) },     { "EVP_PKEY_CTX_set_ec_paramgen_curve_nid", Range::ge(1) },
        { "EVP_PKEY_CTX_ctrl", Range::ge(1) },        { "RAND_bytes", Range::ge(1) },
        { "RAND_priv_bytes", Range::ge(1) },          { "SSL_export_keying_material", Range::ge(1) },
        { "SSL_do_handshake", Range::ge(1) },         { "SSL_accept", Range::ge(1) },
        { "SSL_connect", Range::ge(1) },              { "SSL_read", Range::ge(1) },
        { "SSL_write", Range::ge(1) },                { "SSL_CTX_use_certificate", Range::ge(1) },
        { "SSL_CTX_use_PrivateKey", Range::ge(1) },   { "SSL_CTX_check_private_key", Range::nonzero() },
        { "SSL_set_tlsext_use_srtp", Range::eq(0) },  { "X509_digest", Range::nonzero() },
        { "X509_sign", Range::ge(1) },                { "X509_set_pubkey", Range::nonzero() },
        { "HMAC", Range::nonzero() },                 { "HMAC_Init_ex", Range::nonzero() },
        { "HMAC_Update", Range::nonzero() },          { "HMAC_Final", Range::nonzero() },
        { "SSL_CTX_set_cipher_list", Range::nonzero() }, { "SSL_get_verify_result", Range::eq(0) },
    };
    return ops;
}

static void ruleC12(Program& p, Report& r)
{
    auto& ops = fallibleOps();
    std::map<const Function*, Range> fallible; // project functions whose boolean result reports the failure
    auto success = [&](const CallBase* cb) -> std::optional<Range> {
        if (isa<IntrinsicInst>(cb))
            return std::nullopt;
        auto it = ops.find(callee(cb));
        if (it != ops.end())
            return it->second;
        for (auto* t : p.callees(cb)) {
            auto f = fallible.find(t);
            if (f != fallible.end())
                return f->second;
        }
        return std::nullopt;
    };
    auto hasSite = [&](const Function* f) {
        for (auto& i : instructions(f))
            if (auto* cb = dyn_cast<CallBase>(&i); cb && success(cb))
                return true;
        return false;
    };
    for (bool ch = true; ch;) {
        ch = false;
        for (auto* f : p.funcs)
            if (!fallible.count(f) && f->getReturnType()->isIntegerTy(1) && hasSite(f)) {
                fallible[f] = Range::nonzero();
                ch = true;
            }
    }
    // operations whose failure is caught by a later mandatory operation on the same object
    struct Accepted {
        const char *op, *file, *reason;
    };
    static const Accepted accepted[] = {
        { "SSL_CTX_use_certificate", "peer_candidate.cpp", "SSL_CTX_check_private_key fails when the certificate or key is missing" },
        { "SSL_CTX_use_PrivateKey", "peer_candidate.cpp", "SSL_CTX_check_private_key fails when the certificate or key is missing" },
        { "SSL_set_tlsext_use_srtp", "peer_candidate.cpp", "without a profile SSL_get_selected_srtp_profile is null and SRTP set-up fails (C07)" },
        { "SSL_accept", "peer_candidate.cpp", "first flight only; the handshake result is examined when a record arrives" },
        { "SSL_do_handshake", "peer_candidate.cpp", "first flight only; the handshake result is examined when a record arrives" },
        { "SSL_write", "peer_candidate.cpp", "an unsent record is retransmitted by SCTP (C20)" },
        { "X509_digest", "peer_candidate.cpp", "an empty digest never equals the signalled fingerprint (sizes are compared, C11)" },
        { "EVP_EncryptInit_ex", "srtp_crypto.cpp", "selects the cipher only; the keyed call before every packet fails when no cipher is set" },
        { "EVP_DecryptInit_ex", "srtp_crypto.cpp", "selects the cipher only; the keyed call before every packet fails when no cipher is set" },
        { "EVP_PKEY_keygen_init", "x509_certificate.cpp", "SSL_CTX_check_private_key rejects the missing key" },
        { "EVP_PKEY_CTX_set_ec_paramgen_curve_nid", "x509_certificate.cpp", "SSL_CTX_check_private_key rejects the missing key" },
        { "EVP_PKEY_keygen", "x509_certificate.cpp", "SSL_CTX_check_private_key rejects the missing key" },
        { "X509_set_pubkey", "x509_certificate.cpp", "SSL_CTX_check_private_key rejects the mismatch" },
        { "X509_sign", "x509_certificate.cpp", "the peer cannot match the advertised fingerprint" },
        { "X509_digest", "x509_certificate.cpp", "the peer cannot match an empty fingerprint" },
        { "EVP_DigestInit_ex", "stunhmac.cpp", "long term credentials, not reachable from the library" },
        { "EVP_DigestUpdate", "stunhmac.cpp", "long term credentials, not reachable from the library" },
        { "EVP_DigestFinal_ex", "stunhmac.cpp", "long term credentials, not reachable from the library" },
    };
    std::set<const Function*> with;
    std::set<const CallBase*> skipSites;
    int n = 0;
    // functions nobody can reach (unused library code) carry no obligation
    std::set<const Function*> live;
    std::vector<const Function*> work;
    for (auto* f : p.funcs)
        if (!contains(Program::file(f), "/stun/"))
            work.push_back(f);
    while (!work.empty()) {
        auto* f = work.back();
        work.pop_back();
        if (!live.insert(f).second)
            continue;
        for (auto& i : instructions(f))
            if (auto* cb = asCall(&i))
                for (auto* t : p.callees(cb))
                    if (!t->isDeclaration())
                        work.push_back(t);
    }
    for (auto* f : p.funcs)
        for (auto& i : instructions(f)) {
            auto* cb = dyn_cast<CallBase>(&i);
            if (!cb || !success(cb) || !live.count(f))
                continue;
            n++;
            auto name = callee(cb);
            auto nm = ops.count(name) ? name : p.name(p.callees(cb).front());
            r.site("the outcome of a cryptographic operation is used", Program::loc(cb) + " " + nm + " in " + p.name(f));
            bool okUse = !cb->use_empty();
            bool ok = okUse;
            if (!okUse) {
                auto file = Program::file(f);
                for (auto& a : accepted)
                    if (nm == a.op && endsWith(file, a.file)) {
                        // a keyed initialisation is never acceptable unchecked
                        if (contains(nm.c_str(), "cryptInit_ex") && !isa<ConstantPointerNull>(cb->getArgOperand(3)))
                            continue;
                        ok = true;
                        skipSites.insert(cb);
                        r.counts["unchecked operation covered by a later mandatory one"]++;
                    }
            }
            r.obligation(ok);
            if (!ok)
                r.viol("the outcome of a cryptographic operation is used", Program::loc(cb), p.name(f), "the result of " + nm + " is ignored");
            else if (okUse)
                with.insert(f);
        }
    r.need("fallible cryptographic operations", n, 20);

    // what an operation may not do after a failure
    std::set<const Function*> emits;
    for (bool ch = true; ch;) {
        ch = false;
        for (auto* f : p.funcs) {
            if (emits.count(f))
                continue;
            auto nm = p.name(f);
            bool e = nm == "srtc::Socket::send" || endsWith(nm, "::onSctpSendPacket") || nm == "srtc::PeerCandidate::addSendRaw" || nm == "srtc::sctp::SctpSession::onReceiveData" || nm == "srtc::SrtpCrypto::SrtpCrypto" || nm == "srtc::SrtpConnection::SrtpConnection" || endsWith(nm, "::onCandidateReceivedMediaPacket");
            if (e)
                emits.insert(f), ch = true;
        }
    }
    auto constructsKeys = [&p](const Function* t) {
        auto nm = p.name(t);
        return contains(nm, "make_shared<srtc::SrtpCrypto") || contains(nm, "make_shared<srtc::SrtpConnection") || contains(nm, "__shared_ptr<srtc::SrtpCrypto") && contains(nm, "_Sp_alloc_shared_tag") || contains(nm, "__shared_count") && contains(p.fullName(t).c_str(), "srtc::SrtpC");
    };
    for (auto* f : with) {
        FlowSpec s;
        s.only.insert(f);
        FactSet all = 0;
        std::vector<const CallBase*> sites;
        for (auto& i : instructions(f))
            if (auto* cb = dyn_cast<CallBase>(&i); cb && success(cb) && !skipSites.count(cb) && sites.size() < 60)
                sites.push_back(cb);
        for (auto* cb : sites) {
            auto nm = ops.count(callee(cb)) ? callee(cb) : p.name(p.callees(cb).front());
            int id = s.fact("no failed " + nm + " at " + Program::loc(cb));
            all |= FactSet(1) << id;
            s.events.push_back({ id, [](const Instruction* i) { return entryOf(i); }, 0, true });
            s.events.push_back({ id, [cb](const Instruction* i) { return i == cb; }, FactSet(1) << id, false });
            s.call(id, [cb](const CallBase* c, const Function*) { return c == cb; }, *success(cb));
        }
        auto ok = [all](FactSet x) { return (x & all) == all; };
        if (fallible.count(f)) {
            FlowSpec::Sink k;
            k.rule = "success is reported only when no cryptographic operation failed";
            k.ret = true;
            k.retFn = [f](const Function* g) { return g == f; };
            k.retRange = Range::nonzero();
            k.ok = ok;
            s.sinks.push_back(k);
        } else {
            FlowSpec::Sink k;
            k.rule = "nothing is sent, accepted or keyed after a failed cryptographic operation";
            k.minCount = 0;
            k.match = [&, f](const Instruction* i) {
                if (auto* st = dyn_cast<StoreInst>(i)) {
                    // engaging an optional / result object returned to the caller
                    if (!f->hasStructRetAttr() || !st->getValueOperand()->getType()->isIntegerTy(8))
                        return false;
                    auto* c = dyn_cast<ConstantInt>(st->getValueOperand());
                    APInt off(64, 0);
                    return c && c->isOne() && isa<Argument>(st->getPointerOperand()->stripAndAccumulateConstantOffsets(p.dl(), off, true));
                }
                auto* cb = asCall(i);
                if (!cb)
                    return false;
                if (auto sc = success(cb))
                    return false;
                for (auto* t : p.callees(cb))
                    if (emits.count(t) || constructsKeys(t))
                        return true;
                return false;
            };
            k.ok = ok;
            s.sinks.push_back(k);
        }
        auto res = runFlow(p, s);
        addFlow(r, s, res);
        if (getenv("SA_C12")) {
            int c = 0;
            for (auto& [a, b] : res.sinkCount)
                c += b;
            errs() << p.name(f) << " sites " << sites.size() << " sinks " << c << (fallible.count(f) ? " bool" : "") << "\n";
        }
    }
}

void registerSend(std::vector<Rule>& v)
{
    v.push_back({ "C10", "flow", ruleC10 });
    v.push_back({ "C12", "flow", ruleC12 });
}
