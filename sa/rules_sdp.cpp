// C24: an SDP answer is accepted only with the essentials of a secure session.
#include "rules.h"
#include "rules_util.h"
#include <algorithm>

static bool classIs(const std::string& n, const char* cls) { return startsWith(n, (std::string(cls) + "::").c_str()); }

void ruleC24(Program& p, Report& r)
{
    auto vRtx = enumValue(p, "Codec", "Rtx");
    if (!vRtx) {
        r.errors.push_back("enumeration Codec not found");
        return;
    }
    const char* P = "srtc::SdpAnswerParser";
    FlowSpec s;
    auto B = [](int i) { return FactSet(1) << i; };
    int hosts = s.fact("there is a candidate"), ufrag = s.fact("the ICE user fragment is not empty"), pwd = s.fact("the ICE password is not empty"),
        cert = s.fact("the certificate fingerprint is not empty"), mux = s.fact("control packets are multiplexed"), noMedia = s.fact("no media is described"),
        media = s.fact("media is described"), data = s.fact("a data channel is described"), lineOk = s.fact("no line of the answer was in error"),
        flushOk = s.fact("the last media section was accepted"), mid = s.fact("the media section has an identifier"), addr = s.fact("the candidate's address was understood"),
        codec = s.fact("the payload type has a codec"), notRtx = s.fact("the codec is not the retransmission format"), type = s.fact("the media section has a type");
    // emptiness tests of the fields
    auto emptyOf = [&p](const char* field) {
        return [&p, field](const CallBase* cb, const Function* f) {
            auto n = p.name(f);
            return endsWith(n, "::empty") && cb->arg_size() == 1 && (p.field(cb->getArgOperand(0)).name == field || p.field(cb->getArgOperand(0)).outer == field);
        };
    };
    auto sizeOf = [&p](const char* field) {
        return [&p, field](const CallBase* cb, const Function* f) {
            auto n = p.name(f);
            return (endsWith(n, "::size") || endsWith(n, "::length")) && cb->arg_size() == 1 && (p.field(cb->getArgOperand(0)).name == field || p.field(cb->getArgOperand(0)).outer == field);
        };
    };
    for (auto& [id, f] : std::vector<std::pair<int, const char*>>{ { hosts, "hostList" }, { ufrag, "iceUFrag" }, { pwd, "icePassword" }, { cert, "certHashBin" }, { mid, "mediaId" } }) {
        s.call(id, emptyOf(f), Range::eq(0));
        s.call(id, sizeOf(f), Range::nonzero());
    }
    auto fld = [&](int id, const char* name, Range rg) {
        s.fields.push_back({ id, [=](const FieldRef& f) { return f.cls == P && f.name == name; }, rg });
    };
    fld(mux, "isRtcpMux", Range::nonzero());
    fld(noMedia, "hasMedia", Range::eq(0));
    fld(media, "hasMedia", Range::nonzero());
    fld(data, "hasDataChannel", Range::nonzero());
    // errors of the line handlers
    auto errorOf = [&p](const CallBase* cb, std::function<bool(const std::string&)> which) {
        if (!cb->arg_size())
            return false;
        auto* obj = stripCasts(cb->getArgOperand(0));
        for (auto* u : obj->users()) {
            auto* c2 = dyn_cast<CallBase>(u);
            if (!c2 || c2 == cb || !c2->arg_size() || stripCasts(c2->getArgOperand(0)) != obj || !c2->paramHasAttr(0, Attribute::StructRet))
                continue;
            for (auto* t : p.callees(c2))
                if (which(p.name(t)))
                    return true;
        }
        return false;
    };
    auto isLine = [P](const std::string& n) { return n == std::string(P) + "::parseLine"; };
    auto isFlush = [P](const std::string& n) { return n == std::string(P) + "::flush_m"; };
    auto parseEntry = [&p, P](const Instruction* i) { return entryOf(i) && p.name(i->getFunction()) == std::string(P) + "::parse"; };
    s.events.push_back({ lineOk, parseEntry, 0, true });
    s.events.push_back({ lineOk, [&p, isLine](const Instruction* i) { return callTo(p, i, [&](const Function* f) { return isLine(p.name(f)); }); }, B(lineOk), false });
    s.events.push_back({ flushOk, [&p, isFlush](const Instruction* i) { return callTo(p, i, [&](const Function* f) { return isFlush(p.name(f)); }); }, B(flushOk), false });
    s.call(lineOk, [&p, errorOf, isLine](const CallBase* cb, const Function* f) { return p.name(f) == "srtc::Error::isError" && errorOf(cb, isLine); }, Range::eq(0));
    s.call(flushOk, [&p, errorOf, isFlush](const CallBase* cb, const Function* f) { return p.name(f) == "srtc::Error::isError" && errorOf(cb, isFlush); }, Range::eq(0));
    s.call(addr, [](const CallBase*, const Function* f) { return f->getName() == "inet_pton"; }, Range::ge(1));
    auto codecField = [&p](const Value* v) { return contains(p.field(v).cls, "ParsePayloadState") && p.field(v).name == "codec"; };
    // a test of the optional's engaged flag / of its value, or a named comparison of the optional
    s.fields.push_back({ codec, [](const FieldRef& f) { return contains(f.cls, "ParsePayloadState") && f.name == "codec?"; }, Range::nonzero() });
    s.call(codec, [=, &p](const CallBase* cb, const Function* f) { return (contains(p.name(f), "::has_value") || contains(p.name(f), "::operator bool") || contains(p.name(f), "_M_is_engaged")) && cb->arg_size() && codecField(cb->getArgOperand(0)); }, Range::nonzero());
    auto cmpRtx = [=](const ICmpInst* c, const std::function<const Value*(const Value*)>& res) {
        bool k = false, l = false;
        for (auto& o : c->operands()) {
            auto* v = originOf(res(o));
            if (auto* ci = dyn_cast<ConstantInt>(v))
                k |= ci->getSExtValue() == *vRtx;
            else if (auto* ld = dyn_cast<LoadInst>(v))
                l |= codecField(ld->getPointerOperand());
        }
        return k && l;
    };
    s.cmps.push_back({ notRtx, cmpRtx, true });
    s.call(notRtx, [=, &p](const CallBase* cb, const Function* f) { return startsWith(p.name(f), "std::operator!=") && cb->arg_size() == 2 && codecField(cb->getArgOperand(0)); }, Range::nonzero());
    s.call(notRtx, [=, &p](const CallBase* cb, const Function* f) { return startsWith(p.name(f), "std::operator==") && cb->arg_size() == 2 && codecField(cb->getArgOperand(0)); }, Range::eq(0));
    s.fields.push_back({ type, [](const FieldRef& f) { return contains(f.cls, "ParseMediaState") && f.name == "mediaType?"; }, Range::nonzero() });
    s.call(type, [=, &p](const CallBase* cb, const Function* f) { return (contains(p.name(f), "::has_value") || contains(p.name(f), "::operator bool")) && cb->arg_size() && p.field(cb->getArgOperand(0)).name == "mediaType"; }, Range::nonzero());
    s.isRoot = [&p, P](const Function* f) { return p.name(f) == std::string(P) + "::parse"; };

    std::vector<FactSet> needs;
    auto sink = [&](const char* rule, std::function<bool(const Instruction*)> m, FactSet use, std::function<bool(FactSet)> ok, int n = 1) {
        needs.push_back(use);
        FlowSpec::Sink k;
        k.rule = rule;
        k.match = m;
        k.ok = ok;
        k.minCount = n;
        s.sinks.push_back(k);
    };
    auto makesAnswer = [&p](const Instruction* i) {
        return callTo(p, i, [&p](const Function* f) { return p.name(f) == "srtc::SdpAnswer::SdpAnswer"; }) && !classIs(p.name(i->getFunction()), "srtc::SdpAnswer");
    };
    auto has = [&](FactSet need) { return [need](FactSet f) { return (f & need) == need; }; };
    sink("an answer is accepted only with ICE credentials", makesAnswer, B(ufrag) | B(pwd), has(B(ufrag) | B(pwd)));
    sink("an answer is accepted only with a certificate fingerprint", makesAnswer, B(cert), has(B(cert)));
    sink("an answer is accepted only with a candidate", makesAnswer, B(hosts), has(B(hosts)));
    sink("an answer is accepted only with media or data", makesAnswer, B(media) | B(data), [=](FactSet f) { return (f & (B(media) | B(data))) != 0; });
    sink("an answer with media is accepted only with multiplexed control packets", makesAnswer, B(noMedia) | B(mux), [=](FactSet f) { return (f & (B(noMedia) | B(mux))) != 0; });
    sink("an answer is accepted only when every line and media section was", makesAnswer, B(lineOk) | B(flushOk), has(B(lineOk) | B(flushOk)));
    auto grows = [&p](const Instruction* i, const char* field) {
        auto* cb = asCall(i);
        if (!cb || !cb->arg_size() || p.field(cb->getArgOperand(0)).name != field || p.field(cb->getArgOperand(0)).cls != "srtc::SdpAnswerParser")
            return false;
        auto n = cb->getCalledFunction() ? p.name(cb->getCalledFunction()) : std::string();
        auto k = n.rfind(">::");
        auto m = k == std::string::npos ? n : n.substr(k + 3);
        return startsWith(m, "push_back") || startsWith(m, "emplace_back") || startsWith(m, "insert") || contains(n, "::emplace_back<") || contains(n, "::insert<") || startsWith(m, "operator=");
    };
    sink("a candidate is taken only with an address that was understood", [=](const Instruction* i) { return grows(i, "hostList"); }, B(addr), has(B(addr)));
    sink("a media description is made only from a section with a type and an identifier", [&p](const Instruction* i) {
        return callTo(p, i, [&p](const Function* f) { return p.name(f) == "srtc::Media::Media"; }) && contains(p.name(i->getFunction()), "ParseMediaState::");
    }, B(mid) | B(type), has(B(mid) | B(type)), 0);
    sink("a track is made only for a payload type with a media codec", [&p](const Instruction* i) {
        return callTo(p, i, [&p](const Function* f) { return p.name(f) == "srtc::Track::Track"; }) && contains(p.name(i->getFunction()), "ParseMediaState::selectTrack");
    }, B(codec) | B(notRtx), has(B(codec) | B(notRtx)), 0);
    // each requirement is decided on its own, with the facts it speaks of only: fewer path states
    for (auto& k : s.sinks) {
        FlowSpec one = s;
        one.sinks = { k };
        FactSet use = 0;
        for (size_t i = 0; i < s.factNames.size(); i++)
            if (needs[&k - &s.sinks[0]] & B(i))
                use |= B(i);
        auto keep = [&](auto& v) {
            v.erase(std::remove_if(v.begin(), v.end(), [&](auto& x) { return !(use & B(x.id)); }), v.end());
        };
        keep(one.calls);
        keep(one.fields);
        keep(one.cmps);
        keep(one.events);
        addFlow(r, one, runFlow(p, one));
    }

    // no error result is dropped in the parser
    int nerr = 0;
    for (auto* f : p.funcs) {
        if (!classIs(p.name(f), P))
            continue;
        for (auto& i : instructions(f)) {
            auto* cb = asCall(&i);
            if (!cb || !cb->arg_size() || !cb->paramHasAttr(0, Attribute::StructRet))
                continue;
            bool own = false;
            for (auto* t : p.callees(cb))
                own |= classIs(p.name(t), P) && contains(p.name(t), "parseLine");
            for (auto* t : p.callees(cb))
                own |= p.name(t) == std::string(P) + "::flush_m";
            if (!own)
                continue;
            nerr++;
            auto* obj = stripCasts(cb->getArgOperand(0));
            bool used = isa<Argument>(obj);
            for (auto* u : obj->users())
                if (auto* c2 = dyn_cast<CallBase>(u); c2 && c2 != cb && !isa<IntrinsicInst>(c2))
                    for (auto* t : p.callees(c2))
                        used |= p.name(t) != "srtc::Error::~Error";
            for (auto* u : obj->users())
                used |= isa<LoadInst>(u) || isa<GetElementPtrInst>(u);
            r.obligation(used);
            r.site("no error of the parser is dropped", Program::loc(&i));
            if (!used)
                r.viol("no error of the parser is dropped", Program::loc(&i), p.name(f), "the error result is not examined");
        }
    }
    r.need("error results in the parser", nerr);
}
