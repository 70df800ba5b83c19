// C22 every codec has its implementations and names
#include "rules.h"
#include "rules_util.h"
#include "llvm/IR/Operator.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"

namespace
{
std::string lower(std::string s)
{
    for (auto& c : s)
        c = tolower(c);
    return s;
}
std::string literal(const Value* v)
{
    v = v->stripPointerCasts();
    if (auto* g = dyn_cast<GlobalVariable>(v); g && g->isConstant() && g->hasInitializer())
        if (auto* d = dyn_cast<ConstantDataSequential>(g->getInitializer()); d && d->isCString())
            return d->getAsCString().str();
    return "";
}
struct Codecs {
    Program& p;
    Report& r;
    std::vector<std::pair<std::string, int64_t>> values;

    bool isCodec(const DIType* t) { t = t ? Program::strip(t) : nullptr; return t && Program::typeName(t) == "srtc::Codec"; }
    const Argument* codecArg(const Function* f)
    {
        for (auto& a : f->args())
            if (a.getType()->isIntegerTy(32) && isCodec(p.typeOf(&a)))
                return &a;
        return nullptr;
    }
    static std::string returnType(const Function* f)
    {
        auto* sp = f->getSubprogram();
        if (!sp || !sp->getType() || !sp->getType()->getTypeArray().size())
            return "";
        auto* t = sp->getType()->getTypeArray()[0];
        return t ? Program::typeName(Program::strip(t)) : "void";
    }
    // the copy of f for one codec
    Function* with(const Function* f, int64_t codec)
    {
        Program::SpecOpts o;
        o.unroll = true;
        auto* arg = codecArg(f);
        unsigned n = arg ? arg->getArgNo() : ~0u;
        o.keep = [&](const Function* g) { auto m = p.name(g); return m == "srtc::Track::getCodec" || m == "srtc::log"; };
        o.assume = [&, n, codec](const Value* v) -> std::optional<int64_t> {
            if (auto* a = dyn_cast<Argument>(v); a && a->getArgNo() == n && a->getType()->isIntegerTy(32))
                return codec;
            if (auto* cb = dyn_cast<CallBase>(v))
                for (auto* t : p.callees(cb))
                    if (p.name(t) == "srtc::Track::getCodec")
                        return codec;
            if (auto* l = dyn_cast<LoadInst>(v); l && l->getType()->isIntegerTy(32)) {
                auto fr = p.field(l->getPointerOperand());
                if (fr && fr.cls == "srtc::Track" && isCodec(fr.type))
                    return codec;
            }
            return std::nullopt;
        };
        return p.specialise(f, o);
    }
    // classes derived from base that f constructs
    std::set<std::string> constructed(const Function* f, const std::string& base)
    {
        std::set<std::string> out;
        auto add = [&](const std::string& c) {
            if (startsWith(c, base.c_str()) && c != base && !contains(c, "<"))
                out.insert(c);
        };
        for (auto& i : instructions(f)) {
            if (auto* st = dyn_cast<StoreInst>(&i))
                if (auto* g = dyn_cast<GlobalVariable>(st->getValueOperand()->stripInBoundsOffsets()); g && g->getName().starts_with("_ZTV")) {
                    auto n = llvm::demangle(g->getName().str());
                    if (auto k = n.find("vtable for "); k != std::string::npos)
                        add(n.substr(k + 11));
                }
            if (auto* cb = asCall(&i))
                for (auto* t : p.callees(cb))
                    if (isCtor(p, t)) {
                        auto n = p.name(t);
                        add(n.substr(0, n.rfind("::")));
                    }
        }
        return out;
    }
    int undecided = 0;
    void factory(const std::string& base)
    {
        const char* rule = base == "srtc::Packetizer" ? "every codec has the packetizer of its own" : "every codec has the depacketizer of its own";
        const Function* f = nullptr;
        for (auto* g : p.funcs)
            if (p.name(g) == base + "::make")
                f = g;
        if (!f) {
            r.errors.push_back(base + "::make not found");
            return;
        }
        auto all = constructed(with(f, -1), base), direct = constructed(f, base);
        std::map<std::string, std::string> owner;
        for (auto& [name, v] : values) {
            if (name == "Rtx")
                continue;
            auto cs = constructed(with(f, v), base);
            r.site(rule, name + ": " + (cs.empty() ? "-" : *cs.begin()));
            if (cs.size() > 1) {
                undecided++; // the choice is not made from the codec by branches
                continue;
            }
            if (cs.empty() && direct.empty()) {
                undecided++;
                continue;
            }
            bool ok = cs.size() == 1 && contains(lower(*cs.begin()), lower(name).c_str());
            std::string why = cs.empty() ? "nothing is made for codec " + name : "codec " + name + " gets " + *cs.begin();
            if (ok && !owner.insert({ *cs.begin(), name }).second)
                ok = false, why = *cs.begin() + " is used for two codecs";
            r.obligation(ok);
            if (!ok)
                r.viol(rule, Program::loc(f), p.name(f), why);
        }
        (void)all;
    }
    std::optional<int64_t> returned(const Function* f)
    {
        std::optional<int64_t> v;
        for (auto& bb : *f)
            if (auto* ret = dyn_cast<ReturnInst>(bb.getTerminator())) {
                auto* c = ret->getReturnValue() ? dyn_cast<ConstantInt>(ret->getReturnValue()) : nullptr;
                if (!c || (v && *v != int64_t(c->getZExtValue())))
                    return std::nullopt;
                v = c->getZExtValue();
            }
        return v;
    }
    void run()
    {
        auto* ct = p.composite("srtc::Codec");
        if (ct)
            for (auto* e : ct->getElements())
                if (auto* d = dyn_cast_or_null<DIEnumerator>(e))
                    values.push_back({ d->getName().str(), d->getValue().getSExtValue() });
        r.need("codecs", values.size(), 2);
        factory("srtc::Packetizer");
        factory("srtc::Depacketizer");

        // kind
        const char* kindRule = "every codec is either audio or video";
        std::map<std::string, std::string> kind;
        const Function *video = nullptr, *audio = nullptr;
        std::vector<const Function*> namers, parsers;
        for (auto* f : p.funcs) {
            auto n = p.name(f);
            if (n == "srtc::isVideoCodec")
                video = f;
            if (n == "srtc::isAudioCodec")
                audio = f;
            if (codecArg(f) && f->getReturnType()->isPointerTy() && f->arg_size() == 1 && contains(Program::file(f), "sdp_"))
                namers.push_back(f);
            if (contains(returnType(f), "optional<srtc::Codec>") && contains(Program::file(f), "sdp_answer"))
                parsers.push_back(f);
        }
        if (video && audio)
            for (auto& [name, v] : values) {
                auto a = returned(with(audio, v)), b = returned(with(video, v));
                r.site(kindRule, name + (a && *a ? " audio" : "") + (b && *b ? " video" : ""));
                if (!a || !b) {
                    undecided++;
                    continue;
                }
                bool ok = name == "Rtx" ? !*a && !*b : (*a != 0) != (*b != 0);
                if (ok && (*a || *b))
                    kind[name] = *a ? "audio" : "video";
                r.obligation(ok);
                if (!ok)
                    r.viol(kindRule, Program::loc(video), p.name(video), "codec " + name + " is " + (*a ? "audio" : "not audio") + " and " + (*b ? "video" : "not video"));
            }
        // the registered encoding names and clock rates
        static const std::map<std::string, std::string> iana = { { "VP8", "VP8/90000" }, { "VP9", "VP9/90000" }, { "H264", "H264/90000" }, { "H265", "H265/90000" }, { "AV1", "AV1/90000" }, { "Opus", "opus/48000/2" } };
        const char* nameRule = "the offer names every codec as registered";
        const char* parseRule = "the answer parser reads every name as the codec the offer wrote it for";
        for (auto* f : namers)
            for (auto& [name, v] : values) {
                if (name == "Rtx")
                    continue;
                auto* s = with(f, v);
                std::string text;
                int rets = 0;
                for (auto& bb : *s)
                    if (auto* ret = dyn_cast<ReturnInst>(bb.getTerminator())) {
                        rets++;
                        text = literal(ret->getReturnValue());
                    }
                if (rets != 1 || text.empty()) {
                    undecided++;
                    continue;
                }
                bool ok = iana.count(name) ? text == iana.at(name) : text != "-";
                r.site(nameRule, name + " -> " + text);
                r.obligation(ok);
                if (!ok)
                    r.viol(nameRule, Program::loc(f), p.name(f), "codec " + name + " is written as '" + text + "'");
            }
        for (auto* f : parsers)
            for (auto& [name, v] : values) {
                std::string text = name == "Rtx" ? "rtx" : iana.count(name) ? iana.at(name) : name;
                text = text.substr(0, text.find('/'));
                Program::SpecOpts o;
                o.unroll = true;
                o.keep = [&](const Function* g) { return p.name(g) == "srtc::log"; };
                o.assume = [&](const Value* x) -> std::optional<int64_t> {
                    auto* cb = dyn_cast<CallBase>(x);
                    if (!cb)
                        return std::nullopt;
                    std::string l;
                    for (auto& a : cb->args())
                        if (a->getType()->isPointerTy())
                            if (auto t = literal(a); !t.empty())
                                l = t;
                    if (l.empty())
                        return std::nullopt;
                    for (auto* t : p.callees(cb)) {
                        auto n = p.name(t);
                        if (contains(n, "operator=="))
                            return l == text;
                        if (contains(n, "operator!="))
                            return l != text;
                        if (n == "strcmp" || endsWith(n, "::compare"))
                            return l == text ? 0 : 1;
                        if (n == "strcasecmp")
                            return lower(l) == lower(text) ? 0 : 1;
                    }
                    return std::nullopt;
                };
                auto* s = p.specialise(f, o);
                auto got = returned(s);
                if (!got) {
                    undecided++;
                    continue;
                }
                bool ok = (*got & 0xffffffff) == v && (*got >> 32 & 0xff) == 1;
                r.site(parseRule, text + " -> " + std::to_string(*got & 0xffffffff));
                r.obligation(ok);
                if (!ok)
                    r.viol(parseRule, Program::loc(f), p.name(f), "'" + text + "' is not read as codec " + name);
            }
        r.counts["offer naming functions"] = namers.size();
        r.counts["answer name parsers"] = parsers.size();
        r.counts["undecided"] = undecided;
    }
};
} // namespace
void ruleC22(Program& p, Report& r)
{
    Codecs c{ p, r, {} };
    c.run();
}
