// C26 every formatted message has a constant format whose conversions match its arguments
#include "rules.h"
#include "rules_util.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"

namespace
{
struct Fmt {
    int format;   // index of the format argument
    int first;    // index of the first argument consumed, -1: a va_list
    int va = -1;  // index of the va_list
    int dst = -1, size = -1;
};
struct Conv {
    char kind; // i l d p s n
    std::string text;
};
std::optional<std::vector<Conv>> parseFormat(StringRef f)
{
    std::vector<Conv> out;
    for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%')
            continue;
        size_t b = i++;
        if (i >= f.size())
            return std::nullopt;
        if (f[i] == '%')
            continue;
        while (i < f.size() && strchr("-+ #0'", f[i]))
            i++;
        auto number = [&] {
            if (i < f.size() && f[i] == '*') {
                out.push_back({ 'i', "*" });
                i++;
            } else
                while (i < f.size() && isdigit(f[i]))
                    i++;
        };
        number();
        if (i < f.size() && f[i] == '.') {
            i++;
            number();
        }
        int longs = 0;
        bool bigL = false;
        while (i < f.size() && strchr("hlqjztL", f[i])) {
            if (f[i] == 'L')
                bigL = true;
            else if (f[i] != 'h')
                longs++;
            i++;
        }
        if (i >= f.size())
            return std::nullopt;
        char k = 0;
        switch (f[i]) {
        case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': k = longs ? 'l' : 'i'; break;
        case 'c': k = 'i'; break;
        case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': k = bigL ? 'D' : 'd'; break;
        case 's': k = longs ? 'w' : 's'; break;
        case 'p': k = 'p'; break;
        case 'm': continue;
        default: return std::nullopt; // including %n
        }
        out.push_back({ k, f.slice(b, i + 1).str() });
    }
    return out;
}

struct LogRule {
    Program& p;
    Report& r;
    std::map<const Function*, Fmt> fmt;

    static const char* kindOf(const Type* t)
    {
        if (t->isIntegerTy(32))
            return "i";
        if (t->isIntegerTy(64))
            return "l";
        if (t->isDoubleTy())
            return "d";
        if (t->isX86_FP80Ty())
            return "D";
        if (t->isPointerTy())
            return "p";
        return "?";
    }
    std::optional<Fmt> formatting(const Function* f)
    {
        if (auto it = fmt.find(f); it != fmt.end())
            return it->second;
        static const std::map<std::string, Fmt> lib = {
            { "printf", { 0, 1 } }, { "fprintf", { 1, 2 } }, { "dprintf", { 1, 2 } }, { "syslog", { 1, 2 } }, { "sprintf", { 1, 2, -1, 0 } }, { "snprintf", { 2, 3, -1, 0, 1 } },
            { "vprintf", { 0, -1, 1 } }, { "vfprintf", { 1, -1, 2 } }, { "vsprintf", { 1, -1, 2, 0 } }, { "vsnprintf", { 2, -1, 3, 0, 1 } }, { "vdprintf", { 1, -1, 2 } }, { "vsyslog", { 1, -1, 2 } },
            { "asprintf", { 1, 2 } }, { "vasprintf", { 1, -1, 2 } }, { "BIO_printf", { 1, 2 } }, { "BIO_snprintf", { 2, 3, -1, 0, 1 } },
        };
        if (!f->isDeclaration())
            return std::nullopt;
        auto it = lib.find(f->getName().str());
        return it == lib.end() ? std::nullopt : std::optional(it->second);
    }
    // the constant strings a format value can be; false when something else is possible
    bool formats(const Value* v, std::vector<std::pair<StringRef, const Value*>>& out, std::set<const Value*>& seen, std::string& why, int depth = 0)
    {
        v = v->stripPointerCasts();
        if (!seen.insert(v).second)
            return true;
        if (auto* g = dyn_cast<GlobalVariable>(v)) {
            if (g->isConstant() && g->hasInitializer())
                if (auto* d = dyn_cast<ConstantDataSequential>(g->getInitializer()); d && d->isCString()) {
                    out.push_back({ d->getAsCString(), v });
                    return true;
                }
            if (g->isConstant() && g->hasInitializer() && g->getInitializer()->isNullValue()) {
                out.push_back({ StringRef(), v });
                return true;
            }
        }
        if (auto* ph = dyn_cast<PHINode>(v)) {
            for (auto& x : ph->incoming_values())
                if (!formats(x, out, seen, why, depth))
                    return false;
            return true;
        }
        if (auto* se = dyn_cast<SelectInst>(v))
            return formats(se->getTrueValue(), out, seen, why, depth) && formats(se->getFalseValue(), out, seen, why, depth);
        if (auto* l = dyn_cast<LoadInst>(v)) {
            auto* ptr = l->getPointerOperand()->stripPointerCasts();
            if (auto* g = dyn_cast<GlobalVariable>(ptr); g && g->isConstant() && g->hasInitializer())
                return formats(g->getInitializer(), out, seen, why, depth);
            if (auto* a = dyn_cast<AllocaInst>(ptr)) {
                bool any = false;
                for (auto* u : a->users()) {
                    if (auto* st = dyn_cast<StoreInst>(u); st && st->getPointerOperand() == a) {
                        any = true;
                        if (!formats(st->getValueOperand(), out, seen, why, depth))
                            return false;
                    } else if (isa<CallBase>(u) && !isa<IntrinsicInst>(u)) {
                        why = "the format string is computed at run time";
                        return false;
                    }
                }
                if (any)
                    return true;
            }
        }
        if (auto* a = dyn_cast<Argument>(v)) {
            auto* f = a->getParent();
            if (auto it = fmt.find(f); it != fmt.end() && it->second.format == int(a->getArgNo()))
                return true; // checked at the callers
        }
        why = "the format string is not a constant";
        return false;
    }
    // why a %s argument is not a terminated string
    std::string badString(const Value* v, const CallBase* at)
    {
        auto src = [&](const Value* x) {
            if (auto* cb = dyn_cast<CallBase>(x))
                for (auto* t : p.callees(cb)) {
                    auto n = p.name(t);
                    if (n == "srtc::ByteBuffer::data" || (startsWith(n, "std::basic_string_view<") && endsWith(n, "::data")) || (startsWith(n, "std::vector<") && endsWith(n, "::data")))
                        return true;
                }
            return false;
        };
        // only along the pointer itself
        std::vector<const Value*> q{ v };
        std::set<const Value*> seen;
        DominatorTree dt(*const_cast<Function*>(at->getFunction()));
        while (!q.empty()) {
            auto* x = q.back()->stripPointerCasts();
            q.pop_back();
            if (!seen.insert(x).second)
                continue;
            if (src(x))
                return "the argument of %s points into a buffer that is not a terminated string";
            if (isa<ConstantPointerNull>(x))
                return "the argument of %s can be a null pointer";
            if (auto* g = dyn_cast<GEPOperator>(x))
                q.push_back(g->getPointerOperand());
            if (auto* ph = dyn_cast<PHINode>(x))
                for (auto& i : ph->incoming_values())
                    q.push_back(i);
            if (auto* s = dyn_cast<SelectInst>(x)) {
                q.push_back(s->getTrueValue());
                q.push_back(s->getFalseValue());
            }
            if (auto* l = dyn_cast<LoadInst>(x))
                if (auto* o = originOf(l); o != l)
                    q.push_back(o);
            if (auto* a = dyn_cast<Argument>(x)) {
                auto* t = p.pointee(a);
                auto n = t ? Program::typeName(Program::strip(t)) : "";
                if (n == "unsigned char" || n == "uint8_t")
                    return "the argument of %s points to bytes that are not a terminated string";
            }
            if (auto* cb = dyn_cast<CallBase>(x))
                for (auto* t : p.callees(cb)) {
                    auto n = p.name(t);
                    if (!startsWith(n, "std::__cxx11::basic_string<") || !(endsWith(n, "::c_str") || endsWith(n, "::data")) || !cb->arg_size())
                        continue;
                    auto* obj = cb->getArgOperand(0)->stripPointerCasts();
                    if (!isa<AllocaInst>(obj))
                        continue;
                    for (auto* u : obj->users())
                        if (auto* d = dyn_cast<CallBase>(u); d && d != cb && dt.dominates(cb, d) && dt.dominates(d, at))
                            for (auto* dtgt : p.callees(d))
                                if (endsWith(p.name(dtgt), "::~basic_string"))
                                    return "the string passed for %s is destroyed before it is read";
                }
        }
        return "";
    }
    void fail(const CallBase* cb, const std::string& what, const std::string& detail) { r.viol(what, Program::loc(cb), p.name(cb->getFunction()), detail); }
    void check(const CallBase* cb, const std::string& target, const Fmt& f)
    {
        bool ok = true;
        std::vector<std::pair<StringRef, const Value*>> fs;
        std::set<const Value*> seen;
        std::string why;
        auto bad = [&](const std::string& what, const std::string& detail) {
            ok = false;
            fail(cb, what, detail);
        };
        if (f.format >= int(cb->arg_size()))
            return;
        if (!formats(cb->getArgOperand(f.format), fs, seen, why))
            bad("format strings are constants", "call of " + target + ": " + why);
        for (auto& [text, g] : fs) {
            auto cs = parseFormat(text);
            if (!cs) {
                bad("conversions are well formed", "call of " + target + " with the format \"" + text.str() + "\"");
                continue;
            }
            if (f.first < 0) {
                continue;
            }
            size_t have = cb->arg_size() > unsigned(f.first) ? cb->arg_size() - f.first : 0;
            if (have < cs->size()) {
                bad("as many arguments as conversions", "call of " + target + " with the format \"" + text.str() + "\": " + std::to_string(cs->size()) + " conversions, " + std::to_string(have) + " arguments");
                continue;
            }
            if (have > cs->size())
                bad("as many arguments as conversions", "call of " + target + " with the format \"" + text.str() + "\": " + std::to_string(cs->size()) + " conversions, " + std::to_string(have) + " arguments");
            for (size_t i = 0; i < cs->size(); i++) {
                auto* v = cb->getArgOperand(f.first + i);
                char k = (*cs)[i].kind;
                std::string kind = kindOf(v->getType());
                if (kind[0] != (k == 's' || k == 'w' ? 'p' : k)) {
                    bad("arguments have the type of their conversion", "call of " + target + " with the format \"" + text.str() + "\": argument " + std::to_string(i + 1) + " does not fit " + (*cs)[i].text);
                    continue;
                }
                if (k == 's' && (i == 0 || (*cs)[i - 1].text != "*"))
                    if (auto w = badString(v, cb); !w.empty())
                        bad("strings are terminated and alive", "call of " + target + " with the format \"" + text.str() + "\": " + w + " (argument " + std::to_string(i + 1) + ")");
            }
        }
        // bounded writes
        if (f.dst >= 0 && f.dst < int(cb->arg_size())) {
            auto* d = cb->getArgOperand(f.dst);
            APInt off(64, 0);
            auto* base = d->stripPointerCasts()->stripAndAccumulateConstantOffsets(p.dl(), off, true);
            if (f.size < 0)
                bad("formatted output is bounded", "call of " + target + " without a size");
            else if (auto* a = dyn_cast<AllocaInst>(base)) {
                auto room = int64_t(a->getAllocationSize(p.dl())->getFixedValue()) - off.getSExtValue();
                auto* n = dyn_cast<ConstantInt>(originOf(cb->getArgOperand(f.size)));
                if (!n || n->getSExtValue() > room || n->isNegative())
                    bad("formatted output is bounded", "call of " + target + ": the size is not that of the buffer (" + std::to_string(room) + " bytes)");
            }
        }
        r.obligation(ok);
        r.site("formatting calls", p.name(cb->getFunction()) + " " + Program::loc(cb) + (ok ? "" : " violated"));
    }
    void run()
    {
        // project functions that take a format: variadic ones, and those that pass an argument on as a format together with a va_list
        auto isVaList = [&](const Argument* a) { auto* t = p.typeOf(a); auto n = t ? Program::typeName(t) : ""; return contains(n, "__va_list_tag") || contains(n, "va_list"); };
        for (auto* f : p.funcs)
            if (f->isVarArg() && f->arg_size() && f->getArg(f->arg_size() - 1)->getType()->isPointerTy())
                fmt[f] = { int(f->arg_size()) - 1, int(f->arg_size()) };
        for (bool again = true; again;) {
            again = false;
            for (auto* f : p.funcs)
                for (auto& i : instructions(f))
                    if (auto* cb = asCall(&i))
                        for (auto* t : p.callees(cb)) {
                            auto k = formatting(t);
                            if (!k || k->format >= int(cb->arg_size()))
                                continue;
                            auto* a = dyn_cast<Argument>(cb->getArgOperand(k->format)->stripPointerCasts());
                            if (!a || fmt.count(f))
                                continue;
                            Fmt n{ int(a->getArgNo()), -1 };
                            for (auto& x : f->args())
                                if (x.getArgNo() > a->getArgNo() && (isVaList(&x) || x.getArgNo() == f->arg_size() - 1))
                                    n.va = x.getArgNo();
                            if (k->first < 0 ? n.va < 0 : k->first < int(cb->arg_size()))
                                continue;
                            fmt[f] = n;
                            again = true;
                        }
        }
        for (auto& [f, k] : fmt)
            r.site("formatting functions", p.name(f));
        int n = 0;
        for (auto* f : p.all)
            for (auto& i : instructions(f)) {
                auto* cb = asCall(&i);
                if (!cb || (!p.isProject(f) && p.isStd(f)))
                    continue;
                for (auto* t : p.callees(cb))
                    if (auto k = formatting(t)) {
                        check(cb, p.name(t), *k);
                        n++;
                        break;
                    }
            }
        // a va_list is consumed once
        for (auto& [f, k] : fmt) {
            if (k.va < 0 && !f->isVarArg())
                continue;
            std::vector<const CallBase*> uses;
            for (auto& i : instructions(f))
                if (auto* cb = asCall(&i))
                    for (auto& a : cb->args()) {
                        auto* v = a->stripPointerCasts();
                        if ((k.va >= 0 && v == f->getArg(k.va)) || (f->isVarArg() && isa<AllocaInst>(v) && vaStarted(v))) {
                            uses.push_back(cb);
                            break;
                        }
                    }
            for (auto* a : uses)
                for (auto* b : uses) {
                    std::set<const BasicBlock*> reach;
                    std::vector<const BasicBlock*> w(succ_begin(a->getParent()), succ_end(a->getParent()));
                    while (!w.empty()) {
                        auto* x = w.back();
                        w.pop_back();
                        if (reach.insert(x).second)
                            w.insert(w.end(), succ_begin(x), succ_end(x));
                    }
                    bool after = a->getParent() == b->getParent() && a != b && a->comesBefore(b);
                    if (after || reach.count(b->getParent()))
                        fail(b, "an argument list is read once", "the argument list is passed on again after " + Program::loc(a));
                }
            r.obligation(true);
        }
        r.need("formatting calls", n, 1);
        r.counts["formatting functions"] = fmt.size();
    }
    static bool vaStarted(const Value* a)
    {
        std::vector<const Value*> q{ a };
        while (!q.empty()) {
            auto* x = q.back();
            q.pop_back();
            for (auto* u : x->users()) {
                if (auto* ii = dyn_cast<IntrinsicInst>(u); ii && ii->getIntrinsicID() == Intrinsic::vastart)
                    return true;
                if (isa<GEPOperator>(u))
                    q.push_back(u);
            }
        }
        return false;
    }
};
} // namespace

void ruleC26(Program& p, Report& r)
{
    LogRule l{ p, r };
    l.run();
    r.assumptions.push_back("C strings in fields and parameters of type const char* are terminated");
}
void ruleC22(Program&, Report&);
void ruleC15(Program&, Report&);
void ruleC16(Program&, Report&);
void ruleC18(Program&, Report&);
void ruleC20(Program&, Report&);
void ruleC21(Program&, Report&);
void ruleC20(Program& p, Report& r);
void ruleC21(Program& p, Report& r);
void ruleC23(Program&, Report&);
void ruleC25(Program&, Report&);
void ruleC24(Program&, Report&);
void registerMore(std::vector<Rule>& r)
{
    r.push_back({ "C15", "flow", ruleC15 });
    r.push_back({ "C16", "flow", ruleC16 });
    r.push_back({ "C18", "flow", ruleC18 });
    r.push_back({ "C20", "flow", ruleC20 });
    r.push_back({ "C21", "flow", ruleC21 });
    r.push_back({ "C22", "flow", ruleC22 });
    r.push_back({ "C23", "flow", ruleC23 });
    r.push_back({ "C24", "flow", ruleC24 });
    r.push_back({ "C25", "flow", ruleC25 });
    r.push_back({ "C26", "flow", ruleC26 });
}
