#include "rules.h"
#include "lin.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

void debugBounds(Program& p, const std::string& sub);
static int debug(Program& p, const std::string& cmd, const std::string& arg)
{
    if (cmd == "ir") {
        for (auto& f : *p.mod)
            if (arg.empty() || contains(p.fullName(&f), arg.c_str()))
                f.print(outs());
        return 0;
    }
    for (auto* f : p.funcs) {
        if (!arg.empty() && !contains(p.fullName(f), arg.c_str()))
            continue;
        if (cmd == "calls") {
            outs() << p.name(f) << "  [" << Program::loc(f) << "]\n";
            for (auto& i : instructions(f))
                if (auto* cb = dyn_cast<CallBase>(&i))
                    if (!isa<IntrinsicInst>(cb)) {
                        outs() << "    " << Program::loc(cb) << " ->";
                        for (auto* t : p.callees(cb))
                            outs() << " " << p.name(t);
                        outs() << "\n";
                    }
        }
        if (cmd == "ops") {
            std::string out;
            raw_string_ostream o(out);
            auto isByte = [&](const Value* v) {
                auto n = p.pointeeName(v);
                return n == "unsigned char" || n == "char" || n == "uint8_t" || n == "unsigned short" || n == "unsigned int" || n == "unsigned long";
            };
            for (auto& i : instructions(f)) {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                if (auto* mi = dyn_cast<MemIntrinsic>(&i)) {
                    if (!isa<ConstantInt>(mi->getLength()) || true) o << "   MEM " << Program::loc(&i) << i << "\n";
                    continue;
                }
                if (auto* cb = dyn_cast<CallBase>(&i)) {
                    if (isa<IntrinsicInst>(cb)) continue;
                    std::string n = cb->getCalledFunction() ? p.name(cb->getCalledFunction()) : "?";
                    if (contains(n, "operator[]") || endsWith(n, "::front") || endsWith(n, "::back") || contains(n, "abort") || contains(n, "assert") || contains(n, "mem") || contains(n, "operator*") || contains(n, "operator->") || contains(n,"::pop_"))
                        o << "   CALL " << Program::loc(&i) << " " << n << "\n";
                    continue;
                }
                const Value* ptr = nullptr;
                if (auto* l = dyn_cast<LoadInst>(&i)) ptr = l->getPointerOperand();
                if (auto* s = dyn_cast<StoreInst>(&i)) ptr = s->getPointerOperand();
                if (ptr) {
                    LinCtx L(p);
                    Lin x = L.of(ptr);
                    bool var = x.t.size() > 1;
                    const Value* base = nullptr;
                    for (auto& [k, c] : x.t) if (k->getType()->isPointerTy()) base = k;
                    if (var || (base && !isa<AllocaInst>(base) && !isa<GlobalVariable>(base) && isByte(base)))
                        o << "   " << (isa<LoadInst>(i) ? "LD " : "ST ") << Program::loc(&i) << i << "  base " << (base ? p.pointeeName(base) : "") << "\n";
                }
                if (auto* b = dyn_cast<BinaryOperator>(&i)) {
                    auto op = b->getOpcode();
                    if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)
                        if (!isa<Constant>(b->getOperand(1))) o << "   ARITH " << Program::loc(&i) << i << "\n";
                }
            }
            if (!o.str().empty()) outs() << p.name(f) << "  [" << Program::loc(f) << "]\n" << out;
        }
        if (cmd == "fields") {
            outs() << p.name(f) << "\n";
            for (auto& i : instructions(f)) {
                if (auto* l = dyn_cast<LoadInst>(&i))
                    outs() << "   L " << Program::loc(l) << " " << p.field(l->getPointerOperand()).str() << "+" << p.field(l->getPointerOperand()).rest << "  " << *l << "\n";
                if (auto* l = dyn_cast<StoreInst>(&i))
                    outs() << "   S " << Program::loc(l) << " " << p.field(l->getPointerOperand()).str() << "  " << *l << "\n";
            }
        }
    }
    return 0;
}

int main(int argc, char** argv)
{
    if (argc < 3) {
        errs() << "usage: sa BITCODE PROPERTY OUT.json | sa BITCODE ir|calls|fields [substring]\n";
        return 2;
    }
    const char* opts[] = { "sa", "-unroll-threshold=6000", "-unroll-max-iteration-count-to-analyze=64" };
    cl::ParseCommandLineOptions(3, opts);
    std::string cmd = argv[2], arg = argc > 3 ? argv[3] : "";
    const Rule* rule = nullptr;
    for (auto& r : allRules())
        if (cmd == r.id)
            rule = &r;
    Program p;
    if (!p.load(argv[1]))
        return 2;
    if (!rule) {
        if (cmd != "rawir")
            p.prepareFlow();
        p.index();
        if (cmd == "spec") { // spec SUBSTR [offset=value...]: show the specialised copy
            for (auto* f : std::vector<Function*>(p.funcs))
                if (contains(p.name(f), arg.c_str())) {
                    Program::SpecOpts so;
                    if (auto* k = getenv("SA_KEEP"))
                        so.keep = [&p, k](const Function* g) { return contains(p.name(g), k); };
                    if (auto* k = getenv("SA_PROFILE"))
                        so.assume = [&p, k](const Value* v) -> std::optional<int64_t> {
                            auto* l = dyn_cast<LoadInst>(v);
                            if (l && p.field(l->getPointerOperand()).name == "mProfileId")
                                return atoi(k);
                            return std::nullopt;
                        };
                    so.unroll = getenv("SA_UNROLL") != nullptr;
                    outs() << p.name(f) << "\n" << *p.specialise(f, so) << "\n";
                }
            return 0;
        }
        if (cmd == "bounds") {
            debugBounds(p, arg);
            return 0;
        }
        return debug(p, cmd == "rawir" ? "ir" : cmd, arg);
    }
    if (std::string(rule->pipeline) == "flow")
        p.prepareFlow();
    if (std::string(rule->pipeline) != "own")
        p.index();
    Report r;
    rule->fn(p, r);

    json::Object o;
    o["property"] = rule->id;
    json::Array vs;
    for (auto& v : r.violations) {
        json::Array ch;
        for (auto& c : v.chain)
            ch.push_back(c);
        vs.push_back(json::Object{ { "rule", v.rule }, { "where", v.where }, { "function", v.fn }, { "detail", v.detail }, { "chain", std::move(ch) } });
    }
    o["violations"] = std::move(vs);
    json::Array es;
    for (auto& e : r.errors)
        es.push_back(e);
    o["errors"] = std::move(es);
    json::Object st;
    for (auto& [k, v] : r.sites) {
        json::Array a;
        for (auto& x : v)
            a.push_back(x);
        st[k] = std::move(a);
    }
    o["sites"] = std::move(st);
    json::Object cn;
    for (auto& [k, v] : r.counts)
        cn[k] = v;
    o["counts"] = std::move(cn);
    json::Array as;
    for (auto& a : r.assumptions)
        as.push_back(a);
    o["assumptions"] = std::move(as);
    o["obligations"] = r.obligations;
    o["discharged"] = r.discharged;
    std::error_code ec;
    raw_fd_ostream out(arg.empty() ? "-" : arg, ec);
    out << formatv("{0:2}", json::Value(std::move(o))) << "\n";
    return r.violations.empty() && r.errors.empty() ? 0 : 1;
}
