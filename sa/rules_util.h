#pragma once
#include "prog.h"
inline bool isCtor(Program& p, const Function* f)
{
    auto n = p.name(f);
    auto k = n.rfind("::");
    if (k == std::string::npos)
        return false;
    auto last = n.substr(k + 2);
    auto j = n.rfind("::", k - 1);
    auto cls = n.substr(j == std::string::npos ? 0 : j + 2, k - (j == std::string::npos ? 0 : j + 2));
    return cls == last;
}
// the value a local variable / wrapper was initialised with: looks through casts, single-store allocas and
// single-element aggregates
const llvm::Value* originOf(const llvm::Value* v);
#include <optional>
std::optional<int64_t> enumValue(Program& p, const char* enumSuffix, const char* enumerator);
inline bool entryOf(const llvm::Instruction* i)
{
    return i->getParent() == &i->getFunction()->getEntryBlock() && i == &*i->getParent()->getFirstNonPHIOrDbgOrAlloca();
}
// does a (possibly resolved) call reach a function satisfying m
template <class M> bool callTo(Program& p, const llvm::Instruction* i, M m)
{
    auto* cb = llvm::dyn_cast<llvm::CallBase>(i);
    if (!cb || llvm::isa<llvm::IntrinsicInst>(cb))
        return false;
    for (auto* t : p.callees(cb))
        if (m(t))
            return true;
    return false;
}
// both read the same local cell / are the same SSA value and nothing writes the cell after `first`
bool sameLocalValue(Program& p, const llvm::Value* a, const llvm::Value* b, const llvm::Instruction* first);
// the same memory cell / object address, structurally (loads of the same field of the same object count as equal)
bool sameAddress(const llvm::Value* a, const llvm::Value* b, int depth = 0);
// Provenance: does the value (or the object it points to) come from a value satisfying pred? Looks through casts,
// loads, locals filled by constructors / out parameters, accessors, return values and arguments (all callers).
struct Prov {
    Program& p;
    std::function<bool(const llvm::Value*)> pred;
    std::set<const llvm::Value*> seen;
    std::function<bool(const llvm::Value*)> stop = {}; // values that are never looked through
    std::set<const llvm::Value*> active = {};          // phis being looked through
    bool derives(const llvm::Value* v, int depth = 0);
};
inline bool derivesFrom(Program& p, const llvm::Value* v, std::function<bool(const llvm::Value*)> pred)
{
    Prov q{ p, std::move(pred), {}, {} };
    return q.derives(v);
}
inline bool derivesFromNot(Program& p, const llvm::Value* v, std::function<bool(const llvm::Value*)> pred, std::function<bool(const llvm::Value*)> stop)
{
    Prov q{ p, std::move(pred), {}, std::move(stop) };
    return q.derives(v);
}
inline std::function<bool(const llvm::Value*)> resultOf(Program& p, std::vector<std::string> names)
{
    return [&p, names](const llvm::Value* v) {
        auto* cb = llvm::dyn_cast<llvm::CallBase>(v);
        if (!cb)
            return false;
        for (auto* t : p.callees(cb)) {
            auto n = p.name(t);
            for (auto& x : names)
                if (n == x)
                    return true;
        }
        return false;
    };
}
