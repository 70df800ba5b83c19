#include "lin.h"
#include "rules.h"
#include "rules_util.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"

const Value* LinCtx::canon(const Value* v)
{
    auto it = mCanon.find(v);
    if (it != mCanon.end())
        return it->second;
    const Value* r = v;
    auto* i = dyn_cast<Instruction>(v);
    if (i) {
        auto& reps = mReps[i->getFunction()];
        for (auto* q : reps) {
            if (auto* a = dyn_cast<CallBase>(v)) {
                auto* b = dyn_cast<CallBase>(q);
                if (b && a->getCalledFunction() && a->arg_size() == 1 && b->arg_size() == 1) {
                    auto na = P.name(a->getCalledFunction()), nb = b->getCalledFunction() ? P.name(b->getCalledFunction()) : "";
                    if (na == nb && (endsWith(na, "::size") || endsWith(na, "::data")) && sameAddress(a->getArgOperand(0), b->getArgOperand(0)))
                        r = q;
                }
            } else if (isa<LoadInst>(v) && isa<LoadInst>(q)) {
                if (v->getType() == q->getType() && sameAddress(v, q))
                    r = q;
            }
            if (r != v)
                break;
        }
        if (r == v)
            reps.push_back(v);
    }
    mCanon[v] = r;
    return r;
}

Lin LinCtx::of(const Value* v, int depth)
{
    Lin r;
    if (auto* c = dyn_cast<ConstantInt>(v)) {
        r.c = c->getSExtValue();
        return r;
    }
    if (isa<ConstantPointerNull>(v))
        return r;
    if (depth < 40) {
        if (auto* b = dyn_cast<BinaryOperator>(v)) {
            auto x = [&](int k) { return of(b->getOperand(k), depth + 1); };
            switch (b->getOpcode()) {
            case Instruction::Add:
                return x(0) + x(1);
            case Instruction::Sub:
                return x(0) - x(1);
            case Instruction::Mul: {
                auto l = x(0), q = x(1);
                if (q.isConst())
                    return l.scaled(q.c);
                if (l.isConst())
                    return q.scaled(l.c);
                break;
            }
            case Instruction::Shl:
                if (auto* k = dyn_cast<ConstantInt>(b->getOperand(1)); k && k->getZExtValue() < 32)
                    return x(0).scaled(int64_t(1) << k->getZExtValue());
                break;
            default:
                break;
            }
        }
        if (auto* c = dyn_cast<CastInst>(v); c && (isa<ZExtInst>(c) || isa<SExtInst>(c) || isa<TruncInst>(c) || isa<PtrToIntInst>(c) || isa<IntToPtrInst>(c)))
            return of(c->getOperand(0), depth + 1);
        if (auto* g = dyn_cast<GEPOperator>(v)) {
            auto& dl = P.dl();
            MapVector<Value*, APInt> vars;
            APInt off(64, 0);
            if (g->collectOffset(dl, 64, vars, off)) {
                r = of(g->getPointerOperand(), depth + 1);
                r.c += off.getSExtValue();
                for (auto& [k, s] : vars)
                    r = r + of(k, depth + 1).scaled(s.getSExtValue());
                return r;
            }
        }
        if (auto* f = dyn_cast<FreezeInst>(v))
            return of(f->getOperand(0), depth + 1);
    }
    r.t[canon(v)] = 1;
    return r;
}

std::string LinCtx::str(const Lin& l)
{
    std::string s = std::to_string(l.c);
    for (auto& [k, c] : l.t) {
        std::string n;
        raw_string_ostream o(n);
        if (k->hasName())
            o << k->getName();
        else
            k->printAsOperand(o, false);
        s += " + " + std::to_string(c) + "*" + n;
    }
    return s;
}
