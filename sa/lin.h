// Linear forms over SSA values, modulo 2^64. Accessor calls (data(), size()) on the same object are one atom.
#pragma once
#include "prog.h"
struct Lin {
    int64_t c = 0;
    std::map<const Value*, int64_t> t;
    Lin operator+(const Lin& o) const
    {
        Lin r = *this;
        r.c += o.c;
        for (auto& [k, v] : o.t)
            if ((r.t[k] += v) == 0)
                r.t.erase(k);
        return r;
    }
    Lin scaled(int64_t k) const
    {
        Lin r;
        if (k == 0)
            return r;
        r.c = c * k;
        for (auto& [a, v] : t)
            r.t[a] = v * k;
        return r;
    }
    Lin operator-(const Lin& o) const { return *this + o.scaled(-1); }
    bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
    bool isConst() const { return t.empty(); }
};
class LinCtx
{
public:
    LinCtx(Program& p) : P(p) {}
    Lin of(const Value* v, int depth = 0);
    const Value* canon(const Value* v);
    std::string str(const Lin& l);

private:
    Program& P;
    std::map<const Value*, const Value*> mCanon;
    std::map<const Function*, std::vector<const Value*>> mReps;
};
