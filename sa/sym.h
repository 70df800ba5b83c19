// Byte-level provenance: what a byte of a value or of local memory is made of, as a canonical string.
#pragma once
#include "lin.h"
#include "prog.h"
class Sym
{
public:
    Sym(Program& p, const Function* f) : L(p), P(p), F(f) {}
    // byte k (0 = least significant) of an integer value
    std::string byteOf(const Value* v, unsigned k, int depth = 0);
    // the memory byte at address `ptr` + off as seen just before instruction `at`
    std::string memAt(const Value* ptr, int64_t off, const Instruction* at, int depth = 0);
    // n bytes of memory, first byte first
    std::vector<std::string> memRange(const Value* ptr, unsigned n, const Instruction* at)
    {
        std::vector<std::string> r;
        for (unsigned i = 0; i < n; i++)
            r.push_back(memAt(ptr, i, at));
        return r;
    }
    std::string addr(const Lin& l);              // canonical name of an address
    std::string addr(const Value* v) { return addr(L.of(v)); }
    std::string value(const Lin& l);             // canonical name of a number
    std::string value(const Value* v) { return value(L.of(v)); }
    std::string atom(const Value* v, int depth = 0);
    Lin lin(const Value* v) { return L.of(v); }
    LinCtx L;

private:
    Program& P;
    const Function* F;
    std::string fieldPath(const DIType* t, int64_t off);
    int mBudget = 0;
};
