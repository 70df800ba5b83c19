#include "sym.h"
#include "rules.h"
#include "rules_util.h"
#include "llvm/IR/Operator.h"

// innermost member names for an offset: "mSendRtp.key.v8" plus the remaining byte offset
std::string Sym::fieldPath(const DIType* t, int64_t off)
{
    std::string s;
    for (int i = 0; i < 8; i++) {
        t = Program::strip(t);
        auto* c = dyn_cast_or_null<DICompositeType>(t);
        if (!c || off < 0)
            break;
        if (c->getTag() == dwarf::DW_TAG_array_type)
            break;
        const DIDerivedType* best = nullptr;
        for (auto* e : c->getElements()) {
            auto* d = dyn_cast_or_null<DIDerivedType>(e);
            if (!d || (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) || d->isStaticMember())
                continue;
            int64_t o = d->getOffsetInBits() / 8, sz = d->getSizeInBits() / 8;
            if (!sz && d->getBaseType())
                sz = d->getBaseType()->getSizeInBits() / 8;
            if (off >= o && off < o + sz)
                best = d;
        }
        if (!best)
            break;
        off -= best->getOffsetInBits() / 8;
        if (best->getTag() == dwarf::DW_TAG_member)
            s += "." + best->getName().str();
        t = best->getBaseType();
    }
    if (off)
        s += "+" + std::to_string(off);
    return s;
}

std::string Sym::atom(const Value* v, int depth)
{
    if (depth > 8)
        return "?";
    if (auto* a = dyn_cast<Argument>(v))
        return "arg" + std::to_string(a->getArgNo());
    if (auto* a = dyn_cast<AllocaInst>(v)) {
        // ordinal of the local in the function, names are not canonical
        int n = 0;
        for (auto& i : instructions(a->getFunction())) {
            if (&i == a)
                break;
            if (isa<AllocaInst>(i))
                n++;
        }
        return "local" + std::to_string(n);
    }
    if (auto* g = dyn_cast<GlobalValue>(v))
        return "@" + g->getName().str();
    if (auto* l = dyn_cast<LoadInst>(v))
        return "*" + addr(L.of(l->getPointerOperand()));
    if (auto* cb = dyn_cast<CallBase>(v)) {
        if (auto* t = cb->getCalledFunction()) {
            auto n = P.name(t);
            if (cb->arg_size() == 1 && (endsWith(n, "::size") || endsWith(n, "::data")))
                return atom(cb->getArgOperand(0)->stripPointerCasts(), depth + 1) + (endsWith(n, "::size") ? ".size" : ".data");
            return n + "()";
        }
        return "call()";
    }
    if (auto* g = dyn_cast<GEPOperator>(v))
        return addr(L.of(g));
    return "?" + std::to_string(reinterpret_cast<uintptr_t>(v));
}

std::string Sym::addr(const Lin& l)
{
    const Value* base = nullptr;
    for (auto& [k, c] : l.t)
        if (k->getType()->isPointerTy() && c == 1)
            base = k;
    std::string s;
    if (!base)
        return value(l);
    s = atom(base);
    Lin rest = l;
    rest.t.erase(base);
    auto* pt = P.pointee(base);
    if (rest.isConst()) {
        if (pt && isa<DICompositeType>(Program::strip(pt)))
            return s + fieldPath(pt, rest.c);
        return rest.c ? s + "+" + std::to_string(rest.c) : s;
    }
    return s + "+" + value(rest);
}

std::string Sym::value(const Lin& l)
{
    std::vector<std::string> parts;
    for (auto& [k, c] : l.t)
        parts.push_back((c == 1 ? "" : std::to_string(c) + "*") + atom(k));
    std::sort(parts.begin(), parts.end());
    std::string s;
    for (auto& p : parts)
        s += (s.empty() ? "" : "+") + p;
    if (l.c || s.empty())
        s += (s.empty() || l.c < 0 ? "" : "+") + std::to_string(l.c);
    return s;
}

static std::string hexb(unsigned b)
{
    char t[8];
    snprintf(t, sizeof t, "0x%02x", b & 255);
    return t;
}

std::string Sym::byteOf(const Value* v, unsigned k, int depth)
{
    if (depth > 40)
        return "?";
    auto* ty = v->getType();
    unsigned w = ty->isIntegerTy() ? (ty->getIntegerBitWidth() + 7) / 8 : 8;
    if (k >= w)
        return "0x00";
    if (auto* c = dyn_cast<ConstantInt>(v))
        return hexb(c->getValue().lshr(k * 8).getLoBits(std::min(8u, c->getBitWidth())).getZExtValue());
    if (isa<UndefValue>(v))
        return "undef";
    if (auto* c = dyn_cast<CastInst>(v)) {
        if (isa<TruncInst>(c) || isa<ZExtInst>(c))
            return byteOf(c->getOperand(0), k, depth + 1);
        if (isa<SExtInst>(c)) {
            unsigned ow = (c->getOperand(0)->getType()->getIntegerBitWidth() + 7) / 8;
            return k < ow ? byteOf(c->getOperand(0), k, depth + 1) : "?";
        }
    }
    if (auto* fz = dyn_cast<FreezeInst>(v))
        return byteOf(fz->getOperand(0), k, depth + 1);
    if (auto* ii = dyn_cast<IntrinsicInst>(v)) {
        switch (ii->getIntrinsicID()) {
        case Intrinsic::bswap:
            return byteOf(ii->getArgOperand(0), w - 1 - k, depth + 1);
        case Intrinsic::fshl:
            if (auto* c = dyn_cast<ConstantInt>(ii->getArgOperand(2)); c && c->getZExtValue() % 8 == 0 && ii->getArgOperand(0) == ii->getArgOperand(1)) {
                unsigned m = (c->getZExtValue() / 8) % w;
                return byteOf(ii->getArgOperand(0), (k + w - m) % w, depth + 1);
            }
            break;
        default:
            break;
        }
    }
    if (auto* b = dyn_cast<BinaryOperator>(v)) {
        auto* c = dyn_cast<ConstantInt>(b->getOperand(1));
        switch (b->getOpcode()) {
        case Instruction::LShr:
            if (c && c->getZExtValue() % 8 == 0)
                return byteOf(b->getOperand(0), k + c->getZExtValue() / 8, depth + 1);
            break;
        case Instruction::Shl:
            if (c && c->getZExtValue() % 8 == 0) {
                unsigned m = c->getZExtValue() / 8;
                return k < m ? "0x00" : byteOf(b->getOperand(0), k - m, depth + 1);
            }
            break;
        case Instruction::And:
        case Instruction::Or:
        case Instruction::Xor: {
            auto x = byteOf(b->getOperand(0), k, depth + 1), y = byteOf(b->getOperand(1), k, depth + 1);
            if (startsWith(x, "0x"))
                std::swap(x, y);
            auto op = b->getOpcode();
            if (startsWith(y, "0x") && startsWith(x, "0x")) {
                unsigned p = strtoul(x.c_str(), nullptr, 16), q = strtoul(y.c_str(), nullptr, 16);
                return hexb(op == Instruction::And ? p & q : op == Instruction::Or ? p | q : p ^ q);
            }
            if (op == Instruction::And) {
                if (y == "0x00")
                    return y;
                if (y == "0xff" || x == y)
                    return x;
            } else {
                if (y == "0x00")
                    return x;
                if (op == Instruction::Or && (y == "0xff" || x == y))
                    return y == "0xff" ? y : x;
            }
            if (!startsWith(y, "0x") && y < x)
                std::swap(x, y);
            return std::string(op == Instruction::And ? "and" : op == Instruction::Or ? "or" : "xor") + "(" + x + "," + y + ")";
        }
        case Instruction::Add: {
            // adding a constant that only touches other bytes, or disjoint bytes
            auto x = byteOf(b->getOperand(0), k, depth + 1), y = byteOf(b->getOperand(1), k, depth + 1);
            bool disjoint = true;
            for (unsigned j = 0; j < w && disjoint; j++) {
                auto p = byteOf(b->getOperand(0), j, depth + 1), q = byteOf(b->getOperand(1), j, depth + 1);
                disjoint = p == "0x00" || q == "0x00";
            }
            if (disjoint)
                return x == "0x00" ? y : x;
            break;
        }
        default:
            break;
        }
    }
    if (auto* l = dyn_cast<LoadInst>(v))
        return memAt(l->getPointerOperand(), k, l, depth + 1);
    if (auto* s = dyn_cast<SelectInst>(v)) {
        auto x = byteOf(s->getTrueValue(), k, depth + 1), y = byteOf(s->getFalseValue(), k, depth + 1);
        return x == y ? x : "?";
    }
    if (auto* p = dyn_cast<PHINode>(v)) {
        std::string r;
        for (auto& in : p->incoming_values()) {
            if (in == p)
                continue;
            auto x = byteOf(in, k, depth + 8);
            if (!r.empty() && r != x)
                return atom(v) + "[" + std::to_string(k) + "]";
            r = x;
        }
        return r;
    }
    return value(v) + "[" + std::to_string(k) + "]";
}

std::string Sym::memAt(const Value* ptr, int64_t off, const Instruction* at, int depth)
{
    Lin a = L.of(ptr);
    a.c += off;
    const Value* base = nullptr;
    for (auto& [k, c] : a.t)
        if (k->getType()->isPointerTy() && c == 1)
            base = k;
    auto unresolved = [&] {
        return "mem[" + addr(a) + "]";
    };
    if (!base || !isa<AllocaInst>(base) || !(a - [&] { Lin z; z.t[base] = 1; return z; }()).isConst())
        return unresolved();
    if (depth > 40)
        return "?";
    int64_t want = a.c;
    // does this pointer (or one derived from it) reach the instruction as an argument
    auto refers = [&](const Value* v) {
        auto l = L.of(v);
        return l.t.count(base) != 0;
    };
    std::map<const BasicBlock*, std::string> memo;
    std::function<std::string(const BasicBlock*, BasicBlock::const_iterator, bool, int)> back;
    back = [&](const BasicBlock* bb, BasicBlock::const_iterator it, bool whole, int d) -> std::string {
        if (d > 200)
            return "?";
        if (whole) {
            auto m = memo.find(bb);
            if (m != memo.end())
                return m->second;
            memo[bb] = "";
        }
        auto done = [&](const std::string& r) {
            if (whole)
                memo[bb] = r;
            return r;
        };
        while (it != bb->begin()) {
            --it;
            auto* i = &*it;
            if (i == base)
                return done("undef");
            if (isa<DbgInfoIntrinsic>(i) || !i->mayWriteToMemory())
                continue;
            if (auto* ii = dyn_cast<IntrinsicInst>(i); ii && ii->isLifetimeStartOrEnd())
                continue;
            if (auto* st = dyn_cast<StoreInst>(i)) {
                Lin l = L.of(st->getPointerOperand());
                auto q = l.t.find(base);
                if (q == l.t.end())
                    continue; // another object
                l.t.erase(base);
                auto* ty = st->getValueOperand()->getType();
                int64_t sz = P.dl().getTypeStoreSize(ty);
                if (!l.isConst())
                    return done("?");
                if (want >= l.c && want < l.c + sz) {
                    if (ty->isIntegerTy() || ty->isPointerTy())
                        return done(byteOf(st->getValueOperand(), want - l.c, depth + 1));
                    if (auto* c = dyn_cast<Constant>(st->getValueOperand()); c && c->isNullValue())
                        return done("0x00");
                    if (auto* cv = dyn_cast<ConstantDataSequential>(st->getValueOperand())) {
                        unsigned es = cv->getElementByteSize();
                        return done(byteOf(cv->getElementAsConstant((want - l.c) / es), (want - l.c) % es, depth + 1));
                    }
                    return done("?");
                }
                continue;
            }
            if (auto* ms = dyn_cast<MemSetInst>(i)) {
                Lin l = L.of(ms->getDest());
                if (!l.t.count(base))
                    continue;
                l.t.erase(base);
                auto* n = dyn_cast<ConstantInt>(ms->getLength());
                if (!l.isConst() || !n)
                    return done("?");
                if (want >= l.c && want < l.c + int64_t(n->getZExtValue()))
                    return done(byteOf(ms->getValue(), 0, depth + 1));
                continue;
            }
            if (auto* mt = dyn_cast<MemTransferInst>(i)) {
                Lin l = L.of(mt->getDest());
                if (!l.t.count(base))
                    continue;
                l.t.erase(base);
                Lin n = L.of(mt->getLength());
                if (!l.isConst())
                    return done("?");
                if (want < l.c)
                    continue;
                if (!n.isConst())
                    return done("mem[" + addr(L.of(mt->getSource())) + (want - l.c ? "+" + std::to_string(want - l.c) : std::string()) + "]/" + value(n));
                if (want < l.c + n.c)
                    return done(memAt(mt->getSource(), want - l.c, mt, depth + 1));
                continue;
            }
            if (auto* cb = dyn_cast<CallBase>(i)) {
                bool hit = false;
                for (unsigned k = 0; k < cb->arg_size(); k++)
                    if (cb->getArgOperand(k)->getType()->isPointerTy() && refers(cb->getArgOperand(k)) && !cb->paramHasAttr(k, Attribute::ReadOnly))
                        hit = true;
                if (!hit)
                    continue;
                // filled by a library call: name the producer
                std::string n = cb->getCalledFunction() ? P.name(cb->getCalledFunction()) : "call";
                return done("out(" + n + ")");
            }
        }
        if (pred_empty(bb))
            return done("undef");
        std::string r;
        for (auto* pb : predecessors(bb)) {
            auto x = back(pb, pb->end(), true, d + 1);
            if (x.empty())
                continue; // loop
            if (!r.empty() && x != r)
                return done("?");
            r = x;
        }
        return done(r);
    };
    auto r = back(at->getParent(), at->getIterator(), false, 0);
    return r.empty() ? "?" : r;
}
