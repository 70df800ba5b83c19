// C11 comparisons, C13 key separation, C14 packet indices; and the coverage part of C05
#include "rules.h"
#include "rules_keys.h"
#include "rules_util.h"
#include "sym.h"
#include "llvm/Analysis/ValueTracking.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/Support/raw_ostream.h"

enum { P_CM80 = 1, P_CM32 = 2, P_GCM128 = 7, P_GCM256 = 8 };
static const int kProfiles[] = { P_CM80, P_CM32, P_GCM128, P_GCM256 };
static const char* profileName(int p) { return p == P_CM80 ? "AES128_CM_SHA1_80" : p == P_CM32 ? "AES128_CM_SHA1_32" : p == P_GCM128 ? "AEAD_AES_128_GCM" : "AEAD_AES_256_GCM"; }
static bool isGCM(int p) { return p == P_GCM128 || p == P_GCM256; }

const Function* findFn(Program& p, const std::string& name)
{
    for (auto* f : p.funcs)
        if (p.name(f) == name)
            return f;
    return nullptr;
}

// every acyclic path from one instruction to another: the instructions in between (cut at loops)
void pathsBetween(const Instruction* from, const Instruction* to, const std::function<void(const std::vector<const Instruction*>&)>& visit, int& budget)
{
    // only blocks that can still reach the target
    std::set<const BasicBlock*> can;
    std::vector<const BasicBlock*> w{ to->getParent() };
    while (!w.empty()) {
        auto* b = w.back();
        w.pop_back();
        if (!can.insert(b).second)
            continue;
        for (auto* q : predecessors(b))
            w.push_back(q);
    }
    std::vector<const Instruction*> path;
    std::set<const BasicBlock*> on;
    // conditions decided earlier on the path are not decided differently later
    std::vector<std::pair<const Value*, bool>> taken;
    auto canonical = [](const Value* v) {
        bool neg = false;
        for (;;) {
            if (auto* b = dyn_cast<BinaryOperator>(v); b && b->getOpcode() == Instruction::Xor && isa<ConstantInt>(b->getOperand(1)) && cast<ConstantInt>(b->getOperand(1))->isOne() && b->getType()->isIntegerTy(1)) {
                neg = !neg;
                v = b->getOperand(0);
            } else if (auto* f = dyn_cast<FreezeInst>(v))
                v = f->getOperand(0);
            else
                return std::make_pair(v, neg);
        }
    };
    std::function<void(const BasicBlock*, BasicBlock::const_iterator)> go = [&](const BasicBlock* b, BasicBlock::const_iterator it) {
        if (budget <= 0)
            return;
        size_t keep = path.size();
        for (; it != b->end(); ++it) {
            if (&*it == to) {
                budget--;
                visit(path);
                path.resize(keep);
                return;
            }
            path.push_back(&*it);
        }
        on.insert(b);
        auto* br = dyn_cast<BranchInst>(b->getTerminator());
        bool cond = br && br->isConditional() && br->getSuccessor(0) != br->getSuccessor(1);
        for (unsigned k = 0; k < b->getTerminator()->getNumSuccessors(); k++) {
            auto* s = b->getTerminator()->getSuccessor(k);
            if (!can.count(s) || on.count(s))
                continue;
            if (cond) {
                auto [c, neg] = canonical(br->getCondition());
                bool val = (k == 0) != neg, clash = false;
                for (auto& [c2, v2] : taken)
                    clash = clash || (v2 != val && (c2 == c || (isa<ICmpInst>(c) && isa<ICmpInst>(c2) && cast<Instruction>(c)->isIdenticalTo(cast<Instruction>(c2)) && !isa<PHINode>(cast<Instruction>(c)->getOperand(0)))));
                if (clash)
                    continue;
                taken.push_back({ c, val });
                go(s, s->begin());
                taken.pop_back();
            } else
                go(s, s->begin());
        }
        on.erase(b);
        path.resize(keep);
    };
    go(from->getParent(), std::next(from->getIterator()));
}

struct CryptoFn {
    const char* name;
    bool send, control;
    const char* vec; // field holding key, auth and salt
};
static const CryptoFn kCryptoFns[] = {
    { "srtc::SrtpCrypto::protectSendMedia", true, false, "mSendRtp" },
    { "srtc::SrtpCrypto::unprotectReceiveMedia", false, false, "mReceiveRtp" },
    { "srtc::SrtpCrypto::protectSendControl", true, true, "mSendRtcp" },
    { "srtc::SrtpCrypto::unprotectReceiveControl", false, true, "mReceiveRtcp" },
};

static std::vector<const CallBase*> callsOf(const Function* f, std::initializer_list<const char*> names)
{
    std::vector<const CallBase*> r;
    for (auto& i : instructions(f))
        if (auto* cb = asCall(&i)) {
            auto c = callee(cb);
            for (auto* n : names)
                if (c == n)
                    r.push_back(cb);
        }
    return r;
}

int64_t memberOffset(const DICompositeType* c, const char* name)
{
    if (c)
        for (auto* e : c->getElements())
            if (auto* d = dyn_cast_or_null<DIDerivedType>(e); d && d->getName() == name)
                return d->getOffsetInBits() / 8;
    return 0;
}

static bool isMacProducer(const std::string& n)
{
    return n == "srtc::HmacSha1::final" || n == "stun::stun_sha1";
}

// decisions taken on the bytes of a computed authentication value held in a local
static void decisionsOn(Program& p, Sym& s, Function* f, const std::set<const Value*>& macs, std::map<const Value*, int64_t>& macBase, int64_t size,
    const std::function<void(const Instruction*, const std::string&)>& bad, const std::function<void(const Instruction*)>& good)
{
        auto macOf = [&](const Value* v, int64_t& off) -> const Value* {
            auto l = s.lin(v);
            for (auto& [k, c] : l.t)
                if (macs.count(k)) {
                    Lin z = l;
                    z.t.erase(k);
                    off = z.isConst() ? z.c - macBase[k] : -1;
                    return k;
                }
            return nullptr;
        };
        auto decides = [&](const Instruction* i) {
            for (auto* u : i->users())
                if (isa<ICmpInst>(u) || isa<BranchInst>(u) || isa<SelectInst>(u) || isa<ReturnInst>(u) || isa<BinaryOperator>(u) || isa<CastInst>(u) || isa<PHINode>(u))
                    return true;
            return false;
        };
        // bytes of the value combined so far
        std::map<const Value*, uint64_t> bytes;
        std::map<std::string, uint64_t> cells;
        {
            ReversePostOrderTraversal<Function*> rpo(f);
            for (auto* bb : rpo)
                for (auto& i : *bb) {
                    if (auto* l = dyn_cast<LoadInst>(&i)) {
                        int64_t off = 0;
                        if (macOf(l->getPointerOperand(), off)) {
                            uint64_t m = 0;
                            auto n = p.dl().getTypeStoreSize(l->getType()).getFixedValue();
                            if (off >= 0)
                                for (unsigned k = 0; k < n && off + k < 64; k++)
                                    m |= 1ull << (off + k);
                            else
                                m = 1ull << 63; // some byte
                            bytes[l] |= m;
                        } else if (isa<AllocaInst>(getUnderlyingObject(l->getPointerOperand())))
                            if (auto c = cells.find(s.addr(l->getPointerOperand())); c != cells.end())
                                bytes[l] |= c->second;
                    } else if (auto* st = dyn_cast<StoreInst>(&i)) {
                        if (isa<AllocaInst>(getUnderlyingObject(st->getPointerOperand()))) {
                            auto b = bytes.find(st->getValueOperand());
                            auto key = s.addr(st->getPointerOperand());
                            if (b != bytes.end())
                                cells[key] = b->second;
                            else if (isa<Constant>(st->getValueOperand()))
                                cells.erase(key);
                        }
                    } else if (isa<BinaryOperator>(&i) || isa<CastInst>(&i) || isa<PHINode>(&i) || isa<SelectInst>(&i) || isa<FreezeInst>(&i)) {
                        uint64_t m = 0;
                        for (auto& op : i.operands())
                            if (auto b = bytes.find(op); b != bytes.end())
                                m |= b->second;
                        if (m)
                            bytes[&i] |= m;
                    }
                }
        }
        const uint64_t full = (1ull << size) - 1;
        for (auto& i : instructions(f)) {
            if (auto* c = dyn_cast<ICmpInst>(&i)) {
                uint64_t m = 0;
                for (auto& op : c->operands())
                    if (auto b = bytes.find(op); b != bytes.end())
                        m |= b->second;
                if (!m)
                    continue;
                if ((m & full) == full)
                    good(c);
                else
                    bad(c, "a decision is taken on part of the authentication value");
                continue;
            }
            auto* cb = asCall(&i);
            if (!cb || isa<IntrinsicInst>(cb))
                continue;
            int64_t off = 0, off2 = 0;
            const Value* m = nullptr;
            unsigned at = 0;
            for (unsigned k = 0; k < cb->arg_size() && !m; k++)
                if (cb->getArgOperand(k)->getType()->isPointerTy() && (m = macOf(cb->getArgOperand(k), off)))
                    at = k;
            if (!m)
                continue;
            auto n = callee(cb);
            auto target = cb->getCalledFunction() ? p.name(cb->getCalledFunction()) : std::string("?");
            if (n == "CRYPTO_memcmp") {
                auto l = s.lin(cb->getArgOperand(2));
                auto* other = macOf(cb->getArgOperand(1 - at), off2);
                if (!l.isConst() || l.c != size || off != 0)
                    bad(cb, "the comparison covers " + s.value(l) + " bytes from offset " + std::to_string(off) + " instead of all " + std::to_string(size));
                else if (other == m)
                    bad(cb, "the authentication value is compared with itself");
                else
                    good(cb);
            } else if (!contains(target, "EVP_MAC") && !isMacProducer(target) && decides(cb) && !cb->getType()->isVoidTy() && !cb->getType()->isPointerTy() && !startsWith(target, "srtc::ByteWriter"))
                bad(cb, "the authentication value is compared with " + target + ", which does not run in constant time");
        }
}

// the literal behind a pointer: a constant string, or the data() of a std::string initialised with one
static std::string stringOf(Program& p, Sym& s, const Value* v, const Instruction* at)
{
    auto lit = [](const Value* q) -> std::string {
        StringRef t;
        return getConstantStringInfo(q, t) ? t.str() : std::string();
    };
    if (auto x = lit(v); !x.empty())
        return x;
    auto* cb = dyn_cast<CallBase>(v->stripPointerCasts());
    if (cb && cb->arg_size() == 1) {
        auto o = s.lin(cb->getArgOperand(0));
        for (auto& i : instructions(at->getFunction()))
            if (auto* k = asCall(&i); k && k->arg_size() >= 2 && k->getArgOperand(0)->getType()->isPointerTy() && s.lin(k->getArgOperand(0)) == o)
                if (auto x = lit(k->getArgOperand(1)); !x.empty())
                    return x;
    }
    return "?";
}

struct SrtpUse {
    Program& p;
    Report& r;
    std::set<std::string> want; // which rules: key, iv, cover, compare
    const CryptoFn* cf = nullptr;
    int profile = 0;
    Function* f = nullptr;
    std::unique_ptr<Sym> s;
    std::map<std::string, std::string>* keyUse = nullptr; // function:kind -> field used

    std::string who() { return std::string(cf->name) + " with " + profileName(profile); }
    void check(const char* kind, const std::string& rule, const Instruction* at, bool ok, const std::string& why)
    {
        if (!want.count(kind))
            return;
        r.obligation(ok);
        r.site(rule, Program::loc(at) + " " + who());
        if (!ok)
            r.viol(rule, Program::loc(at), cf->name, std::string(profileName(profile)) + ": " + why);
    }
    std::string tagSizeValue() const { return ""; }
    unsigned tag() const { return isGCM(profile) ? 16 : cf->control || profile == P_CM80 ? 10 : 4; }
    std::string packet(const std::string& rest = "") { return "arg1.data" + rest; }
    // address of the byte `fromEnd` before the end of the packet
    std::string fromEnd(int64_t n) { return "arg1.data+arg1.size" + (n ? "-" + std::to_string(n) : std::string()); }
    std::string plus(const std::string& a, int64_t n) { return n ? a + "+" + std::to_string(n) : a; }
    std::string xorS(std::string x, std::string y)
    {
        if (x == "0x00")
            return y;
        if (y < x)
            std::swap(x, y);
        return "xor(" + x + "," + y + ")";
    }

    void iv(const CallBase* init)
    {
        unsigned n = isGCM(profile) ? 12 : 16;
        auto got = s->memRange(init->getArgOperand(4), n, init);
        std::vector<std::string> base(n, "0x00");
        int ssrcAt = isGCM(profile) ? 2 : 4;
        for (int i = 0; i < 4; i++)
            base[ssrcAt + i] = "mem[" + plus(packet(), (cf->control ? 4 : 8) + i) + "]";
        int at = isGCM(profile) ? (cf->control ? 8 : 6) : (cf->control ? 10 : 8);
        if (!cf->control) {
            for (int i = 0; i < 4; i++)
                base[at + i] = "arg2[" + std::to_string(3 - i) + "]";
            base[at + 4] = "mem[" + packet("+2") + "]";
            base[at + 5] = "mem[" + packet("+3") + "]";
        } else
            for (int i = 0; i < 4; i++) {
                if (cf->send)
                    base[at + i] = "arg2[" + std::to_string(3 - i) + "]";
                else {
                    auto m = "mem[" + fromEnd((isGCM(profile) ? 0 : tag()) + 4 - i) + "]";
                    base[at + i] = i ? m : "and(" + m + ",0x7f)";
                }
            }
        std::string salt = std::string("arg0.") + cf->vec + ".salt.v8";
        std::string bad;
        for (unsigned i = 0; i < n; i++) {
            auto sb = "mem[" + plus(salt, i) + "]";
            auto exp = xorS(base[i], sb);
            bool ok = got[i] == exp || (base[i] == "0x00" && !isGCM(profile) && i >= 14 && got[i] == "0x00");
            if (cf->send && cf->control && i == unsigned(at)) // the top bit of the index is never used
                ok = ok || got[i] == xorS("and(" + base[i] + ",0x7f)", sb);
            if (!ok && bad.empty())
                bad = "initialisation vector byte " + std::to_string(i) + " is " + got[i] + ", expected " + exp;
        }
        check("iv", "the initialisation vector contains the whole SSRC and packet index, combined with the salt of this direction", init, bad.empty(), bad);
        // salt alone, for key separation
        std::string wrong;
        for (unsigned i = 0; i < 12; i++)
            if (!contains(got[i], ("mem[" + plus(salt, i) + "]").c_str()))
                wrong = "byte " + std::to_string(i) + " of the initialisation vector is " + got[i] + ", which is not combined with " + salt;
        check("key", "each direction and packet kind uses only its own key, authentication key and salt", init, wrong.empty(), wrong);
    }

    // do the segments add up to [from, to)
    bool cover(std::vector<std::pair<Lin, Lin>> segs, Lin from, const Lin& to)
    {
        for (size_t guard = 0; guard < 20; guard++) {
            if (from == to)
                return true;
            bool f = false;
            for (size_t i = 0; i < segs.size(); i++)
                if (segs[i].first == from) {
                    from = from + segs[i].second;
                    segs.erase(segs.begin() + i);
                    f = true;
                    break;
                }
            if (!f)
                return false;
        }
        return false;
    }

    void run()
    {
        auto* f0 = findFn(p, cf->name);
        if (!f0) {
            r.errors.push_back(std::string(cf->name) + " not found");
            return;
        }
        Program::SpecOpts o;
        o.unroll = true;
        o.keep = [&](const Function* g) { auto n = p.name(g); return startsWith(n, "srtc::ByteBuffer::") || n == "srtc::log"; };
        o.assume = [&](const Value* v) -> std::optional<int64_t> {
            auto* l = dyn_cast<LoadInst>(v);
            if (l && p.field(l->getPointerOperand()).name == "mProfileId")
                return profile;
            return std::nullopt;
        };
        f = p.specialise(f0, o);
        s = std::make_unique<Sym>(p, f);
        const CallBase* ctxKeyed = nullptr;
        auto inits = callsOf(f, { "EVP_EncryptInit_ex", "EVP_DecryptInit_ex", "EVP_CipherInit_ex" });
        int keyed = 0;
        std::string vecPath = std::string("arg0.") + cf->vec;
        for (auto* c : inits) {
            if (isa<ConstantPointerNull>(c->getArgOperand(3)))
                continue;
            keyed++;
            ctxKeyed = c;
            auto k = s->addr(c->getArgOperand(3));
            check("key", "each direction and packet kind uses only its own key, authentication key and salt", c, k == vecPath + ".key.v8", "the cipher is keyed with " + k + " instead of " + vecPath + ".key");
            iv(c);
        }
        if (!keyed)
            r.errors.push_back("no keyed cipher initialisation in " + who());
        auto packetData = [&]() -> std::optional<Lin> {
            for (auto& i : instructions(f))
                if (auto* cb = asCall(&i); cb && cb->getType()->isPointerTy() && cb->arg_size() == 1 && s->atom(cb) == "arg1.data")
                    return s->lin(cb);
            return std::nullopt;
        }();
        auto packetSize = [&]() -> std::optional<Lin> {
            for (auto& i : instructions(f))
                if (auto* cb = asCall(&i); cb && cb->getType()->isIntegerTy() && cb->arg_size() == 1 && s->atom(cb) == "arg1.size")
                    return s->lin(cb);
            return std::nullopt;
        }();
        if (!packetData || !packetSize) {
            r.errors.push_back("no packet access in " + who());
            return;
        }
        Lin D = *packetData, N = *packetSize;
        auto K = [](int64_t c) { Lin l; l.c = c; return l; };
        if (isGCM(profile)) {
            int trailer = cf->control ? 4 : 0;
            const char* rule = "the authentication tag is examined in full";
            auto ctl = callsOf(f, { "EVP_CIPHER_CTX_ctrl" });
            int tags = 0;
            for (auto* c : ctl) {
                auto* op = dyn_cast<ConstantInt>(c->getArgOperand(1));
                if (!op || (op->getZExtValue() != 0x11 && op->getZExtValue() != 0x10))
                    continue;
                tags++;
                auto* len = dyn_cast<ConstantInt>(c->getArgOperand(2));
                bool ok = len && len->getZExtValue() == 16;
                check("compare", rule, c, ok, "the tag length is " + (len ? std::to_string(len->getSExtValue()) : std::string("not constant")) + " instead of 16");
                if (op->getZExtValue() == 0x11) {
                    auto a = s->lin(c->getArgOperand(3));
                    check("compare", rule, c, a == D + N - K(16 + trailer), "the expected tag is read from " + s->addr(a) + " instead of " + fromEnd(16 + trailer));
                }
            }
            if (!tags)
                r.errors.push_back("no tag operation in " + who());
            if (!cf->send) {
                const char* rc = "the integrity check covers the whole packet";
                int n = 0, budget = 500;
                std::string bad;
                const Instruction* at = ctxKeyed;
                for (auto* fin : callsOf(f, { "EVP_DecryptFinal_ex", "EVP_CipherFinal_ex" }))
                    if (ctxKeyed)
                        pathsBetween(ctxKeyed, fin, [&](const std::vector<const Instruction*>& path) {
                            n++;
                            std::vector<std::pair<Lin, Lin>> segs;
                            for (auto* i : path)
                                if (calls(i, "EVP_DecryptUpdate") || calls(i, "EVP_CipherUpdate"))
                                    segs.push_back({ s->lin(cast<CallBase>(i)->getArgOperand(3)), s->lin(cast<CallBase>(i)->getArgOperand(4)) });
                            if (!cover(segs, D, D + N - K(16 + trailer)))
                                bad = "a path to " + Program::loc(fin) + " does not feed every byte in front of the tag to the cipher";
                            if (trailer && !cover(segs, D + N - K(4), D + N))
                                bad = "a path to " + Program::loc(fin) + " does not authenticate the SRTCP index";
                            at = fin;
                        }, budget);
                if (!n && want.count("cover"))
                    r.errors.push_back("no path from keying to verification in " + who());
                check("cover", rc, at, bad.empty(), bad);
            }
        } else {
            auto minits = callsOf(f, { "EVP_MAC_init" });
            auto fins = callsOf(f, { "EVP_MAC_final" });
            for (auto* c : minits) {
                auto k = s->addr(c->getArgOperand(1));
                auto n = s->value(c->getArgOperand(2));
                check("key", "each direction and packet kind uses only its own key, authentication key and salt", c, k == vecPath + ".auth.v8" && (n == "20" || n == "*" + vecPath + ".auth.mSize"), "the authentication code is keyed with " + k + " (" + n + " bytes) instead of " + vecPath + ".auth");
            }
            int n = 0, budget = 500;
            std::string bad;
            const Instruction* at = f->getEntryBlock().getTerminator();
            for (auto* mi : minits)
                for (auto* fin : fins)
                    pathsBetween(mi, fin, [&](const std::vector<const Instruction*>& path) {
                        n++;
                        at = fin;
                        std::vector<std::pair<Lin, Lin>> segs;
                        bool roc = false;
                        for (auto* i : path)
                            if (calls(i, "EVP_MAC_update")) {
                                auto* u = cast<CallBase>(i);
                                Lin a = s->lin(u->getArgOperand(1)), l = s->lin(u->getArgOperand(2));
                                segs.push_back({ a, l });
                                if (l.isConst() && l.c == 4) {
                                    auto b = s->memRange(u->getArgOperand(1), 4, u);
                                    roc = b == std::vector<std::string>{ "arg2[3]", "arg2[2]", "arg2[1]", "arg2[0]" };
                                }
                            }
                        if (!cf->send && !cover(segs, D, D + N - K(tag())))
                            bad = "a path to " + Program::loc(fin) + " does not authenticate every byte in front of the tag";
                        if (!cf->control && !roc)
                            bad = "a path to " + Program::loc(fin) + " does not authenticate the rollover counter";
                    }, budget);
            if (!n)
                r.errors.push_back("no authentication code is computed in " + who());
            check("cover", "the integrity check covers the whole packet", at, bad.empty(), bad);
            if (!cf->send) {
                // where the computed tag lives, and every use of it
                std::set<const Value*> macs;
                for (auto* fin : fins)
                    for (auto& [k, c] : s->lin(fin->getArgOperand(1)).t)
                        if (isa<AllocaInst>(k))
                            macs.insert(k);
                const char* rule = "the authentication tag is examined in full";
                int cmps = 0;
                for (auto& i : instructions(f)) {
                    auto* cb = asCall(&i);
                    if (!cb || callee(cb) != "CRYPTO_memcmp")
                        continue;
                    Lin a = s->lin(cb->getArgOperand(0)), b = s->lin(cb->getArgOperand(1)), l = s->lin(cb->getArgOperand(2));
                    auto isMac = [&](const Lin& x) { return x.c == 0 && x.t.size() == 1 && macs.count(x.t.begin()->first); };
                    if (isMac(b))
                        std::swap(a, b);
                    if (!isMac(a))
                        continue;
                    cmps++;
                    check("compare", rule, cb, l == K(tag()), "the comparison covers " + s->value(l) + " bytes instead of " + std::to_string(tag()));
                    check("compare", rule, cb, b == D + N - K(tag()), "the received tag is read from " + s->addr(b) + " instead of " + fromEnd(tag()));
                }
                std::map<const Value*, int64_t> macBase;
                for (auto* m : macs)
                    macBase[m] = 0;
                if (want.count("compare"))
                    decisionsOn(p, *s, f, macs, macBase, tag(),
                        [&](const Instruction* i, const std::string& why) { check("compare", rule, i, false, why); },
                        [&](const Instruction*) { cmps++; });
                if (!cmps && want.count("compare"))
                    check("compare", rule, fins.empty() ? at : fins[0], false, "the computed tag is not compared with a constant time primitive");
            }
        }
    }
};

static void srtpUse(Program& p, Report& r, std::set<std::string> want)
{
    for (auto& cf : kCryptoFns)
        for (int pr : kProfiles) {
            SrtpUse u{ p, r, want };
            u.cf = &cf;
            u.profile = pr;
            u.run();
        }
}
void srtpCoverage(Program& p, Report& r) { srtpUse(p, r, { "cover" }); }

// ----- key material: from the DTLS exporter to the four session key sets

static const char* kExport = "the exported keying material is split into client key, server key, client salt, server salt, and each side sends with its own part";
static const char* kDerive = "every session key is derived from the master key and salt of its direction with its own label";
static const char* kKdf = "the key derivation function combines the salt with the label and a block counter under the master key";

static bool keepBasics(Program& p, const Function* g)
{
    auto n = p.name(g);
    return startsWith(n, "srtc::ByteBuffer::") || n == "srtc::log" || startsWith(n, "srtc::Error") || n == "srtc::initOpenSSL";
}

// the exported block and its four parts
static void exportedKeys(Program& p, Report& r)
{
    auto* f0 = findFn(p, "srtc::SrtpConnection::create");
    if (!f0) {
        r.errors.push_back("srtc::SrtpConnection::create not found");
        return;
    }
    struct { int id; unsigned key, salt; } prof[] = { { P_CM80, 16, 14 }, { P_CM32, 16, 14 }, { P_GCM128, 16, 12 }, { P_GCM256, 32, 12 } };
    for (auto& pr : prof)
        for (int active = 0; active < 2; active++)
            for (int exported = 1; exported >= 0; exported--) {
                Program::SpecOpts o;
                o.unroll = true;
                o.arrayBounds = true;
                o.keep = [&](const Function* g) { return keepBasics(p, g) || p.name(g) == "srtc::SrtpCrypto::create"; };
                o.assume = [&](const Value* v) -> std::optional<int64_t> {
                    if (auto* a = dyn_cast<Argument>(v); a && a->getType()->isIntegerTy() && a->getType()->getIntegerBitWidth() <= 8)
                        return active;
                    if (auto* l = dyn_cast<LoadInst>(v)) {
                        APInt off(64, 0);
                        auto* b = l->getPointerOperand()->stripAndAccumulateConstantOffsets(p.dl(), off, true);
                        if (auto* cb = dyn_cast<CallBase>(b); cb && callee(cb) == "SSL_get_selected_srtp_profile" && off == 8)
                            return pr.id;
                    }
                    if (auto* cb = dyn_cast<CallBase>(v); !exported && cb && callee(cb) == "SSL_export_keying_material")
                        return 0;
                    return std::nullopt;
                };
                auto* f = p.specialise(f0, o);
                Sym s(p, f);
                auto ex = callsOf(f, { "SSL_export_keying_material" });
                const CallBase* cr = nullptr;
                for (auto& i : instructions(f))
                    if (auto* cb = asCall(&i); cb && cb->getCalledFunction() && p.name(cb->getCalledFunction()) == "srtc::SrtpCrypto::create")
                        cr = cb;
                auto what = std::string(profileName(pr.id)) + (active ? " as the DTLS server" : " as the DTLS client");
                if (!exported) {
                    bool ok = !cr;
                    r.obligation(ok);
                    if (!ok)
                        r.viol(kExport, Program::loc(cr), "srtc::SrtpConnection::create", what + ": keys are derived although the keying material could not be exported");
                    continue;
                }
                if (ex.size() != 1 || !cr) {
                    r.errors.push_back("SrtpConnection::create: no key export or no SrtpCrypto::create for " + what);
                    continue;
                }
                auto viol = [&](const Instruction* at, bool ok, const std::string& why) {
                    r.obligation(ok);
                    r.site(kExport, Program::loc(at) + " " + what);
                    if (!ok)
                        r.viol(kExport, Program::loc(at), "srtc::SrtpConnection::create", what + ": " + why);
                };
                Lin m = s.lin(ex[0]->getArgOperand(1));
                Lin n = s.lin(ex[0]->getArgOperand(2));
                viol(ex[0], n.isConst() && n.c == int64_t(2 * (pr.key + pr.salt)), "exports " + s.value(n) + " bytes");
                auto lit = stringOf(p, s, ex[0]->getArgOperand(3), ex[0]);
                viol(ex[0], lit == "EXTRACTOR-dtls_srtp", "the exporter label is '" + lit + "'");
                auto mat = [&](int64_t off) {
                    Lin a = m;
                    a.c += off;
                    return "mem[" + s.addr(a) + "]";
                };
                // arguments: profile, send key, send salt, receive key, receive salt (after a possible return slot)
                unsigned first = cr->arg_size() - 5;
                auto* pid = dyn_cast<ConstantInt>(cr->getArgOperand(first));
                viol(cr, pid && int64_t(pid->getZExtValue()) == pr.id, "the profile passed on is not the negotiated one");
                int64_t ck = 0, sk = pr.key, cs = 2 * pr.key, ss = 2 * pr.key + pr.salt;
                struct { const char* n; int64_t off; unsigned len; } want[4] = {
                    { "send master key", active ? sk : ck, pr.key }, { "send master salt", active ? ss : cs, pr.salt },
                    { "receive master key", active ? ck : sk, pr.key }, { "receive master salt", active ? cs : ss, pr.salt },
                };
                auto* dt = p.composite("srtc::CryptoBytes");
                int64_t vOff = memberOffset(dt, "v8"), szOff = memberOffset(dt, "mSize");
                for (int k = 0; k < 4; k++) {
                    auto* a = cr->getArgOperand(first + 1 + k);
                    std::string bad;
                    for (unsigned i = 0; i < want[k].len && bad.empty(); i++) {
                        auto g = s.memAt(a, vOff + i, cr);
                        if (g != mat(want[k].off + i))
                            bad = std::string("byte ") + std::to_string(i) + " of the " + want[k].n + " is " + g + " instead of byte " + std::to_string(want[k].off + i) + " of the exported material";
                    }
                    auto len = s.memAt(a, szOff, cr);
                    char hx[8];
                    snprintf(hx, sizeof hx, "0x%02x", want[k].len);
                    if (bad.empty() && len != hx)
                        bad = std::string("the ") + want[k].n + " has size " + len;
                    viol(cr, bad.empty(), bad);
                }
            }
}

// the role in the DTLS handshake agrees with the role used to split the keys
static void dtlsRole(Program& p, Report& r)
{
    const char* rule = "the DTLS role and the role used to split the keying material are the same";
    int uses = 0, passes = 0;
    for (auto* f0 : std::vector<Function*>(p.funcs)) {
        bool tls = false;
        for (auto& i : instructions(f0))
            if (calls(&i, "SSL_set_accept_state") || calls(&i, "SSL_accept") || calls(&i, "DTLS_server_method") || callTo(p, &i, [&](const Function* t) { return p.name(t) == "srtc::SrtpConnection::create"; }))
                tls = true;
        if (!tls)
            continue;
        for (int active = 0; active < 2; active++) {
            Program::SpecOpts o;
            o.keep = [&](const Function* g) { return p.name(g) != "srtc::SdpAnswer::isSetupActive"; };
            o.assume = [&](const Value* v) -> std::optional<int64_t> {
                if (auto* l = dyn_cast<LoadInst>(v); l && p.field(l->getPointerOperand()).name == "mIsSetupActive")
                    return active;
                if (auto* cb = dyn_cast<CallBase>(v); cb && cb->getCalledFunction() && p.name(cb->getCalledFunction()) == "srtc::SdpAnswer::isSetupActive")
                    return active;
                return std::nullopt;
            };
            auto* f = p.specialise(f0, o);
            auto bad = [&](const Instruction* at, const std::string& why) {
                r.viol(rule, Program::loc(at), p.name(f0), why);
            };
            for (auto& i : instructions(f)) {
                auto* cb = asCall(&i);
                if (!cb)
                    continue;
                auto c = callee(cb);
                if (c == "SSL_set_accept_state" || c == "SSL_accept" || c == "DTLS_server_method" || c == "SSL_connect" || c == "DTLS_client_method") {
                    bool server = c == "SSL_set_accept_state" || c == "SSL_accept" || c == "DTLS_server_method";
                    uses++;
                    r.obligation(server == bool(active));
                    r.site(rule, Program::loc(cb));
                    if (server != bool(active))
                        bad(cb, c + " is used when the remote side is " + (active ? "active" : "passive"));
                } else if (c == "SSL_set_connect_state" && active) {
                    // must be overridden before the handshake starts
                    int budget = 200;
                    for (auto* h : callsOf(f, { "SSL_do_handshake", "SSL_accept", "SSL_connect" }))
                        pathsBetween(cb, h, [&](const std::vector<const Instruction*>& path) {
                            bool over = callee(h) == "SSL_accept";
                            for (auto* q : path)
                                over = over || calls(q, "SSL_set_accept_state");
                            r.obligation(over);
                            if (!over)
                                bad(h, "the handshake runs as the client when the remote side is active");
                        }, budget);
                }
                if (auto* t = cb->getCalledFunction(); t && p.name(t) == "srtc::SrtpConnection::create") {
                    passes++;
                    auto* k = dyn_cast<ConstantInt>(cb->getArgOperand(cb->arg_size() - 1));
                    bool ok = k && k->getZExtValue() == unsigned(active);
                    r.obligation(ok);
                    r.site(rule, Program::loc(cb));
                    if (!ok)
                        bad(cb, "the keys are split with a role that is not the negotiated one");
                }
            }
        }
    }
    r.need("DTLS role selection", uses);
    r.need("SrtpConnection::create calls", passes);
}

static void derivedKeys(Program& p, Report& r)
{
    auto* f0 = findFn(p, "srtc::SrtpCrypto::create");
    if (!f0) {
        r.errors.push_back("srtc::SrtpCrypto::create not found");
        return;
    }
    auto isGen = [&](const Value* v) {
        auto* cb = dyn_cast<CallBase>(v);
        return cb && cb->getCalledFunction() && p.name(cb->getCalledFunction()) == "srtc::KeyDerivation::generate";
    };
    auto isMake = [&](const Instruction& i) {
        auto* cb = asCall(&i);
        if (!cb || !cb->getCalledFunction())
            return false;
        auto n = p.fullName(cb->getCalledFunction());
        return contains(n, "make_shared<srtc::SrtpCrypto") || contains(n, "SrtpCrypto::SrtpCrypto(");
    };
    auto spec = [&](int failing) {
        Program::SpecOpts o;
        o.unroll = true;
        o.keep = [&](const Function* g) { auto n = p.name(g); return keepBasics(p, g) || n == "srtc::KeyDerivation::generate" || n == "srtc::SrtpCrypto::SrtpCrypto"; };
        o.assume = [&, failing](const Value* v) -> std::optional<int64_t> {
            if (failing < 0 || !isGen(v))
                return std::nullopt;
            int n = 0;
            for (auto& i : instructions(cast<Instruction>(v)->getFunction())) {
                if (&i == v)
                    break;
                n += isGen(&i);
            }
            return n == failing ? std::optional<int64_t>(0) : std::nullopt;
        };
        return p.specialise(f0, o);
    };
    auto* f = spec(-1);
    Sym s(p, f);
    std::vector<const CallBase*> gens;
    const CallBase* make = nullptr;
    for (auto& i : instructions(f)) {
        if (isGen(&i))
            gens.push_back(cast<CallBase>(&i));
        if (isMake(i))
            make = cast<CallBase>(&i);
    }
    if (!make || gens.empty()) {
        r.errors.push_back("SrtpCrypto::create: no key derivation or no construction found");
        return;
    }
    unsigned shift = f->arg_size() - 5; // return slot
    auto arg = [&](int k) { return "arg" + std::to_string(shift + k); };
    auto isArg = [&](const Value* v, int k) { return s.lin(v) == s.lin(f->getArg(shift + k)); };
    auto* vec = p.composite("srtc::SrtpCrypto::CryptoVectors");
    int64_t offs[3] = { memberOffset(vec, "key"), memberOffset(vec, "auth"), memberOffset(vec, "salt") };
    const char* parts[3] = { "key", "auth", "salt" };
    const char* sets[4] = { "send RTP", "receive RTP", "send RTCP", "receive RTCP" };
    // constructor arguments: profile, send RTP, receive RTP, send RTCP, receive RTCP (the last four of the call)
    unsigned first = make->arg_size() - 4;
    for (int k = 0; k < 4; k++)
        for (int j = 0; j < 3; j++) {
            Lin a = s.lin(make->getArgOperand(first + k));
            // follow whole-object copies of locals
            for (int hops = 0; hops < 4; hops++) {
                bool moved = false;
                for (auto& i : instructions(f))
                    if (auto* mt = dyn_cast<MemTransferInst>(&i); mt && s.lin(mt->getDest()) == a && s.lin(mt->getLength()).isConst() && s.lin(mt->getLength()).c >= int64_t(vec->getSizeInBits() / 8)) {
                        a = s.lin(mt->getSource());
                        moved = true;
                        break;
                    }
                if (!moved)
                    break;
            }
            Lin out = a;
            out.c += offs[j];
            const CallBase* gen = nullptr;
            int n = 0;
            for (auto* g : gens)
                if (s.lin(g->getArgOperand(3)) == out) {
                    gen = g;
                    n++;
                }
            std::string what = std::string("the ") + sets[k] + " " + parts[j], bad;
            bool send = k % 2 == 0, rtcp = k >= 2;
            std::string mk = arg(send ? 1 : 3), ms = arg(send ? 2 : 4);
            if (n != 1)
                bad = what + " is derived " + std::to_string(n) + " times";
            else {
                auto* lb = dyn_cast<ConstantInt>(gen->getArgOperand(2));
                auto sz = s.value(gen->getArgOperand(4));
                auto wantSz = j == 1 ? std::string("20") : "*" + (j == 0 ? mk : ms) + ".mSize";
                if (!isArg(gen->getArgOperand(0), send ? 1 : 3) || !isArg(gen->getArgOperand(1), send ? 2 : 4))
                    bad = what + " is derived from the master key or salt of the other direction";
                else if (!lb || int(lb->getZExtValue()) != (rtcp ? 3 : 0) + j)
                    bad = what + " is derived with label " + (lb ? std::to_string(lb->getZExtValue()) : std::string("?"));
                else if (sz != wantSz)
                    bad = what + " is derived with length " + sz;
            }
            r.obligation(bad.empty());
            r.site(kDerive, Program::loc(gen ? gen : make) + " " + what);
            if (!bad.empty())
                r.viol(kDerive, Program::loc(gen ? gen : make), "srtc::SrtpCrypto::create", bad);
        }
    for (size_t k = 0; k < gens.size(); k++) {
        auto* g = spec(int(k));
        bool made = false;
        for (auto& i : instructions(g))
            made = made || isMake(i);
        r.obligation(!made);
        if (made)
            r.viol(kDerive, Program::loc(gens[k]), "srtc::SrtpCrypto::create", "an SRTP context is created although this derivation failed");
    }
    // the constructor puts each set where the packet functions look for it
    auto* c0 = findFn(p, "srtc::SrtpCrypto::SrtpCrypto");
    if (!c0) {
        r.errors.push_back("SrtpCrypto constructor not found");
        return;
    }
    Program::SpecOpts o;
    o.keep = [&](const Function* g) { return keepBasics(p, g) || contains(p.name(g), "HmacSha1"); };
    auto* c = p.specialise(c0, o);
    Sym cs(p, c);
    const char* fields[4] = { "mSendRtp", "mReceiveRtp", "mSendRtcp", "mReceiveRtcp" };
    std::map<std::string, std::set<std::string>> from;
    for (auto& i : instructions(c)) {
        const Value *d = nullptr, *q = nullptr;
        if (auto* mt = dyn_cast<MemTransferInst>(&i))
            d = mt->getDest(), q = mt->getSource();
        else if (auto* st = dyn_cast<StoreInst>(&i); st && isa<LoadInst>(st->getValueOperand()))
            d = st->getPointerOperand(), q = cast<LoadInst>(st->getValueOperand())->getPointerOperand();
        else if (auto* cb = asCall(&i); cb && cb->arg_size() == 2 && cb->getArgOperand(0)->getType()->isPointerTy() && cb->getArgOperand(1)->getType()->isPointerTy())
            d = cb->getArgOperand(0), q = cb->getArgOperand(1); // a copy constructor or assignment
        if (!d)
            continue;
        auto da = cs.addr(d), qa = cs.addr(q);
        for (int k = 0; k < 4; k++)
            if (startsWith(da, (std::string("arg0.") + fields[k]).c_str()) && startsWith(qa, "arg"))
                from[fields[k]].insert(qa.substr(0, qa.find_first_of(".+")));
    }
    for (int k = 0; k < 4; k++) {
        auto& g = from[fields[k]];
        bool ok = g == std::set<std::string>{ "arg" + std::to_string(k + 2) };
        r.obligation(ok);
        if (!ok)
            r.viol(kDerive, Program::loc(c0), "srtc::SrtpCrypto::SrtpCrypto", std::string(fields[k]) + " is not initialised with the " + sets[k] + " keys");
    }
}

static void kdf(Program& p, Report& r)
{
    auto* f0 = findFn(p, "srtc::KeyDerivation::generate");
    if (!f0) {
        r.errors.push_back("srtc::KeyDerivation::generate not found");
        return;
    }
    struct { unsigned key, salt, label, n; } cases[] = {
        { 16, 14, 0, 16 }, { 16, 14, 1, 20 }, { 16, 14, 2, 14 }, { 16, 14, 3, 16 }, { 16, 14, 4, 20 }, { 16, 14, 5, 14 },
        { 16, 12, 0, 16 }, { 16, 12, 1, 20 }, { 16, 12, 2, 12 }, { 16, 12, 3, 16 }, { 16, 12, 4, 20 }, { 16, 12, 5, 12 },
        { 32, 12, 0, 32 }, { 32, 12, 1, 20 }, { 32, 12, 2, 12 }, { 32, 12, 3, 32 }, { 32, 12, 4, 20 }, { 32, 12, 5, 12 },
    };
    for (auto& c : cases) {
        Program::SpecOpts o;
        o.unroll = true;
        o.keep = [&](const Function* g) { return keepBasics(p, g); };
        o.assume = [&](const Value* v) -> std::optional<int64_t> {
            if (auto* a = dyn_cast<Argument>(v)) {
                if (a->getArgNo() == 2)
                    return c.label;
                if (a->getArgNo() == 4)
                    return c.n;
            }
            if (auto* l = dyn_cast<LoadInst>(v)) {
                APInt off(64, 0);
                auto* b = l->getPointerOperand()->stripAndAccumulateConstantOffsets(p.dl(), off, true);
                auto* a = dyn_cast<Argument>(b);
                if (a && a->getArgNo() < 2 && p.field(l->getPointerOperand()).name == "mSize")
                    return a->getArgNo() == 0 ? c.key : c.salt;
            }
            return std::nullopt;
        };
        // libcrypto neither keeps nor reaches the output object
        o.before = [&](Function& f) {
            for (auto& i : instructions(f))
                if (auto* cb = dyn_cast<CallBase>(&i)) {
                    auto n = callee(cb);
                    if (!startsWith(n, "EVP_"))
                        continue;
                    if (n == "EVP_CIPHER_CTX_new")
                        cb->addRetAttr(Attribute::NoAlias);
                    cb->setOnlyAccessesInaccessibleMemOrArgMem();
                    if (n == "EVP_EncryptInit_ex")
                        for (unsigned k = 1; k < 5; k++)
                            if (cb->getArgOperand(k)->getType()->isPointerTy())
                                cb->addParamAttr(k, Attribute::ReadOnly);
                    if (n == "EVP_EncryptUpdate")
                        cb->addParamAttr(3, Attribute::ReadOnly);
                }
        };
        auto* f = p.specialise(f0, o);
        Sym s(p, f);
        auto what = "AES-" + std::to_string(c.key * 8) + ", " + std::to_string(c.salt) + " byte salt, label " + std::to_string(c.label);
        auto check = [&](const Instruction* at, bool ok, const std::string& why) {
            r.obligation(ok);
            r.site(kKdf, Program::loc(at) + " " + what);
            if (!ok)
                r.viol(kKdf, Program::loc(at), "srtc::KeyDerivation::generate", what + ": " + why);
        };
        unsigned blocks = (c.n + 15) / 16, k = 0;
        for (auto* u : callsOf(f, { "EVP_EncryptInit_ex" })) {
            if (!isa<ConstantPointerNull>(u->getArgOperand(3)))
                check(u, s.addr(u->getArgOperand(3)) == "arg0.v8", "the cipher is keyed with " + s.addr(u->getArgOperand(3)));
            if (!isa<ConstantPointerNull>(u->getArgOperand(1))) {
                auto* cc = dyn_cast<CallBase>(u->getArgOperand(1));
                auto n = cc ? callee(cc) : "?";
                check(u, n == "EVP_aes_" + std::to_string(c.key * 8) + "_ecb", "the cipher is " + n);
            }
        }
        auto ups = callsOf(f, { "EVP_EncryptUpdate" });
        if (ups.empty())
            r.errors.push_back("KeyDerivation::generate: no cipher call for " + what);
        if (ups.size() != blocks) {
            check(ups.empty() ? f->getEntryBlock().getTerminator() : static_cast<const Instruction*>(ups[0]), ups.empty(), std::to_string(ups.size()) + " blocks are produced instead of " + std::to_string(blocks));
            continue;
        }
        for (auto* u : ups) {
            std::string bad;
            auto in = s.memRange(u->getArgOperand(3), 16, u);
            for (unsigned i = 0; i < 16; i++) {
                std::string want = i < c.salt ? "mem[arg1.v8" + (i ? "+" + std::to_string(i) : std::string()) + "]" : i == 15 && k ? "0x01" : "0x00";
                if (i == 7 && c.label)
                    want = "xor(" + want + ",0x0" + std::to_string(c.label) + ")";
                if (in[i] != want && bad.empty())
                    bad = "byte " + std::to_string(i) + " of block " + std::to_string(k) + " is " + in[i] + " instead of " + want;
            }
            auto* len = dyn_cast<ConstantInt>(u->getArgOperand(4));
            if (bad.empty() && (!len || len->getZExtValue() != 16))
                bad = "a block is not 16 bytes";
            check(u, bad.empty(), bad);
            k++;
        }
        // the output is the concatenation of the blocks
        std::map<int64_t, int64_t> got;
        bool raw = false;
        const Instruction* at = ups[0];
        for (auto& i : instructions(f)) {
            if (auto* mt = dyn_cast<MemTransferInst>(&i)) {
                auto d = s.lin(mt->getDest());
                auto n = s.lin(mt->getLength());
                if (d.t.size() == 1 && d.t.begin()->first == f->getArg(3) && n.isConst() && isa<AllocaInst>(getUnderlyingObject(mt->getSource())))
                    got[d.c] = std::max(got[d.c], n.c), at = mt;
            } else if (auto* st = dyn_cast<StoreInst>(&i)) {
                auto d = s.lin(st->getPointerOperand());
                if (d.t.size() == 1 && d.t.begin()->first == f->getArg(3)) {
                    auto b = s.byteOf(st->getValueOperand(), 0);
                    if (startsWith(b, "out("))
                        got[d.c] = std::max<int64_t>(got[d.c], p.dl().getTypeStoreSize(st->getValueOperand()->getType()));
                }
            }
        }
        for (auto* u : ups) // written in place
            if (auto d = s.lin(u->getArgOperand(1)); d.t.size() == 1 && d.t.begin()->first == f->getArg(3))
                got[d.c] = std::max<int64_t>(got[d.c], 16), raw = true;
        int64_t pos = memberOffset(p.composite("srtc::CryptoBytes"), "v8"), start = pos;
        while (got.count(pos) && got[pos] > 0)
            pos += got[pos];
        bool ok = raw ? pos - start >= int64_t(c.n) : pos - start == int64_t(c.n);
        check(at, ok, "the output consists of " + std::to_string(pos - start) + " contiguous bytes instead of " + std::to_string(c.n));
    }
}

// ----- C11: uses of computed authentication values

static int macOutArg(const std::string& n) { return contains(n, "stun_sha1") ? 3 : 1; }

// every decision taken on the bytes of a computed 20 byte authentication value
static void macUses(Program& p, Report& r)
{
    const char* rule = "a computed authentication value is compared in full and in constant time";
    // functions computing into a buffer of their own, looking through helpers
    std::set<const Function*> roots, seen;
    std::vector<const Function*> w;
    for (auto* f : p.funcs)
        if (isMacProducer(p.name(f)))
            w.push_back(f);
    int producers = 0;
    std::map<const Function*, int> outArg;
    for (auto* f : w)
        outArg[f] = macOutArg(p.name(f));
    while (!w.empty()) {
        auto* f = w.back();
        w.pop_back();
        if (!seen.insert(f).second)
            continue;
        for (auto* cb : p.callersOf(f)) {
            auto* g = cb->getFunction();
            if (isMacProducer(p.name(g)) || unsigned(outArg[f]) >= cb->arg_size())
                continue;
            producers++;
            auto* out = originOf(cb->getArgOperand(outArg[f]));
            if (auto* a = dyn_cast<Argument>(out); a && !startsWith(p.name(g), "srtc::SrtpCrypto::")) {
                outArg[const_cast<Function*>(g)] = a->getArgNo();
                w.push_back(g);
                roots.insert(g); // and the function itself
            } else
                roots.insert(g);
        }
    }
    r.need("authentication value computations", producers);
    int decided = 0;
    for (auto* f0 : roots) {
        if (startsWith(p.name(f0), "srtc::SrtpCrypto::"))
            continue; // decided per profile
        Program::SpecOpts o;
        o.unroll = true;
        o.keep = [&](const Function* g) { return keepBasics(p, g) || isMacProducer(p.name(g)) || startsWith(p.name(g), "srtc::HmacSha1::") || startsWith(p.name(g), "srtc::ByteWriter"); };
        auto* f = p.specialise(f0, o);
        Sym s(p, f);
        std::set<const Value*> macs;
        std::map<const Value*, int64_t> macBase;
        for (auto& i : instructions(f))
            if (auto* cb = asCall(&i); cb && cb->getCalledFunction() && isMacProducer(p.name(cb->getCalledFunction()))) {
                auto l = s.lin(cb->getArgOperand(macOutArg(p.name(cb->getCalledFunction()))));
                for (auto& [k, c] : l.t)
                    if (isa<AllocaInst>(k) && c == 1) {
                        macs.insert(k);
                        macBase[k] = l.c;
                    }
            }
        if (macs.empty())
            continue;
        auto bad = [&](const Instruction* at, const std::string& why) {
            r.obligation(false);
            r.viol(rule, Program::loc(at), p.name(f0), why);
        };
        auto good = [&](const Instruction* at) {
            decided++;
            r.obligation(true);
            r.site(rule, Program::loc(at) + " in " + p.name(f0));
        };
        decisionsOn(p, s, f, macs, macBase, 20, bad, good);
    }
    r.need("decisions on authentication values outside SRTP", decided);
}

// equality of buffers (the certificate fingerprint) looks at the sizes and at every byte
static void bufferEquality(Program& p, Report& r)
{
    const char* rule = "buffers are equal only if their sizes and all their bytes are";
    for (auto* nm : { "srtc::ByteBuffer::operator==", "srtc::ByteBuffer::operator!=" }) {
        auto* f0 = findFn(p, nm);
        if (!f0)
            continue;
        // with both sizes known and different the answer is fixed; with equal sizes the comparison covers all bytes
        for (int equal = 0; equal < 2; equal++) {
            Program::SpecOpts o;
            o.assume = [&](const Value* v) -> std::optional<int64_t> {
                auto* l = dyn_cast<LoadInst>(v);
                if (!l || p.field(l->getPointerOperand()).name != "mLen")
                    return std::nullopt;
                auto* a = dyn_cast<Argument>(getUnderlyingObject(l->getPointerOperand()));
                return a ? std::optional<int64_t>(a->getArgNo() == 0 ? 20 : equal ? 20 : 32) : std::nullopt;
            };
            auto* f = p.specialise(f0, o);
            Sym s(p, f);
            bool isNe = contains(nm, "!=");
            std::string bad;
            const Instruction* at = f->getEntryBlock().getTerminator();
            int cmps = 0;
            for (auto& i : instructions(f))
                if (auto* cb = asCall(&i); cb && (callee(cb) == "memcmp" || callee(cb) == "bcmp" || callee(cb) == "CRYPTO_memcmp")) {
                    cmps++;
                    at = cb;
                    auto l = s.lin(cb->getArgOperand(2));
                    std::set<std::string> sides{ s.addr(cb->getArgOperand(0)), s.addr(cb->getArgOperand(1)) };
                    if (!l.isConst() || l.c != 20)
                        bad = "the comparison covers " + s.value(l) + " bytes";
                    else if (sides != std::set<std::string>{ "*arg0.mBuf", "*arg1.mBuf" })
                        bad = "the comparison is between " + *sides.begin() + " and " + *sides.rbegin();
                }
            if (!equal) {
                bool fixed = true;
                for (auto& bb : *f)
                    if (auto* ret = dyn_cast<ReturnInst>(bb.getTerminator())) {
                        auto* k = dyn_cast<ConstantInt>(ret->getReturnValue());
                        fixed = fixed && k && k->isZero() != isNe;
                    }
                if (!fixed)
                    bad = "buffers of different sizes can compare as equal";
            } else if (!cmps && bad.empty())
                bad = "the bytes are not compared";
            r.obligation(bad.empty());
            r.site(rule, std::string(nm) + (equal ? " same size" : " different sizes"));
            if (!bad.empty())
                r.viol(rule, Program::loc(at), nm, bad);
        }
    }
}

static void ruleC11(Program& p, Report& r)
{
    srtpUse(p, r, { "compare" });
    macUses(p, r);
    bufferEquality(p, r);
}
static void ruleC13(Program& p, Report& r)
{
    exportedKeys(p, r);
    dtlsRole(p, r);
    derivedKeys(p, r);
    kdf(p, r);
    srtpUse(p, r, { "key" });
}
static void ruleC14(Program& p, Report& r)
{
    srtpUse(p, r, { "iv" });
    packetIndices(p, r);
}

void registerKeys(std::vector<Rule>& v)
{
    v.push_back({ "C11", "flow", ruleC11 });
    v.push_back({ "C13", "flow", ruleC13 });
    v.push_back({ "C14", "flow", ruleC14 });
}
