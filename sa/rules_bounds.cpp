// C01-C04: every raw access stays inside its buffer and no input ends the process.
#include "bounds.h"
#include "rules.h"
#include "rules_util.h"
#include "llvm/Support/raw_ostream.h"
#include <atomic>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace
{
bool anyOf(const std::string& s, std::initializer_list<const char*> l)
{
    for (auto* x : l)
        if (contains(s, x))
            return true;
    return false;
}
// which property the code of a file belongs to
std::string groupOfFile(const std::string& file)
{
    if (anyOf(file, { "src/stun/", "ice_agent", "src/socket", "srtc/socket" }))
        return "C03";
    if (anyOf(file, { "src/sctp/", "data_channel" }))
        return "C02";
    if (anyOf(file, { "packetizer" }) && !contains(file, "depacketizer"))
        return "C04";
    if (anyOf(file, { "codec_", "bit_reader", "h26x" }))
        return "C04";
    if (anyOf(file, { "rtp", "rtcp", "depacketizer", "jitter_buffer", "twcc", "extension", "peer_candidate", "replay", "byte_buffer" }))
        return "C01";
    return "";
}
// peer_candidate.cpp decodes and builds STUN messages and classifies datagrams as well
bool stunPart(Program& p, const Function* f)
{
    if (!contains(Program::file(f), "peer_candidate.cpp"))
        return false;
    auto n = p.name(f);
    return anyOf(n, { "stun", "Stun", "is_dtls_message", "is_rtc_message", "is_rtcp_message", "PeerCandidate::run" });
}
bool inGroupOf(Program& p, const Function* f, const std::string& prop)
{
    return contains(groupOfFile(Program::file(f)), prop.c_str()) || (prop == "C03" && stunPart(p, f));
}
// helpers that are always analysed inside their callers
bool reader(Program& p, const Function* f)
{
    auto n = p.name(f);
    return startsWith(n, "srtc::ByteReader::") || startsWith(n, "srtc::ByteWriter::") || startsWith(n, "srtc::BitReader::") || contains(n, "::check_read") || n == "stun::stun_message_init";
}

// what is outside of the property, or beyond this analysis: where (part of the file name), function, kind; listed in DESIGN.md
struct Outside {
    const char *prop, *file, *fn, *kind, *why, *from = "";
};
const Outside outside[] = {
    { "C01", "depacketizer_", "", "first or last element", "the jitter buffer hands over at least one packet" },
    { "C01", "depacketizer_opus", "", "element index", "the jitter buffer hands over at least one packet" },
    { "C01", "jitter_buffer", "", "", "the slots of the jitter buffer (contents decided by a circular index)" },
    { "C01", "pool_allocator", "", "", "no received data is involved" },
    { "C01", "srtp_util", "", "", "key material of fixed size, no received data" },
    { "C01", "replay_protection", "", "", "the bitmap has the constant size given at construction" },
    { "C01", "rtp_extension_builder", "", "", "extensions built for sending" },
    { "C01", "rtp_extension.cpp", "", "resize of a buffer", "a parser position never moves behind the data" },
    { "C01", "rtp_extension_source_twcc", "", "write", "the list of results is sized by the packet count of the feedback" },
    { "C01", "twcc_publish", "", "read (null)", "history slots" },
    { "C01", "srtp_crypto", "protectSend", "", "packets built for sending" },
    { "C01", "srtp_connection", "getControlSequenceNumber", "", "offset chosen by the caller from the negotiated profile" },
    { "C01", "peer_candidate", "dgram_", "", "buffer and length handed over by OpenSSL" },
    { "C01", "peer_candidate", "get_openssl_error", "", "text from OpenSSL" },
    { "C01", "peer_candidate", "sendNacks", "", "requests built for sending" },
    { "C01", "peer_candidate", "", "copy into a buffer", "STUN messages built for sending (C03)" },
    { "C01", "peer_candidate", "", "front of a buffer", "datagrams from the socket are not empty" },
    { "C01", "peer_candidate", "", "first or last element", "negotiated track list" },
    { "C01", "depacketizer_vp9", "", "append to a buffer", "remaining size computed by parsePayloadDescriptor, which is itself decided for C04" },
    { "C04", "codec_av1", "ObuParser::next", "length passed", "OBU size kept by parseImpl (decided where it is called from isKeyFrame)" },
    { "C03", "stun5389", "stun_fingerprint", "checksum input", "length field of a message built by the library itself", "finishMessage" },
    { "C03", "stun/utils", "stun_getw", "read: the size of the buffer", "length field of a message built by the library itself", "onReceivedStunMessage" },
    { "C03", "stun/utils", "stun_getw", "read", "length field of a message built by the library itself", "sendStunBinding" },
    { "C03", "peer_candidate", "", "copy into a buffer", "length field of a message built by the library itself" },
    { "C03", "peer_candidate", "", "first or last element", "negotiated track list" },
    { "C03", "peer_candidate", "", "front of a buffer", "datagrams from the socket are not empty" },
    { "C03", "stunmessage", "=stun::stun_message_append", "write: the access can end behind", "padding: message and buffer sizes are multiples of four" },
    { "C02", "sctp_session", "", "first or last element", "queue emptied only by its own loop" },
};

struct Driver {
    Program& p;
    std::string prop;
    std::map<std::string, int> left; // why -> number of obligations left undecided
    bool isOutside(const std::string& where, const std::string& fn, const std::string& what, const std::string& from)
    {
        if (prop.empty())
            return false;
        auto file = where.substr(0, where.find(':'));
        auto g = groupOfFile(file);
        if (!contains(g, prop.c_str()) && !(prop == "C01" && contains(file, "codec_")) && !(prop == "C03" && contains(file, "peer_candidate.cpp"))) {
            left["other part of the library"]++;
            return true;
        }
        for (auto& o : outside)
            if (prop == o.prop && contains(file, o.file) && (o.fn[0] == '=' ? fn == o.fn + 1 : contains(fn, o.fn)) && contains(from, o.from) && startsWith(what, o.kind)) {
                left[o.why]++;
                return true;
            }
        return false;
    }
    void filter(BoundsResult& r, const Function* f)
    {
        auto from = p.name(f);
        if (prop == "C03" && endsWith(from, "PeerCandidate::run"))
            for (auto it = r.failed.begin(); it != r.failed.end();)
                it = startsWith(it->what, "datagram") || startsWith(it->fn, "(anonymous namespace)::is_") ? std::next(it) : r.failed.erase(it);
        for (auto it = r.failed.begin(); it != r.failed.end();)
            it = isOutside(it->where, it->fn, it->what, from) ? r.failed.erase(it) : std::next(it);
    }
    std::set<const Function*> lifted;
    std::map<const Function*, int> height; // how many levels below are analysed inside this function
    std::map<std::string, ClassInv> inv;
    std::map<std::string, int64_t> fixedBuffers;
    std::set<const Function*> inTable; // virtual functions

    bool deep = false, deepAll = false;
    std::map<const Function*, std::set<std::string>> deepFiles; // the function's own file and those of its failures
    const Function* root = nullptr;
    // composes a STUN message of its own
    std::set<const Function*> builders;
    bool builder(const Function* f)
    {
        if (builders.empty()) {
            std::vector<const Function*> q;
            for (auto* g : p.funcs)
                if (startsWith(p.name(g), "stun::stun_message_append") || startsWith(p.name(g), "stun::stun_message_init"))
                    q.push_back(g);
            builders.insert(q.begin(), q.end());
            while (!q.empty()) {
                auto* g = q.back();
                q.pop_back();
                for (auto* cb : p.callersOf(g))
                    if (builders.insert(cb->getFunction()).second)
                        q.push_back(cb->getFunction());
            }
        }
        return builders.count(f);
    }
    bool inlined(const Function* f)
    {
        auto n = p.name(f);
        if (startsWith(n, "srtc::ByteBuffer::") || n == "stun::stun_crc32" || n == "stun::stun_message_append_software")
            return false;
        if (reader(p, f) || lifted.count(f) || f->getInstructionCount() <= 30)
            return true;
        if (deep && prop == "C03" && contains(Program::file(f), "peer_candidate.cpp") && builder(f))
            return false;
        if (deep && f->getInstructionCount() <= (contains(Program::file(f), "codec_vp") ? 700 : 400) && (deepFiles[root].count(Program::file(f)) || (deepAll && (inGroup(f) || contains(Program::file(f), "codec_")))))
            return true;
        return false;
    }
    BoundsOpts opts()
    {
        BoundsOpts o;
        o.inlineFn = [this](const Function* f) { return inlined(f); };
        o.ignore = [this](const Function* f) { return p.name(f) == "srtc::log"; };
        o.inv = &inv;
        o.immutable = &immutableFields;
        o.fixedBuffers = &fixedBuffers;
        o.paddedWalk = prop == "C03";
        o.minSize = [this](const Function* f, unsigned& an, int64_t& off, int64_t& least) {
            if (!anyOf(p.name(f), { "Stun", "stun" }) || !contains(Program::file(f), "peer_candidate.cpp"))
                return false;
            for (auto& a : f->args())
                if (a.getType()->isPointerTy() && p.pointeeName(&a) == "srtc::Socket::ReceivedData") {
                    an = a.getArgNo(), off = 0, least = 20;
                    if (auto* ct = p.composite("srtc::Socket::ReceivedData"))
                        for (auto* el : ct->getElements())
                            if (auto* d = dyn_cast_or_null<DIDerivedType>(el); d && d->getTag() == dwarf::DW_TAG_member && contains(Program::typeName(Program::strip(d->getBaseType())), "ByteBuffer"))
                                off = d->getOffsetInBits() / 8;
                    return true;
                }
            return false;
        };
        return o;
    }
    static bool isByte(const DIType* t)
    {
        t = Program::strip(t);
        auto* d = dyn_cast_or_null<DIDerivedType>(t);
        if (!d || d->getTag() != dwarf::DW_TAG_pointer_type)
            return false;
        auto* b = dyn_cast_or_null<DIBasicType>(Program::strip(d->getBaseType()));
        return b && b->getSizeInBits() == 8 && b->getEncoding() != dwarf::DW_ATE_boolean;
    }
    void findClasses()
    {
        DebugInfoFinder fi;
        fi.processModule(*p.mod);
        for (auto* t : fi.types()) {
            auto* c = dyn_cast<DICompositeType>(t);
            if (!c || c->isForwardDecl() || (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type))
                continue;
            auto n = Program::typeName(c);
            if (startsWith(n, "std::") || contains(n, "__gnu") || !c->getFile() || contains(c->getFile()->getFilename().str(), "/usr/") || contains(c->getFile()->getDirectory().str(), "/usr/") || contains(c->getFile()->getFilename().str(), "c++") || startsWith(n, "srtc::ByteBuffer"))
                continue;
            if (c->getFile()->getFilename().starts_with("/usr/"))
                continue;
            ClassInv ci;
            ci.cls = n;
            for (auto* el : c->getElements()) {
                auto* d = dyn_cast_or_null<DIDerivedType>(el);
                if (!d || d->getTag() != dwarf::DW_TAG_member || d->isStaticMember() || d->isBitField())
                    continue;
                auto* mt = Program::strip(d->getBaseType());
                int64_t off = d->getOffsetInBits() / 8;
                if (isByte(mt)) {
                    ci.mem.push_back({ d->getName().str(), off, 8, true });
                    continue;
                }
                auto* b = dyn_cast_or_null<DIBasicType>(mt);
                if (b && (b->getEncoding() == dwarf::DW_ATE_unsigned) && (b->getSizeInBits() == 64 || b->getSizeInBits() == 32))
                    ci.mem.push_back({ d->getName().str(), off, int(b->getSizeInBits() / 8), false });
            }
            bool any = false;
            for (size_t i = 0; i < ci.mem.size(); i++) {
                if (!ci.mem[i].ptr)
                    continue;
                // the size that follows directly, or, when none follows, the one in front of the pointer
                if (i + 1 < ci.mem.size() && !ci.mem[i + 1].ptr) {
                    ci.rel.push_back({ ClassInv::Rel::Ext, int(i), int(i + 1) });
                    any = true;
                    for (size_t j = i + 2; j < ci.mem.size() && !ci.mem[j].ptr; j++)
                        if (ci.mem[j].bytes == ci.mem[i + 1].bytes)
                            ci.rel.push_back({ ClassInv::Rel::Le, int(j), int(i + 1) });
                }
            }
            // a STUN message under construction or decoded has at least its header
            if (any && contains(n, "StunMessage"))
                for (size_t i = 0; i < ci.mem.size(); i++)
                    if (ci.mem[i].name == "buffer_len")
                        ci.rel.push_back({ ClassInv::Rel::Min, int(i), 20 });
            if (any && !inv.count(n))
                inv[n] = ci;
        }
    }
    void findBuffers()
    {
        std::set<std::string> bad;
        for (auto* f : p.funcs)
            for (auto& i : instructions(f)) {
                auto* st = dyn_cast<StoreInst>(&i);
                if (!st || !st->getValueOperand()->getType()->isPointerTy())
                    continue;
                auto fr = p.field(st->getPointerOperand());
                if (!fr)
                    continue;
                auto* v = st->getValueOperand();
                if (isa<ConstantPointerNull>(v))
                    continue;
                auto* cb = dyn_cast<CallBase>(v);
                auto* k = cb && cb->getCalledFunction() && cb->getCalledFunction()->getName() == "_Znam" ? dyn_cast<ConstantInt>(cb->getArgOperand(0)) : nullptr;
                if (!k) {
                    bad.insert(fr.str());
                    continue;
                }
                auto it = fixedBuffers.find(fr.str());
                if (it == fixedBuffers.end())
                    fixedBuffers[fr.str()] = k->getZExtValue();
                else
                    it->second = std::min<int64_t>(it->second, k->getZExtValue());
            }
        for (auto& b : bad)
            fixedBuffers.erase(b);
    }
    // members written by constructors only
    std::set<std::string> immutableFields;
    void findImmutable()
    {
        std::set<std::string> all, changed;
        std::set<std::string> copied; // classes whose objects are overwritten as a whole
        for (auto* f : p.funcs) {
            bool ctor = isCtor(p, f);
            auto cls = p.name(f);
            cls = cls.substr(0, std::max<size_t>(cls.rfind("::"), 0) == std::string::npos ? 0 : cls.rfind("::"));
            for (auto& i : instructions(f)) {
                if (auto* mc = dyn_cast<MemIntrinsic>(&i)) {
                    if (!ctor)
                        copied.insert(p.pointeeName(mc->getRawDest()));
                    continue;
                }
                auto* g = dyn_cast<GetElementPtrInst>(&i);
                if (!g)
                    continue;
                auto fr = p.field(g);
                if (!fr)
                    continue;
                all.insert(fr.str());
                for (auto* u : g->users()) {
                    if (isa<LoadInst>(u) || isa<GetElementPtrInst>(u))
                        continue;
                    auto* st = dyn_cast<StoreInst>(u);
                    if (st && st->getPointerOperand() == g && ctor && cls == fr.cls)
                        continue;
                    if (auto* ii = dyn_cast<IntrinsicInst>(u); ii && isa<DbgInfoIntrinsic>(ii))
                        continue;
                    changed.insert(fr.str());
                }
            }
        }
        for (auto& n : all)
            if (!changed.count(n) && !copied.count(n.substr(0, n.rfind("::"))))
                immutableFields.insert(n);
    }
    void prepare()
    {
        findImmutable();
        findClasses();
        findBuffers();
        for (auto& g : p.mod->globals())
            if (g.getName().starts_with("_ZTV") && g.hasInitializer()) {
                std::vector<const User*> q{ g.getInitializer() };
                std::set<const User*> seen;
                while (!q.empty()) {
                    auto* u = q.back();
                    q.pop_back();
                    if (!seen.insert(u).second)
                        continue;
                    for (auto& o : u->operands()) {
                        if (auto* f = dyn_cast<Function>(o->stripPointerCastsAndAliases()))
                            inTable.insert(f);
                        else if (auto* c = dyn_cast<Constant>(o.get()))
                            q.push_back(c);
                    }
                }
            }
    }
    std::function<bool(const Function*)> inGroup;
    bool liftable(const Function* f)
    {
        if (inTable.count(f) || p.addressTaken(f) || p.threadRoots.count(f) || p.callersOf(f).empty())
            return false;
        for (auto* cb : p.callersOf(f))
            if (!p.isProject(cb->getFunction()) || !inGroup(cb->getFunction()) || (prop == "C03" && endsWith(p.name(cb->getFunction()), "PeerCandidate::run")) || cb->getFunction() == f || cb->getCalledOperand()->stripPointerCastsAndAliases() != f)
                return false;
        return true;
    }
    // instructions of f with what is analysed inside it
    int64_t effective(const Function* f, int depth = 0)
    {
        int64_t n = f->getInstructionCount();
        if (depth < 12)
            for (auto& i : instructions(*f))
                if (auto* cb = dyn_cast<CallBase>(&i))
                    if (auto* t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()); t && t != f && !t->isDeclaration() && lifted.count(t))
                        n += effective(t, depth + 1);
        return n;
    }
    bool fits(const Function* f)
    {
        auto e = effective(f);
        for (auto* cb : p.callersOf(f))
            if (effective(cb->getFunction()) + e > maxEffective)
                return false;
        return true;
    }
    // functions of the STUN library nothing outside of it leads to
    std::set<const Function*> usedStun;
    bool unused(const Function* f)
    {
        if (!contains(Program::file(f), "src/stun/"))
            return false;
        if (usedStun.empty()) {
            std::vector<const Function*> q;
            for (auto* g : p.funcs)
                if (!contains(Program::file(g), "src/stun/"))
                    q.push_back(g);
            std::set<const Function*> seen(q.begin(), q.end());
            while (!q.empty()) {
                auto* g = q.back();
                q.pop_back();
                usedStun.insert(g);
                for (auto& i : instructions(*g))
                    for (auto& o : i.operands())
                        if (auto* t = dyn_cast<Function>(o->stripPointerCastsAndAliases()); t && !t->isDeclaration() && seen.insert(t).second)
                            q.push_back(t);
            }
        }
        return !usedStun.count(f);
    }
    int64_t maxEffective = getenv("SA_EFF") ? atoi(getenv("SA_EFF")) : 2500;
    BoundsResult one(const Function* f)
    {
        root = f;
        return boundsOf(p, f, opts());
    }
    // analyses the functions in parallel processes
    std::map<const Function*, BoundsResult> many(const std::vector<const Function*>& fs)
    {
        std::map<const Function*, BoundsResult> res;
        int procs = std::min<int>(8, fs.size());
        if (getenv("SA_SERIAL")) {
            for (auto* f : fs)
                filter(res[f] = one(f), f);
            return res;
        }
        auto* next = (std::atomic<int>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (next) std::atomic<int>(0);
        std::vector<std::pair<pid_t, int>> kids;
        outs().flush();
        for (int k = 0; k < procs; k++) {
            int fd[2];
            if (pipe(fd))
                abort();
            pid_t pid = fork();
            if (pid == 0) {
                close(fd[0]);
                for (;;) {
                    int i = next->fetch_add(1);
                    if (i >= (int)fs.size())
                        break;
                    auto t0 = clock();
                    auto r = one(fs[i]);
                    std::string o;
                    auto put = [&](const std::string& s) {
                        for (char c : s)
                            o += c == '\n' || c == '\t' ? ' ' : c;
                        o += '\t';
                    };
                    put("F");
                    for (int64_t n : { (int64_t)i, (int64_t)r.obligations, (int64_t)r.proved, (int64_t)r.loops, (int64_t)r.states, (int64_t)r.gaveUp, (int64_t)(clock() - t0) / 1000 })
                        put(std::to_string(n));
                    o += '\n';
                    for (auto& x : r.failed) {
                        put("X");
                        put(std::to_string(i));
                        put(x.where);
                        put(x.fn);
                        put(x.what);
                        o += '\n';
                    }
                    for (auto& [b, w] : r.broken) {
                        put("B");
                        put(std::to_string(i));
                        put(b.first);
                        put(std::to_string(b.second));
                        put(w);
                        o += '\n';
                    }
                    for (auto& [kd, n] : r.kinds) {
                        put("K");
                        put(std::to_string(i));
                        put(kd);
                        put(std::to_string(n));
                        o += '\n';
                    }
                    for (size_t w = 0; w < o.size();) {
                        ssize_t z = ::write(fd[1], o.data() + w, o.size() - w);
                        if (z <= 0)
                            break;
                        w += z;
                    }
                }
                close(fd[1]);
                _exit(0);
            }
            close(fd[1]);
            kids.push_back({ pid, fd[0] });
        }
        // read all pipes (they may fill up): round robin with poll-free blocking per child is enough as children do not wait for each other
        for (auto& [pid, fd] : kids) {
            std::string all;
            char buf[65536];
            ssize_t n;
            while ((n = ::read(fd, buf, sizeof buf)) > 0)
                all.append(buf, n);
            close(fd);
            int st = 0;
            waitpid(pid, &st, 0);
            if (st != 0)
                crashed++;
            size_t pos = 0;
            while (pos < all.size()) {
                size_t e = all.find('\n', pos);
                std::string line = all.substr(pos, e - pos);
                pos = e + 1;
                std::vector<std::string> c;
                size_t q = 0;
                while (q < line.size()) {
                    size_t t = line.find('\t', q);
                    c.push_back(line.substr(q, t - q));
                    q = t + 1;
                }
                auto* f = fs[atoi(c[1].c_str())];
                auto& r = res[f];
                if (c[0] == "F") {
                    r.obligations = atoi(c[2].c_str());
                    r.proved = atoi(c[3].c_str());
                    r.loops = atoi(c[4].c_str());
                    r.states = atoi(c[5].c_str());
                    r.gaveUp = c[6] == "1";
                    if (getenv("SA_TIMES") && atoi(c[7].c_str()) > atoi(getenv("SA_TIMES")))
                        errs() << "time " << p.name(f) << " " << c[7] << " ms\n";
                } else if (c[0] == "X")
                    r.failed.insert({ c[2], c[3], c[4], p.name(f), f });
                else if (c[0] == "B")
                    r.broken[{ c[2], atoi(c[3].c_str()) }] = c[4];
                else
                    r.kinds[c[2]] = atoi(c[3].c_str());
            }
        }
        munmap(next, 4096);
        for (auto& [f, r] : res)
            filter(r, f);
        return res;
    }
    int crashed = 0;

    // all results of the functions of a group
    std::map<const Function*, BoundsResult> result;
    std::vector<std::string> dropped;
    void analyse(std::function<bool(const Function*)> in, std::function<bool(const Function*)> skip)
    {
        inGroup = in;
        for (int attempt = 0; attempt < 6; attempt++) {
            result.clear();
            std::set<const Function*> todo;
            for (auto* f : p.funcs)
                if (in(f) && !skip(f))
                    todo.insert(f);
            for (int round = 0; round < 40 && !todo.empty(); round++) {
                std::set<const Function*> next;
                std::vector<const Function*> now;
                // callees first: what is analysed inside its callers is known before they are analysed
                std::map<const Function*, std::set<const Function*>> below;
                std::set<const Function*> ready;
                for (auto* f : todo) {
                    std::vector<const Function*> q{ f };
                    std::set<const Function*> seen{ f };
                    while (!q.empty()) {
                        auto* g = q.back();
                        q.pop_back();
                        for (auto& i : instructions(*g))
                            if (auto* cb = dyn_cast<CallBase>(&i))
                                if (auto* t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()); t && !t->isDeclaration() && p.isProject(t) && seen.insert(t).second) {
                                    if (todo.count(t))
                                        below[f].insert(t);
                                    q.push_back(t);
                                }
                    }
                }
                for (auto* f : todo) {
                    bool wait = false;
                    for (auto* g : below[f])
                        if (!below[g].count(f))
                            wait = true;
                    if (!wait)
                        ready.insert(f);
                }
                if (ready.empty())
                    ready = todo;
                for (auto* f : todo)
                    if (!ready.count(f))
                        next.insert(f);
                for (auto* f : ready) {
                    if ((reader(p, f) || lifted.count(f)) && liftable(f)) {
                        // only inside its callers
                        if (lifted.insert(f).second || round == 0)
                            for (auto* cb : p.callersOf(f))
                                if (!skip(cb->getFunction()) && !todo.count(cb->getFunction()))
                                    next.insert(cb->getFunction());
                        continue;
                    }
                    now.push_back(f);
                }
                if (!now.empty()) {
                    // the big ones first
                    std::sort(now.begin(), now.end(), [](const Function* a, const Function* b) { return a->getInstructionCount() > b->getInstructionCount(); });
                    auto r = many(now);
                    for (auto& [f, x] : r) {
                        result[f] = x;
                        if ((!x.failed.empty() || !x.broken.empty()) && !x.gaveUp && liftable(f) && !getenv("SA_NOLIFT") && height[f] < 4 && fits(f)) {
                            lifted.insert(f);
                            for (auto* cb : p.callersOf(f))
                                if (!skip(cb->getFunction())) {
                                    next.insert(cb->getFunction());
                                    auto& h = height[cb->getFunction()];
                                    h = std::max(h, height[f] + 1);
                                }
                            result.erase(f);
                        }
                    }
                }
                for (auto* f : next)
                    result.erase(f);
                todo = std::move(next);
            }
            // relations that do not hold are not assumed
            bool again = false;
            for (auto& [f, x] : result)
                for (auto& [b, w] : x.broken) {
                    auto& rel = inv.at(b.first).rel[b.second];
                    if (rel.on) {
                        rel.on = false;
                        again = true;
                        auto& ci = inv.at(b.first);
                        dropped.push_back(b.first + ": " + ci.mem[rel.a].name + (rel.k == ClassInv::Rel::Min ? " at least " + std::to_string(rel.b) : (rel.k == ClassInv::Rel::Le ? " <= " : " extent ") + ci.mem[rel.b].name) + " (" + w + ")");
                    }
                }
            if (!again)
                break;
        }
        // a second try with the callees of the same file, a third with all callees
        for (int pass = 0; pass < 2; pass++) {
            std::vector<const Function*> retry;
            for (auto& [f, x] : result)
                if (!x.failed.empty()) {
                    retry.push_back(f);
                    deepFiles[f].insert(Program::file(f));
                    for (auto& o : x.failed)
                        deepFiles[f].insert(o.where.substr(0, o.where.find(':')));
                }
            if (retry.empty())
                break;
            deep = true;
            deepAll = pass == 1;
            auto r = many(retry);
            for (auto& [f, x] : r)
                if (!x.gaveUp && x.failed.size() < result[f].failed.size())
                    result[f] = x;
            deep = deepAll = false;
        }
    }
};
} // namespace

void debugBounds(Program& p, const std::string& sub)
{
    Driver d{ p, sub.size() == 3 && sub[0] == 'C' && !getenv("SA_RAW") ? sub : "" };
    d.prepare();
    if (sub == "classes") {
        for (auto& [n, c] : d.inv) {
            outs() << n << "\n";
            for (auto& r : c.rel)
                outs() << "    " << c.mem[r.a].name << (r.k == ClassInv::Rel::Min ? " at least " + std::to_string(r.b) : (r.k == ClassInv::Rel::Le ? " <= " : " extent ") + c.mem[r.b].name) << "\n";
        }
        for (auto& n : d.immutableFields)
            outs() << "immutable " << n << "\n";
        for (auto& [n, k] : d.fixedBuffers)
            outs() << n << " " << k << "\n";
        return;
    }
    bool group = sub.size() == 3 && sub[0] == 'C';
    d.analyse([&](const Function* f) { return group ? inGroupOf(p, f, sub) : contains(p.name(f), sub.c_str()); }, [&](const Function* f) { return (sub == "C03" && (d.unused(f) || p.name(f) == "stun::stun_message_append_software")) || anyOf(Program::file(f), { "sctp_crc32", "stuncrc32", "byte_buffer.cpp" }) || (sub == "C01" && anyOf(Program::file(f), { "jitter_buffer", "pool_allocator" })) || (groupOfFile(Program::file(f)) == "" && group); });
    for (auto& x : d.dropped)
        outs() << "dropped " << x << "\n";
    for (auto& [k, n] : d.left)
        outs() << "outside " << n << " " << k << "\n";
    int ob = 0, pr = 0;
    for (auto& [f, r] : d.result) {
        ob += r.obligations, pr += r.proved;
        if (r.failed.empty() && !r.gaveUp)
            continue;
        outs() << p.name(f) << " obligations " << r.obligations << " proved " << r.proved << " loops " << r.loops << " states " << r.states << (r.gaveUp ? " GAVE UP" : "") << "\n";
        for (auto& x : r.failed)
            outs() << "    " << x.where << " in " << x.fn << ": " << x.what << "\n";
    }
    outs() << d.result.size() << " functions, " << ob << " obligations, " << pr << " proved, crashed " << d.crashed << "\n";
}

namespace
{
void bounds(Program& p, Report& r, const std::string& prop)
{
    Driver d{ p, prop };
    boundsDeadline = time(nullptr) + 540;
    d.prepare();
    auto in = [&](const Function* f) { return inGroupOf(p, f, prop); };
    auto skip = [&](const Function* f) {
        auto file = Program::file(f);
        if (prop == "C03" && (d.unused(f) || p.name(f) == "stun::stun_message_append_software"))
            return true;
        return groupOfFile(file).empty() || anyOf(file, { "sctp_crc32", "stuncrc32", "byte_buffer.cpp" }) || (prop == "C01" && anyOf(file, { "jitter_buffer", "pool_allocator" }));
    };
    d.analyse(in, skip);
    int gave = 0, loops = 0;
    std::map<std::string, int> kinds;
    for (auto& [f, x] : d.result) {
        r.obligations += x.obligations;
        r.discharged += x.gaveUp ? 0 : x.proved;
        loops += x.loops;
        for (auto& [k, n] : x.kinds)
            kinds[k] += n;
        if (x.gaveUp) {
            gave++;
            r.site("not decided (effort limit reached)", p.name(f));
            continue;
        }
        r.site("every access inside its buffer, no abort reached: analysed from", p.name(f) + " (" + std::to_string(x.obligations) + ")");
        for (auto& o : x.failed)
            r.viol("bounds", o.where, o.fn, o.what + " (analysed from " + p.name(f) + ")");
    }
    for (auto& [k, n] : kinds)
        r.counts["obligations: " + k] = n;
    for (auto& [k, n] : d.left)
        r.counts["left undecided: " + k] = n;
    r.counts["loops analysed"] = loops;
    r.counts["functions not decided"] = gave;
    r.need("functions analysed", d.result.size(), 10);
    if (d.crashed)
        r.errors.push_back("an analysis process ended early");
    r.assumptions.push_back("buffers and containers hold less than 2^30 elements; allocation does not fail");
    r.assumptions.push_back("objects handed over by reference exist; what is listed as left undecided is not part of the claim");
}
} // namespace
void ruleC01(Program& p, Report& r) { bounds(p, r, "C01"); }
void ruleC02(Program& p, Report& r) { bounds(p, r, "C02"); }
void ruleC03(Program& p, Report& r) { bounds(p, r, "C03"); }
void ruleC04(Program& p, Report& r) { bounds(p, r, "C04"); }
void registerBounds(std::vector<Rule>& r)
{
    for (auto& x : { Rule{ "C01", "flow", ruleC01 }, Rule{ "C02", "flow", ruleC02 }, Rule{ "C03", "flow", ruleC03 }, Rule{ "C04", "flow", ruleC04 } })
        r.push_back(x);
}
