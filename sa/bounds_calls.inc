// Models of callees for the bounds engine (included into Engine).

    static std::string noTemplates(const std::string& n)
    {
        std::string r;
        int d = 0;
        for (size_t i = 0; i < n.size(); i++) {
            if (n[i] == '<' && !(i >= 8 && n.compare(i - 8, 8, "operator") == 0) && !(i >= 9 && n.compare(i - 9, 9, "operator<") == 0))
                d++;
            else if (n[i] == '>' && d > 0)
                d--;
            else if (d == 0)
                r += n[i];
        }
        for (const char* ns : { "__cxx11::", "__gnu_cxx::" })
            for (size_t p; (p = r.find(ns)) != std::string::npos;)
                r.erase(p, strlen(ns));
        return r;
    }
    std::map<const Function*, std::string> shortNames;
    const std::string& shortName(const Function* f)
    {
        auto it = shortNames.find(f);
        if (it != shortNames.end())
            return it->second;
        return shortNames[f] = noTemplates(P.name(f));
    }
    static const Function* target(const CallBase* cb)
    {
        if (auto* f = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases()))
            return f;
        return nullptr;
    }
    bool isConstParam(const Function* f, unsigned i)
    {
        if (!f || i >= f->arg_size() || f->isDeclaration())
            return false;
        auto* t = P.typeOf(f->getArg(i));
        for (int d = 0; d < 8; d++) {
            auto* x = dyn_cast_or_null<DIDerivedType>(t);
            if (!x)
                return false;
            switch (x->getTag()) {
            case dwarf::DW_TAG_reference_type:
            case dwarf::DW_TAG_pointer_type:
            case dwarf::DW_TAG_rvalue_reference_type: {
                auto* b = dyn_cast_or_null<DIDerivedType>(x->getBaseType());
                return b && b->getTag() == dwarf::DW_TAG_const_type;
            }
            default: t = x->getBaseType();
            }
        }
        return false;
    }
    LE freshRet(State& s, const CallBase* cb)
    {
        LE r = typed(atomFor((cb->hasName() ? cb->getName().str() : "call") + "@" + id(cb)), cb->getType());
        if (cb->getType()->isPointerTy())
            describePtr(r.t.begin()->first, cb);
        return r;
    }
    void bindRet(State& s, const CallBase* cb)
    {
        auto* t = cb->getType();
        if (t->isIntegerTy(1)) {
            s.bools.erase(cb);
            s.bind.erase(cb);
            LE e = LE::atom(atomFor("b@" + id(cb)));
            auto& a = atoms[e.t.begin()->first];
            a.hasHi = true;
            a.hi = 1;
            s.bools[cb] = mkB(BoolE::Ge, e - 1);
        } else if (t->isIntegerTy() || t->isPointerTy())
            s.bind[cb] = freshRet(s, cb);
    }
    LE freshSize(const std::string& n) { return typedSize(atomFor(n)); }
    // the data pointer of a sized object whose valid bytes are ext
    LE dataPtr(State& s, const LE& obj, const LE& ext, const char* cls)
    {
        int b = atomFor("data(" + keyOf(obj) + "," + keyOf(ext) + ")");
        atoms[b].name = std::string(cls) + " data of " + show(obj);
        atoms[b].ptr = true;
        atoms[b].hasExt = true;
        atoms[b].ext = ext;
        atoms[b].byteLike = true;
        return LE::atom(b);
    }
    void setSize(State& s, const LE& o, const LE& n, const LE& cap)
    {
        setCell(s, o, Size, n);
        setCell(s, o, Cap, cap);
    }
    LE grown(State& s, const CallBase* cb, const LE& o, const LE& atLeast)
    {
        LE cap = sizeCell(s, o, Cap, cb, "cap");
        if (entails(s, cap - atLeast))
            return cap;
        LE n = freshSize("grown@" + id(cb) + keyOf(atLeast));
        addRow(s, n - atLeast);
        addRow(s, n - cap);
        return n;
    }
    void moveSized(State& s, const LE& to, const LE& from, const CallBase* cb)
    {
        LE n = sizeCell(s, from, Size, cb, "size"), c = sizeCell(s, from, Cap, cb, "cap");
        setSize(s, to, n, c);
        if (to != from)
            setSize(s, from, LE(0), LE(0));
    }
    bool byteBufferCall(State& s, const CallBase* cb, const Function* f)
    {
        const auto& n = shortName(f);
        if (!startsWith(n, "srtc::ByteBuffer::"))
            return false;
        std::string m = n.substr(18);
        bool sret = cb->arg_size() > 0 && cb->paramHasAttr(0, Attribute::StructRet);
        unsigned t = sret ? 1 : 0;
        if (cb->arg_size() <= t)
            return false;
        LE o = ev(s, cb->getArgOperand(t));
        auto arg = [&](unsigned i) { return ev(s, cb->getArgOperand(t + i)); };
        unsigned na = cb->arg_size() - t;
        if (m == "ByteBuffer") {
            if (na == 1)
                setSize(s, o, LE(0), LE(0));
            else if (na == 2 && cb->getArgOperand(t + 1)->getType()->isIntegerTy())
                setSize(s, o, LE(0), arg(1));
            else if (na == 3) {
                access(s, cb, arg(1), arg(2), "copy into a buffer");
                setSize(s, o, arg(2), arg(2));
            } else
                moveSized(s, o, arg(1), cb);
            return true;
        }
        if (m == "~ByteBuffer") {
            setSize(s, o, LE(0), LE(0));
            return true;
        }
        if (m == "operator=") {
            moveSized(s, o, arg(1), cb);
            bindRet(s, cb);
            s.bind[cb] = o;
            return true;
        }
        if (m == "empty") {
            s.bools[cb] = mkB(BoolE::Eq, sizeCell(s, o, Size, cb, "size"));
            return true;
        }
        if (m == "size" || m == "capacity") {
            s.bind[cb] = sizeCell(s, o, m == "size" ? Size : Cap, cb, m.c_str());
            return true;
        }
        if (m == "clear") {
            setCell(s, o, Size, LE(0));
            return true;
        }
        if (m == "free") {
            setSize(s, o, LE(0), LE(0));
            return true;
        }
        if (m == "front") {
            obligation(s, cb, "front of a buffer", sizeCell(s, o, Size, cb, "size") - 1, "the buffer can be empty");
            bindRet(s, cb);
            return true;
        }
        if (m == "data") {
            bool c = endsWith(P.fullName(f), " const");
            s.bind[cb] = dataPtr(s, o, sizeCell(s, o, c ? Size : Cap, cb, c ? "size" : "cap"), "buffer");
            return true;
        }
        if (m == "resize") {
            obligation(s, cb, "resize of a buffer", sizeCell(s, o, Cap, cb, "cap") - arg(1), "the new size can be larger than the capacity");
            setCell(s, o, Size, arg(1));
            return true;
        }
        if (m == "reserve" || m == "ensureCapacity") {
            setCell(s, o, Cap, grown(s, cb, o, arg(1)));
            return true;
        }
        if (m == "assign") {
            access(s, cb, arg(1), arg(2), "copy into a buffer");
            setSize(s, o, arg(2), arg(2));
            return true;
        }
        if (m == "append" || m == "padding") {
            LE add;
            if (na == 2)
                add = sizeCell(s, arg(1), Size, cb, "size");
            else {
                add = arg(2);
                if (m == "append")
                    access(s, cb, arg(1), add, "append to a buffer");
            }
            LE size = sizeCell(s, o, Size, cb, "size");
            LE total = size + add;
            if (!entails(s, LE(int64_t(1) << 40) - total)) {
                total = freshSize("total@" + id(cb) + keyOf(total));
                addRow(s, total - size);
                addRow(s, total - add);
            }
            LE cap = grown(s, cb, o, total);
            setSize(s, o, total, cap);
            return true;
        }
        if (m == "copy" && sret) {
            LE size = sizeCell(s, o, Size, cb, "size");
            setSize(s, ev(s, cb->getArgOperand(0)), size, size);
            return true;
        }
        if (m == "operator==" ) {
            bindRet(s, cb);
            return true;
        }
        return false;
    }
    static bool containerName(const std::string& n, std::string& cls, std::string& m)
    {
        for (const char* c : { "std::vector::", "std::list::", "std::deque::", "std::queue::", "std::array::", "std::basic_string::", "std::basic_string_view::", "std::stack::" })
            if (startsWith(n, c)) {
                cls = std::string(c).substr(5);
                cls = cls.substr(0, cls.size() - 2);
                m = n.substr(strlen(c));
                return m.find("::") == std::string::npos;
            }
        return false;
    }
    // element size in bytes of the container's element when it is a byte
    bool bytesContainer(const Function* f, const std::string& cls)
    {
        auto& n = P.fullName(f);
        return cls == "basic_string" || contains(n, "std::vector<unsigned char,") || contains(n, "std::array<unsigned char,") || contains(n, "std::vector<char,");
    }
    bool containerCall(State& s, const CallBase* cb, const Function* f)
    {
        std::string cls, m;
        if (!containerName(shortName(f), cls, m))
            return false;
        bool sret = cb->arg_size() > 0 && cb->paramHasAttr(0, Attribute::StructRet);
        if (sret || cb->arg_size() == 0)
            return false;
        LE o = ev(s, cb->getArgOperand(0));
        unsigned na = cb->arg_size();
        auto arg = [&](unsigned i) { return ev(s, cb->getArgOperand(i)); };
        auto isInt = [&](unsigned i) { return i < na && cb->getArgOperand(i)->getType()->isIntegerTy() && !cb->getArgOperand(i)->getType()->isIntegerTy(1); };
        if (cls == "array") {
            auto& full = P.fullName(f);
            size_t k = full.find("std::array<");
            int64_t N = -1;
            if (k != std::string::npos) {
                int d = 0;
                size_t comma = std::string::npos, j = k + 10;
                for (; j < full.size(); j++) {
                    if (full[j] == '<')
                        d++;
                    else if (full[j] == '>' && --d == 0)
                        break;
                    else if (full[j] == ',' && d == 1)
                        comma = j;
                }
                if (comma != std::string::npos)
                    N = atoll(full.c_str() + comma + 1);
            }
            if (N < 0)
                return false;
            if (m == "size") {
                s.bind[cb] = LE(N);
                return true;
            }
            if (m == "operator[]" && na == 2) {
                obligation(s, cb, "array index", LE(N - 1) - arg(1), "the index can be larger than the array");
                bindRet(s, cb);
                if (int64_t el = cb->getRetDereferenceableBytes(); el > 0) {
                    int a = atomFor("element@" + id(cb) + keyOf(o) + keyOf(arg(1)));
                    atoms[a].ptr = true;
                    atoms[a].hasExt = true;
                    atoms[a].ext = LE(el);
                    s.bind[cb] = LE::atom(a);
                }
                return true;
            }
            if (m == "data") {
                s.bind[cb] = o;
                return true;
            }
            bindRet(s, cb);
            return true;
        }
        auto size = [&] { return sizeCell(s, o, Size, cb, "size"); };
        auto elem = [&](const LE& idx) {
            if (cls == "basic_string" || bytesContainer(f, cls))
                s.bind[cb] = dataPtr(s, o, size() + (cls == "basic_string" ? 1 : 0), cls.c_str()) + idx;
            else
                bindRet(s, cb);
        };
        if (m == "size" || m == "length") {
            s.bind[cb] = size();
            return true;
        }
        if (m == "empty") {
            s.bools[cb] = mkB(BoolE::Eq, size());
            return true;
        }
        if (m == "front" || m == "back" || m == "pop" || m == "pop_back" || m == "pop_front" || m == "top") {
            obligation(s, cb, "first or last element", size() - 1, "the container can be empty");
            if (startsWith(m, "pop"))
                setCell(s, o, Size, size() - 1);
            else if (m == "front" && bytesContainer(f, cls))
                elem(LE(0));
            else
                bindRet(s, cb);
            return true;
        }
        if (m == "operator[]" && na == 2) {
            obligation(s, cb, "element index", size() - (cls == "basic_string" ? 0 : 1) - arg(1), "the index can be larger than the container");
            elem(arg(1));
            return true;
        }
        if (m == "at" && na == 2) {
            obligation(s, cb, "element index", size() - 1 - arg(1), "at() can be called with an index outside the container");
            elem(arg(1));
            return true;
        }
        if (m == "data" || m == "c_str") {
            if (bytesContainer(f, cls))
                s.bind[cb] = dataPtr(s, o, size() + (cls == "basic_string" ? 1 : 0), cls.c_str());
            else
                bindRet(s, cb);
            return true;
        }
        if (m == "begin" || m == "end" || m == "cbegin" || m == "cend" || m == "rbegin" || m == "rend" || m == "capacity" || m == "max_size" || m == "reserve" ||
            m == "find" || m == "get_allocator" || m == "compare" || m == "find_first_of" || m == "_M_data" || m == "_M_local_data") {
            bindRet(s, cb);
            return true;
        }
        if (m == "push_back" || m == "emplace_back" || m == "push" || m == "emplace" || m == "push_front" || m == "emplace_front") {
            LE n = size() + 1;
            if (!entails(s, LE(int64_t(1) << 40) - n)) {
                n = freshSize("pushed@" + id(cb) + keyOf(n));
                addRow(s, n - 1);
                addRow(s, n - size());
            }
            setCell(s, o, Size, n);
            movedArgs(s, cb, 1);
            bindRet(s, cb);
            return true;
        }
        if (m == "clear") {
            setCell(s, o, Size, LE(0));
            return true;
        }
        if (m == "resize" && isInt(1)) {
            setCell(s, o, Size, arg(1));
            return true;
        }
        if (m == cls) { // constructors
            if (na == 1)
                setCell(s, o, Size, LE(0));
            else if (isInt(1))
                setCell(s, o, Size, arg(1));
            else if (cls == "basic_string" && na >= 3 && isInt(2)) {
                access(s, cb, arg(1), arg(2), "string from a buffer");
                setCell(s, o, Size, arg(2));
            } else
                dropCell(s, o, Size);
            return true;
        }
        if (m[0] == '~') {
            dropCell(s, o, Size);
            return true;
        }
        if (cls == "basic_string" && m == "append" && na == 3 && isInt(2)) {
            access(s, cb, arg(1), arg(2), "append to a string");
        }
        // anything else may change the size
        dropCell(s, o, Size);
        dropCell(s, o, Cap);
        if (s.mem.size()) {
            Key k;
            if (!keyFor(s, o, Size, k))
                setCell(s, o, Size, LE(0));
        }
        movedArgs(s, cb, 1);
        bindRet(s, cb);
        return true;
    }
    // objects handed over by rvalue reference are left in an unknown state
    void movedArgs(State& s, const CallBase* cb, unsigned from)
    {
        auto* f = target(cb);
        for (unsigned i = from; i < cb->arg_size(); i++) {
            auto* a = cb->getArgOperand(i);
            if (!a->getType()->isPointerTy() || isConstParam(f, i))
                continue;
            LE p = ev(s, a);
            int b = baseOf(p);
            if (b >= 0)
                havocAt(s, p, 64);
        }
    }
    void allocation(State& s, const CallBase* cb, const LE& n)
    {
        int a = atomFor("new@" + id(cb) + "(" + keyOf(n) + ")");
        atoms[a].ptr = true;
        atoms[a].hasExt = true;
        atoms[a].ext = n;
        havocObject(s, a);
        s.bind[cb] = LE::atom(a);
    }
    void escapeArgs(State& s, const CallBase* cb)
    {
        for (auto& a : cb->args())
            if (a->getType()->isPointerTy()) {
                LE p = ev(s, a.get());
                (void)p;
            }
    }
    void call(State& s, const CallBase* cb)
    {
        if (auto* ii = dyn_cast<IntrinsicInst>(cb)) {
            if (auto* mi = dyn_cast<MemIntrinsic>(ii)) {
                LE d = ev(s, mi->getRawDest()), n = ev(s, mi->getLength());
                access(s, cb, d, n, "write");
                bool copied = false;
                if (auto* mt = dyn_cast<MemTransferInst>(mi)) {
                    LE src = ev(s, mt->getRawSource());
                    access(s, cb, src, n, "read");
                    if (n.isConst() && d.t.size() == 1 && src.t.size() == 1 && baseOf(d) >= 0 && baseOf(src) >= 0) {
                        int db = baseOf(d), sb = baseOf(src);
                        std::map<Key, Cell> add;
                        for (auto& [k, c] : s.mem)
                            if (k.base == sb && k.off >= src.c && k.off < src.c + n.c)
                                add[{ db, k.off - src.c + d.c, k.tag }] = c;
                        havocAt(s, d, n.c);
                        for (auto& [k, c] : add)
                            s.mem[k] = c;
                        copied = true;
                    }
                }
                if (!copied)
                    havocAt(s, d, n.isConst() ? n.c : -1);
                return;
            }
            switch (ii->getIntrinsicID()) {
            case Intrinsic::assume: {
                std::vector<State> in{ s }, out;
                assume(in, evB(s, ii->getArgOperand(0)), true, out);
                if (out.size() == 1)
                    s = std::move(out[0]);
                return;
            }
            case Intrinsic::expect:
                if (ii->getType()->isIntegerTy(1))
                    s.bools[cb] = evB(s, ii->getArgOperand(0));
                else
                    s.bind[cb] = ev(s, ii->getArgOperand(0));
                return;
            case Intrinsic::usub_sat: {
                LE r = freshRet(s, cb), a = ev(s, ii->getArgOperand(0));
                addRow(s, a - r);
                s.bind[cb] = r;
                return;
            }
            default:
                bindRet(s, cb);
                return;
            }
        }
        settle(s, cb, cb);
        auto* f = target(cb);
        if (!f) { // through a function pointer, or virtual
            effects(s, cb, nullptr, true);
            bindRet(s, cb);
            return;
        }
        if (byteBufferCall(s, cb, f) || containerCall(s, cb, f))
            return;
        StringRef ln = f->getName();
        auto arg = [&](unsigned i) { return ev(s, cb->getArgOperand(i)); };
        if (ln == "abort" || ln == "__assert_fail" || ln == "exit" || ln == "_exit" || ln == "_ZSt9terminatev") {
            violate(cb, "abort", "the process can be terminated here");
            dead(s);
            return;
        }
        if (startsWith(ln.str(), "_ZSt") && ln.contains("__throw_")) {
            dead(s);
            return;
        }
        if (ln == "_Znwm" || ln == "_Znam" || ln == "malloc" || ln == "_ZnwmSt11align_val_t" || ln == "_ZnamRKSt9nothrow_t") {
            allocation(s, cb, arg(0));
            return;
        }
        if (ln == "calloc") {
            LE a = arg(0), b = arg(1);
            if (a.isConst() || b.isConst())
                allocation(s, cb, a.isConst() ? scaled(b, a.c) : scaled(a, b.c));
            else
                bindRet(s, cb);
            return;
        }
        if (ln == "_ZdlPv" || ln == "_ZdlPvm" || ln == "_ZdaPv" || ln == "_ZdaPvm" || ln == "free")
            return;
        if (ln == "memcpy" || ln == "memmove") {
            access(s, cb, arg(0), arg(2), "write");
            access(s, cb, arg(1), arg(2), "read");
            havocAt(s, arg(0), arg(2).isConst() ? arg(2).c : -1);
            s.bind[cb] = arg(0);
            return;
        }
        if (ln == "memset") {
            access(s, cb, arg(0), arg(2), "write");
            havocAt(s, arg(0), arg(2).isConst() ? arg(2).c : -1);
            s.bind[cb] = arg(0);
            return;
        }
        if (ln == "strlen") {
            LE str = arg(0);
            LE r = typed(atomFor("strlen@" + id(cb)), cb->getType());
            addRow(s, r);
            int b = baseOf(str);
            if (b >= 0 && atoms[b].hasExt)
                addRow(s, atoms[b].ext - (str - LE::atom(b)) - 1 - r);
            else if (b >= 0 && str == LE::atom(b)) {
                atoms[b].hasExt = true;
                atoms[b].ext = r + 1;
            }
            s.bind[cb] = r;
            return;
        }
        if (!f->isDeclaration() && P.name(f) == "stun::stun_crc32" && cb->arg_size() >= 2 && arg(1).isConst() && arg(1).c <= 8) {
            // an array of (pointer, length)
            LE arr = arg(0);
            for (int i = 0; i < arg(1).c; i++) {
                Key kp, kl;
                if (!keyFor(s, arr + 16 * i, Plain, kp) || !keyFor(s, arr + 16 * i + 8, Plain, kl))
                    continue;
                auto p = s.mem.find(kp), l = s.mem.find(kl);
                if (p == s.mem.end() || l == s.mem.end()) {
                    violate(cb, "read", "the checksummed pieces are not known here");
                    continue;
                }
                access(s, cb, p->second.v, l->second.v, "checksum input");
            }
            bindRet(s, cb);
            return;
        }
        if (ln == "memcmp" || ln == "CRYPTO_memcmp" || ln == "bcmp") {
            access(s, cb, arg(0), arg(2), "read");
            access(s, cb, arg(1), arg(2), "read");
            bindRet(s, cb);
            return;
        }
        if (f->isDeclaration() && (ln.starts_with("EVP_EncryptUpdate") || ln.starts_with("EVP_DecryptUpdate") || ln.starts_with("EVP_CipherUpdate")) && cb->arg_size() == 5) {
            if (!(arg(1) == LE(0)))
                access(s, cb, arg(1), arg(4), "cipher output");
            access(s, cb, arg(3), arg(4), "cipher input");
            havocAt(s, arg(2), 4);
            bindRet(s, cb);
            return;
        }
        if (f->isDeclaration() && !P.isStd(f)) {
            // (pointer to bytes, length) pairs
            pairs(s, cb, f, ln.str() == "snprintf" || ln.str() == "vsnprintf");
            for (unsigned i = 0; i < cb->arg_size(); i++)
                if (cb->getArgOperand(i)->getType()->isPointerTy() && !cb->paramHasAttr(i, Attribute::ReadOnly) && !cb->paramHasAttr(i, Attribute::ReadNone)) {
                    LE p = arg(i);
                    if (baseOf(p) >= 0)
                        havocAt(s, p, -1);
                }
            bindRet(s, cb);
            if (ln == "recv" || ln == "recvfrom" || ln == "recvmsg" || ln == "SSL_read" || ln == "BIO_read") {
                // at most the length asked for (or negative)
            }
            return;
        }
        if (P.isProject(f)) {
            unsigned an;
            int64_t off, least;
            if (O.minSize && O.minSize(f, an, off, least) && an < cb->arg_size())
                obligation(s, cb, "datagram handed to the STUN decoder", sizeCell(s, arg(an) + off, Size, cb, "size") - least, "it can be shorter than a STUN header");
            pairs(s, cb, f, false);
            effects(s, cb, f, true);
            bindRet(s, cb);
            if (onProjectCall)
                onProjectCall(*this, s, cb, f);
            return;
        }
        // library code: touches what it is given, and through callbacks possibly the heap
        bool callback = contains(shortName(f), "std::function::operator()") || contains(shortName(f), "std::__invoke");
        effects(s, cb, f, callback);
        bindRet(s, cb);
    }
    std::function<void(Engine&, State&, const CallBase*, const Function*)> onProjectCall;
    void dead(State& s) { s.dead = true; }
    static bool isUnsigned(const DIType* t)
    {
        auto* b = dyn_cast_or_null<DIBasicType>(Program::strip(t));
        return b && (b->getEncoding() == dwarf::DW_ATE_unsigned || b->getEncoding() == dwarf::DW_ATE_unsigned_char);
    }
    // adjacent (byte pointer, length) arguments: the callee may touch that many bytes
    void pairs(State& s, const CallBase* cb, const Function* f, bool)
    {
        for (unsigned i = 0; i + 1 < cb->arg_size(); i++) {
            auto *p = cb->getArgOperand(i), *n = cb->getArgOperand(i + 1);
            if (!p->getType()->isPointerTy() || !(n->getType()->isIntegerTy(64) || n->getType()->isIntegerTy(32)))
                continue;
            if (cb->paramHasAttr(i, Attribute::StructRet))
                continue;
            if (f && i + 1 >= f->arg_size())
                continue;
            if (f && !f->isDeclaration() && !isUnsigned(P.typeOf(f->getArg(i + 1))))
                continue;
            if (f && !f->isDeclaration()) {
                auto pn = P.pointeeName(f->getArg(i));
                if (pn != "unsigned char" && pn != "char" && pn != "void" && pn != "signed char")
                    continue;
                // a reference is one object
                if (auto* t = P.typeOf(f->getArg(i)); t && isRef(t))
                    continue;
            } else {
                static const std::set<std::string> table = { "RAND_bytes", "BIO_write", "BIO_read", "SSL_write", "SSL_read", "EVP_DigestUpdate", "EVP_MAC_update", "send", "sendto", "recv", "recvfrom", "write", "read", "snprintf", "BIO_new_mem_buf" };
                if (!table.count(f ? f->getName().str() : ""))
                    continue;
            }
            LE pe = ev(s, p);
            access(s, cb, pe, ev(s, n), "length passed with a buffer");
        }
    }
    // what a callee may have changed
    void effects(State& s, const CallBase* cb, const Function* f, bool heap)
    {
        if (heap)
            havocHeap(s, nullptr);
        for (unsigned i = 0; i < cb->arg_size(); i++) {
            auto* a = cb->getArgOperand(i);
            if (!a->getType()->isPointerTy())
                continue;
            LE p = ev(s, a);
            int b = baseOf(p);
            if (b < 0 || readOnly.count(b))
                continue;
            if (isConstParam(f, i))
                continue;
            // the object of the parameter's type
            int64_t size = -1;
            if (f && !f->isDeclaration() && i < f->arg_size() && p.t.size() == 1) {
                if (auto* t = dyn_cast_or_null<DICompositeType>(Program::strip(P.pointee(f->getArg(i)))))
                    size = t->getSizeInBits() / 8;
                if (size <= 0)
                    size = -1;
            }
            havocAt(s, p, size, f && !f->isDeclaration() && !isCtor(P, f) && !endsWith(P.name(f), "operator="));
        }
        if (heap)
            for (int e : escaped)
                if (locals.count(e))
                    havocObject(s, e);
    }
    // calls with a result that depends on a comparison
    bool splitCall(std::vector<State>& cur, const Instruction& I)
    {
        if (auto* cb = dyn_cast<CallBase>(&I)) {
            auto* f = target(cb);
            static const std::map<std::string, unsigned> lens = { { "recv", 2 }, { "recvfrom", 2 }, { "read", 2 }, { "SSL_read", 2 }, { "BIO_read", 2 }, { "SSL_write", 2 }, { "send", 2 }, { "sendto", 2 }, { "write", 2 } };
            auto it = f ? lens.find(f->getName().str()) : lens.end();
            if (it != lens.end() && cb->arg_size() > it->second) {
                std::vector<State> next;
                for (auto& s : cur) {
                    call(s, cb);
                    LE n = ev(s, cb->getArgOperand(it->second));
                    State bad = s;
                    int a = atomFor("result@" + id(cb)), b = atomFor("error@" + id(cb));
                    atoms[b].neg = true;
                    addRow(s, n - LE::atom(a));
                    s.bind[cb] = LE::atom(a);
                    bad.bind[cb] = LE::atom(b);
                    next.push_back(std::move(s));
                    next.push_back(std::move(bad));
                }
                cur = std::move(next);
                return true;
            }
        }
        auto* ii = dyn_cast<IntrinsicInst>(&I);
        if (!ii || !ii->getType()->isIntegerTy())
            return false;
        bool mn;
        switch (ii->getIntrinsicID()) {
        case Intrinsic::umin:
        case Intrinsic::smin: mn = true; break;
        case Intrinsic::umax:
        case Intrinsic::smax: mn = false; break;
        default: return false;
        }
        bool sg = ii->getIntrinsicID() == Intrinsic::smin || ii->getIntrinsicID() == Intrinsic::smax;
        std::vector<State> next;
        for (auto& s : cur) {
            LE a = ev(s, ii->getArgOperand(0)), b = ev(s, ii->getArgOperand(1));
            if (sg) {
                int64_t half = maxOf(ii->getType()) / 2;
                if (!(entails(s, LE(half) - a) && entails(s, LE(half) - b))) {
                    s.bind[&I] = typed(atomFor("minmax@" + id(&I)), I.getType());
                    next.push_back(std::move(s));
                    continue;
                }
            }
            auto c = mkB(BoolE::Ge, mn ? b - a : a - b);
            std::vector<State> t{ s }, u{ s }, to, fo;
            assume(t, c, true, to);
            assume(u, c, false, fo);
            for (auto& x : to) {
                x.bind[&I] = a;
                next.push_back(std::move(x));
            }
            for (auto& x : fo) {
                x.bind[&I] = b;
                next.push_back(std::move(x));
            }
        }
        cur = std::move(next);
        return true;
    }
