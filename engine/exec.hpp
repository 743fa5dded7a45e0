// The interpreter: included by ysym.cpp.

static E val(State& s, const Opnd& o)
{
    E e = o.c ? o.c : s.regs[s.frames.back().regBase + o.slot];
    if (!e)
        throw Unsupported{"a register without a value"};
    return e;
}

static void setReg(State& s, u32 slot, E e) { s.regs[s.frames.back().regBase + slot] = e; }

static void jump(State& s, u32 to)
{
    Frame& f = s.frames.back();
    Blk& b = f.fn->blocks[to];
    if (!b.phis.empty())
    {
        auto it = b.phis.find(f.block);
        if (it != b.phis.end())
        {
            static std::vector<E> tmp;
            tmp.clear();
            for (auto& m : it->second)
                tmp.push_back(val(s, m.src));
            size_t k = 0;
            for (auto& m : it->second)
                s.regs[f.regBase + m.dst] = tmp[k++];
        }
    }
    f.block = to;
    f.ip = 0;
}

static void pushFrame(State& s, Fn& fn, const std::vector<E>& args, const Ins* call)
{
    ensureDecoded(fn);
    ++fn.calls;
    Frame f;
    f.fn = &fn;
    f.regBase = u32(s.regs.size());
    f.allocaBase = u32(s.allocas.size());
    f.call = call;
    s.regs.resize(s.regs.size() + fn.nslots);
    for (size_t i = 0; i < args.size() && i < fn.nargs; ++i)
        s.regs[f.regBase + i] = args[i];
    s.frames.push_back(f);
}

static void popFrame(State& s)
{
    Frame& f = s.frames.back();
    while (s.allocas.size() > f.allocaBase)
    {
        s.objs[s.allocas.back() - g_globals.size()] = nullptr;
        s.allocas.pop_back();
    }
    s.regs.resize(f.regBase);
    s.frames.pop_back();
}

// Starts unwinding with the exception object at addr.
static void raise(State& s, u64 addr, size_t minFrames = 0)
{
    int type = 0;
    {
        ObjRef& o = objSlot(s, u32(addr >> 32));
        type = o ? o->excType : 0;
    }
    std::string tn = type ? g_typeNames[size_t(type) - 1] : "?";
    s.inflight = addr;
    if (g_concolic || g_mergeDepth)
        throw MergeAbort();
    while (true)
    {
        // Each frame's current instruction is the call being unwound.
        Frame& f = s.frames.back();
        const Ins& in = f.fn->blocks[f.block].ins[f.ip];
        if (in.op == O_CALL && in.isInvoke)
        {
            u32 to = in.succ[1];
            Blk& b = f.fn->blocks[to];
            // Find the landing pad.
            const Ins* lp = nullptr;
            for (auto& x : b.ins)
                if (x.op == O_LANDINGPAD)
                {
                    lp = &x;
                    break;
                }
            if (!lp)
                throw Unsupported{"unwind destination without a landing pad"};
            int sel = -1;
            for (auto& c : lp->clauses)
            {
                if (c.empty())
                {
                    sel = 0x7FFFFFF;
                    break;
                }
                if (derivesFrom(tn, c))
                {
                    sel = typeIndex(c);
                    break;
                }
            }
            if (sel == -1 && lp->cleanup)
                sel = 0;
            if (sel >= 0)
            {
                jump(s, to);
                Frame& g = s.frames.back();
                Blk& bb = g.fn->blocks[g.block];
                while (bb.ins[g.ip].op != O_LANDINGPAD)
                    ++g.ip;
                const Ins& l = bb.ins[g.ip];
                setReg(s, l.dst, mkConst(addr, 64));
                setReg(s, l.dst + 1, mkConst(u64(sel), 32));
                ++g.ip;
                return;
            }
        }
        if (s.frames.size() == 1)
        {
            report(s, "exception", "exception " + demangle(tn) + " escapes", *s.model);
            kill(s);
            return;
        }
        popFrame(s);
    }
}

static u64 newException(State& s, const std::string& type)
{
    u64 a = newObj(s, 64, OB_EXC, false);
    objSlot(s, u32(a >> 32))->excType = typeIndex(type);
    return a;
}

// Checks an access and returns a concrete address; forks when it is symbolic.
// When look is given, a symbolic offset in an object is left to the caller,
// which gets the object's address in the result and the offset in *look.
static bool access(State& s, E addr, u64 size, bool write, u64& out, E* look)
{
    if (look)
        *look = nullptr;
    if (!isC(addr))
    {
        checkUndef(s, addr, "address");
        if (s.dead)
            return false;
        // An offset in the object that the address is in under the current
        // model; if it can be in another one, every address is tried.
        u64 now = evalUnder(addr, *s.model);
        u32 id = u32(now >> 32);
        ObjRef o = id && now < FN_BASE ? objSlot(s, id) : nullptr;
        if (o && !g_concolic && o->size >= size)
        {
            E off = mkAdd(addr, mkConst(0 - (u64(id) << 32), 64));
            E in = mkBin(K_ULE, off, mkConst(o->size - size, 64));
            bool other = false;
            ModelRef m;
            if (!isC(in) && feasible(s, mkNot(in), m) == SAT)
            {
                u64 then = evalUnder(addr, *m);
                u32 id2 = u32(then >> 32);
                ObjRef o2 = id2 && then < FN_BASE ? objSlot(s, id2) : nullptr;
                other = o2 && (then & 0xFFFFFFFFu) + size <= o2->size;
            }
            if (!other)
            {
                require(s, in, "memory", write ? "write out of bounds" : "read out of bounds");
                if (s.dead)
                    return false;
                if (look && o->sym.empty())
                {
                    *look = off;
                    out = u64(id) << 32;
                    return true;
                }
            }
        }
        out = concretize(s, addr);
        if (s.dead)
            return false;
    }
    else
    {
        out = addr->val;
    }
    u32 id = u32(out >> 32);
    u64 off = out & 0xFFFFFFFFu;
    ObjRef& o = objSlot(s, id);
    if (id == 0 || out >= FN_BASE || !o)
    {
        require(s, mkFalse(), "memory",
                out < (1ull << 32) ? "null pointer access" : "access to a freed or dead object");
        return false;
    }
    if (off + size > o->size)
    {
        require(s, mkFalse(), "memory", write ? "write out of bounds" : "read out of bounds");
        return false;
    }
    if (write && o->kind == OB_CONST)
    {
        require(s, mkFalse(), "memory", "write to constant");
        return false;
    }
    return true;
}

static E lookup(State& s, u32 id, E off, unsigned width)
{
    Obj& o = *objSlot(s, id);
    unsigned n = (width + 7) / 8;
    auto at = [&](u64 p) -> u64
    {
        u64 v = 0;
        if (p + n <= o.size)
            memcpy(&v, &o.bytes[p], n);
        return v & maskw(width);
    };
    if (off->bv >= 0)
    {
        const u64* ov = byteVals(off);
        u64 vals[256];
        u64 any = 0;
        bool have = false;
        Mask& d = s.dom[size_t(off->bv)];
        for (unsigned i = 0; i < 256; ++i)
            if (d.test(i) && ov[i] + n <= o.size)
            {
                any = at(ov[i]);
                have = true;
                break;
            }
        (void)have;
        for (unsigned i = 0; i < 256; ++i)
            vals[i] = ov[i] + n <= o.size ? at(ov[i]) : any;
        return mkByteFn(unsigned(off->bv), vals, width);
    }
    return nullptr;
}

static std::vector<E> g_args;

static bool isIntrinsic(const std::string& n, const char* p) { return n.compare(0, strlen(p), p) == 0; }

static u64 freshInput(State& s, const std::string& base, unsigned width, u32& var)
{
    static std::map<std::string, u32> known;
    u32 n = s.symCount[base]++;
    std::string key = base + "#" + std::to_string(n) + "/" + std::to_string(width);
    auto it = known.find(key);
    if (it == known.end())
    {
        if (g_vars.size() >= MAX_VARS)
            throw Unsupported{"too many symbolic variables"};
        mkVar(width, n ? base + "#" + std::to_string(n) : base);
        it = known.emplace(key, u32(g_vars.size() - 1)).first;
    }
    var = it->second;
    if (s.dom.size() <= var)
        s.dom.resize(var + 1, Mask::full());
    if (s.model->size() <= var)
    {
        s.model = std::make_shared<std::vector<u64>>(*s.model);
        s.model->resize(MAX_VARS);
    }
    return 0;
}

static std::string cstr(State& s, E p)
{
    if (!isC(p))
        throw Unsupported{"symbolic string pointer"};
    std::string r;
    u64 a = p->val;
    while (true)
    {
        ObjRef& o = objSlot(s, u32(a >> 32));
        if (!o || (a & 0xFFFFFFFF) >= o->size)
            throw Unsupported{"bad string"};
        E b = readByte(*o, a & 0xFFFFFFFF);
        if (!b || !isC(b))
            throw Unsupported{"symbolic string"};
        if (!b->val)
            return r;
        r.push_back(char(b->val));
        ++a;
    }
}

static bool runApp(State& s, Fn& fn, const std::vector<E>& args, E& out);
static bool mergeCall(State& s, Fn& fn, const std::vector<E>& args, E& out);

enum ExtResult { X_DONE, X_KILLED, X_RAISED, X_REDIRECT };

static ExtResult memCopy(State& s, E dst, E src, E len)
{
    u64 n = concretize(s, len);
    if (s.dead)
        return X_KILLED;
    if (n == 0)
        return X_DONE;
    u64 d, sr;
    if (n >> 31)
    {
        require(s, mkFalse(), "memory", "huge memory copy");
        return X_KILLED;
    }
    if (!access(s, dst, n, true, d, nullptr) || !access(s, src, n, false, sr, nullptr))
        return X_KILLED;
    // The source may be shared with the destination.
    ObjRef so = objSlot(s, u32(sr >> 32));
    u64 soff = sr & 0xFFFFFFFF, doff = d & 0xFFFFFFFF;
    std::vector<uint8_t> b(so->bytes.begin() + i64(soff), so->bytes.begin() + i64(soff + n));
    std::vector<E> sy;
    if (!so->sym.empty())
        sy.assign(so->sym.begin() + i64(soff), so->sym.begin() + i64(soff + n));
    so.reset();
    Obj& o = writable(s, u32(d >> 32));
    std::copy(b.begin(), b.end(), o.bytes.begin() + i64(doff));
    if (!sy.empty() || !o.sym.empty())
    {
        if (o.sym.empty())
            o.sym.resize(o.size);
        for (u64 i = 0; i < n; ++i)
            o.sym[doff + i] = sy.empty() ? nullptr : sy[i];
    }
    return X_DONE;
}

static E byteAt(State& s, u64 addr)
{
    return readObj(s, u32(addr >> 32), addr & 0xFFFFFFFF, 8);
}

static E ctype(const std::string& n, E c32)
{
    // The C locale; arguments outside 0..255 give 0 or themselves.
    auto in = [&](u64 lo, u64 hi)
    {
        return mkAnd(mkBin(K_ULE, mkConst(lo, 32), c32), mkBin(K_ULE, c32, mkConst(hi, 32)));
    };
    E up = in('A', 'Z'), lo = in('a', 'z'), dg = in('0', '9');
    E al = mkOr(up, lo), an = mkOr(al, dg);
    E sp = mkOr(in(9, 13), mkEq(c32, mkConst(32, 32)));
    E gr = in(33, 126);
    E r = nullptr;
    if (n == "isupper") r = up;
    else if (n == "islower") r = lo;
    else if (n == "isdigit") r = dg;
    else if (n == "isalpha") r = al;
    else if (n == "isalnum") r = an;
    else if (n == "isspace") r = sp;
    else if (n == "isgraph") r = gr;
    else if (n == "isprint") r = in(32, 126);
    else if (n == "ispunct") r = mkAnd(gr, mkNot(an));
    else if (n == "iscntrl") r = mkOr(in(0, 31), mkEq(c32, mkConst(127, 32)));
    else if (n == "isxdigit") r = mkOr(dg, mkOr(in('a', 'f'), in('A', 'F')));
    else if (n == "isblank") r = mkOr(mkEq(c32, mkConst(9, 32)), mkEq(c32, mkConst(32, 32)));
    if (r)
        return mkZext(r, 32);
    if (n == "toupper") return mkIte(lo, mkAdd(c32, mkConst(u64(-32), 32)), c32);
    if (n == "tolower") return mkIte(up, mkAdd(c32, mkConst(32, 32)), c32);
    return nullptr;
}

// Writes a std::string holding text at addr (an uninitialised object).
static bool makeString(State& s, E addr, const std::string& text)
{
    u64 a;
    if (!access(s, addr, 32, true, a, nullptr))
        return false;
    u64 off = a & 0xFFFFFFFF;
    u64 data = a + 16;
    if (text.size() > 15)
        data = newObj(s, text.size() + 1, OB_NEW);
    Obj& o = writable(s, u32(a >> 32));
    writeObj(o, off, mkConst(data, 64));
    writeObj(o, off + 8, mkConst(text.size(), 64));
    Obj& d = writable(s, u32(data >> 32));
    u64 doff = data & 0xFFFFFFFF;
    for (size_t i = 0; i <= text.size(); ++i)
        writeByte(d, doff + i, mkConst(i < text.size() ? uint8_t(text[i]) : 0, 8));
    if (text.size() > 15)
        writeObj(writable(s, u32(a >> 32)), off + 16, mkConst(text.size(), 64));
    return true;
}

// Floating point is executed on known values only.
static double toDouble(E e)
{
    if (e->width == 64)
        return std::bit_cast<double>(e->val);
    return std::bit_cast<float>(u32(e->val));
}

static E fromDouble(double x, unsigned width)
{
    return width == 64 ? mkConst(std::bit_cast<u64>(x), 64) : mkConst(std::bit_cast<u32>(float(x)), 32);
}

static E floatOp(const Instruction& I, E x, E y)
{
    if (!isC(x) || x->undef || !isC(y) || y->undef)
        throw Unsupported{"symbolic floating point"};
    auto width = [](Type* t) { return unsigned(DL->getTypeSizeInBits(t)); };
    unsigned w = width(I.getType());
    auto check = [](bool ok)
    {
        if (!ok)
            throw Unsupported{"floating point value out of range"};
    };
    switch (I.getOpcode())
    {
    case Instruction::FAdd: return fromDouble(toDouble(x) + toDouble(y), w);
    case Instruction::FSub: return fromDouble(toDouble(x) - toDouble(y), w);
    case Instruction::FMul: return fromDouble(toDouble(x) * toDouble(y), w);
    case Instruction::FDiv: return fromDouble(toDouble(x) / toDouble(y), w);
    case Instruction::FNeg: return fromDouble(-toDouble(x), w);
    case Instruction::FPExt:
    case Instruction::FPTrunc: return fromDouble(toDouble(x), w);
    case Instruction::UIToFP: return w == 32 ? mkConst(std::bit_cast<u32>(float(x->val)), 32) : fromDouble(double(x->val), w);
    case Instruction::SIToFP:
    {
        i64 v = sx(x->val, x->width);
        return w == 32 ? mkConst(std::bit_cast<u32>(float(v)), 32) : fromDouble(double(v), w);
    }
    case Instruction::FPToUI: check(toDouble(x) >= 0 && toDouble(x) < ldexp(1, int(w))); return mkConst(u64(toDouble(x)), w);
    case Instruction::FPToSI: check(fabs(toDouble(x)) < ldexp(1, int(w) - 1)); return mkConst(u64(i64(toDouble(x))), w);
    case Instruction::FCmp:
    {
        double p = toDouble(x), q = toDouble(y);
        unsigned bit = p != p || q != q ? 8 : p == q ? 1 : p > q ? 2 : 4; // as in the encoding of the predicates
        return mkConst((cast<FCmpInst>(I).getPredicate() & bit) != 0, 1);
    }
    default: throw Unsupported{"floating point"};
    }
}

static ExtResult callExternal(State& s, const std::string& n, const Ins& in, const std::vector<E>& a, std::vector<E>& res)
{
    auto ret = [&](E e) { res.push_back(e); return X_DONE; };
    //------------------------------------------------------------------ ys API
    if (n.compare(0, 3, "ys_") == 0)
    {
        if (n == "ys_check")
        {
            E c = a[0]->width == 1 ? a[0] : mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
            std::string msg = cstr(s, a[1]);
            if (g_concolic || g_mergeDepth)
                throw MergeAbort();
            ++g_stats.checks;
            if (isC(c))
            {
                ++g_stats.checksTrivial;
                if (!c->val)
                {
                    report(s, "check", msg, *s.model);
                    kill(s);
                    return X_KILLED;
                }
                return X_DONE;
            }
            checkUndef(s, c, "check");
            if (s.dead)
                return X_KILLED;
            // Decided by the solver, under everything known about this path.
            E nc = mkNot(c);
            std::vector<E> conj;
            slice(s, nc, conj);
            std::vector<u64> m(*s.model);
            ++g_stats.checksSolver;
            Result r = solve(conj, m);
            if (r == UNKNOWN)
                ++g_stats.checksUnknown;
            if (r == SAT)
            {
                report(s, "check", msg, m);
                ModelRef g;
                if (feasible(s, c, g) != SAT)
                {
                    kill(s);
                    return X_KILLED;
                }
                addConstraint(s, c);
                s.model = g;
            }
            return X_DONE;
        }
        if (n == "ys_assume")
        {
            E c = a[0]->width == 1 ? a[0] : mkNot(mkEq(a[0], mkConst(0, a[0]->width)));
            if (isC(c))
            {
                if (!c->val)
                {
                    ++g_stats.assumedAway;
                    kill(s);
                    return X_KILLED;
                }
                return X_DONE;
            }
            ModelRef m;
            if (feasible(s, c, m) != SAT)
            {
                ++g_stats.assumedAway;
                kill(s);
                return X_KILLED;
            }
            addConstraint(s, c);
            s.model = m;
            return X_DONE;
        }
        if (n == "ys_reach")
        {
            if (!g_mergeDepth)
                ++g_reach[cstr(s, a[0])];
            return X_DONE;
        }
        if (n == "ys_observe")
        {
            s.obs.push_back(a[0]);
            return X_DONE;
        }
        if (n == "ys_param")
        {
            std::string k = cstr(s, a[0]);
            auto it = g_params.find(k);
            return ret(it == g_params.end() ? a[1] : mkConst(it->second, 64));
        }
        if (n == "ys_sym")
        {
            if (!isC(a[0]) || !isC(a[1]))
                throw Unsupported{"ys_sym with symbolic arguments"};
            u64 p = a[0]->val, len = a[1]->val;
            std::string nm = cstr(s, a[2]);
            Input inp;
            inp.name = nm;
            for (u64 i = 0; i < len; ++i)
            {
                u32 v;
                freshInput(s, nm + "[" + std::to_string(i) + "]", 8, v);
                inp.vars.push_back(v);
                writeByte(writable(s, u32((p + i) >> 32)), (p + i) & 0xFFFFFFFF, varExpr(v));
            }
            s.inputs.push_back(inp);
            return X_DONE;
        }
        if (n == "ys_u64" || n == "ys_u32" || n == "ys_u8" || n == "ys_u1")
        {
            unsigned w = n == "ys_u64" ? 64 : n == "ys_u32" ? 32 : n == "ys_u8" ? 8 : 1;
            Input inp;
            inp.name = cstr(s, a[0]);
            u32 v;
            freshInput(s, inp.name, w == 1 ? 8 : w, v);
            inp.vars.push_back(v);
            s.inputs.push_back(inp);
            E e = varExpr(v);
            if (w == 1)
                e = mkExtract(e, 0, 1);
            return ret(in.w > e->width ? mkZext(e, in.w) : e);
        }
        if (n == "ys_concrete")
        {
            u64 v = concretize(s, a[0]);
            if (s.dead)
                return X_KILLED;
            return ret(mkConst(v, a[0]->width));
        }
        if (n == "ys_part")
        {
            // The search is divided between processes by the value, which is
            // determined by the inputs.
            u64 v = concretize(s, a[0]);
            if (s.dead)
                return X_KILLED;
            v = (v + 1) * 0x9E3779B97F4A7C15ull;
            v ^= v >> 29;
            v *= 0xBF58476D1CE4E5B9ull;
            v ^= v >> 32;
            if (v % g_parts != g_part)
            {
                ++g_stats.otherParts;
                kill(s);
                return X_KILLED;
            }
            return X_DONE;
        }
        throw Unsupported{"unknown function " + n};
    }
    //------------------------------------------------------------- intrinsics
    if (n.compare(0, 5, "llvm.") == 0)
    {
        if (isIntrinsic(n, "llvm.memcpy") || isIntrinsic(n, "llvm.memmove"))
            return memCopy(s, a[0], a[1], a[2]);
        if (isIntrinsic(n, "llvm.memset"))
        {
            u64 len = concretize(s, a[2]);
            if (s.dead)
                return X_KILLED;
            if (!len)
                return X_DONE;
            u64 d;
            if (!access(s, a[0], len, true, d, nullptr))
                return X_KILLED;
            Obj& o = writable(s, u32(d >> 32));
            for (u64 i = 0; i < len; ++i)
                writeByte(o, (d & 0xFFFFFFFF) + i, a[1]);
            return X_DONE;
        }
        if (isIntrinsic(n, "llvm.expect"))
            return ret(a[0]);
        if (isIntrinsic(n, "llvm.is.constant"))
            return ret(mkFalse());
        if (isIntrinsic(n, "llvm.objectsize"))
            return ret(mkConst(~0ull, in.w));
        if (isIntrinsic(n, "llvm.abs"))
        {
            E x = a[0];
            E neg = mkBin(K_SLT, x, mkConst(0, x->width));
            E isMin = mkEq(x, mkConst(1ull << (x->width - 1), x->width));
            if (isC(a[1]) && a[1]->val)
            {
                require(s, mkNot(isMin), "undefined", "absolute value overflows");
                if (s.dead)
                    return X_KILLED;
            }
            return ret(mkIte(neg, mkNeg(x), x));
        }
        if (isIntrinsic(n, "llvm.umin"))
            return ret(mkIte(mkBin(K_ULT, a[0], a[1]), a[0], a[1]));
        if (isIntrinsic(n, "llvm.umax"))
            return ret(mkIte(mkBin(K_ULT, a[0], a[1]), a[1], a[0]));
        if (isIntrinsic(n, "llvm.smin"))
            return ret(mkIte(mkBin(K_SLT, a[0], a[1]), a[0], a[1]));
        if (isIntrinsic(n, "llvm.smax"))
            return ret(mkIte(mkBin(K_SLT, a[0], a[1]), a[1], a[0]));
        if (isIntrinsic(n, "llvm.uadd.with.overflow"))
        {
            E r = mkAdd(a[0], a[1]);
            res.push_back(r);
            return ret(mkBin(K_ULT, r, a[0]));
        }
        if (isIntrinsic(n, "llvm.usub.with.overflow"))
        {
            res.push_back(mkSub(a[0], a[1]));
            return ret(mkBin(K_ULT, a[0], a[1]));
        }
        if (isIntrinsic(n, "llvm.umul.with.overflow") && (isC(a[0]) || isC(a[1])))
        {
            E k = isC(a[1]) ? a[1] : a[0], x = isC(a[1]) ? a[0] : a[1];
            res.push_back(mkBin(K_MUL, x, k));
            if (!k->val)
                return ret(mkFalse());
            return ret(mkBin(K_ULT, mkConst(maskw(k->width) / k->val, k->width), x));
        }
        if (isIntrinsic(n, "llvm.sadd.with.overflow") || isIntrinsic(n, "llvm.ssub.with.overflow"))
        {
            bool add = isIntrinsic(n, "llvm.sadd");
            unsigned w = a[0]->width;
            E r = add ? mkAdd(a[0], a[1]) : mkSub(a[0], a[1]);
            E y = add ? a[1] : mkBin(K_XOR, a[1], mkConst(~0ull, w));
            E o = mkBin(K_AND, mkBin(K_XOR, a[0], r), mkBin(K_XOR, y, r));
            res.push_back(r);
            return ret(mkBin(K_SLT, o, mkConst(0, w)));
        }
        if (isIntrinsic(n, "llvm.ctlz") || isIntrinsic(n, "llvm.cttz") || isIntrinsic(n, "llvm.ctpop"))
        {
            unsigned w = a[0]->width;
            bool lz = isIntrinsic(n, "llvm.ctlz"), pop = isIntrinsic(n, "llvm.ctpop");
            E r = mkConst(pop ? 0 : w, w);
            for (unsigned k = 0; k < w; ++k)
            {
                unsigned bit = lz ? k : w - 1 - k;
                E b = mkExtract(a[0], bit, 1);
                r = pop ? mkAdd(r, mkZext(b, w)) : mkIte(b, mkConst(lz ? w - 1 - bit : bit, w), r);
            }
            return ret(r);
        }
        if (isIntrinsic(n, "llvm.bswap"))
        {
            E r = nullptr;
            for (unsigned k = 0; k < a[0]->width / 8; ++k)
            {
                E b = mkExtract(a[0], a[0]->width - 8 * (k + 1), 8);
                r = r ? mkConcat(b, r) : b;
            }
            return ret(r);
        }
        if (isIntrinsic(n, "llvm.fshl") || isIntrinsic(n, "llvm.fshr"))
        {
            if (!isC(a[2]))
                throw Unsupported{n};
            unsigned w = a[0]->width, k = unsigned(a[2]->val % w);
            if (k == 0)
                return ret(isIntrinsic(n, "llvm.fshl") ? a[0] : a[1]);
            if (isIntrinsic(n, "llvm.fshr"))
                k = w - k;
            return ret(mkBin(K_OR, mkBin(K_SHL, a[0], mkConst(k, w)), mkBin(K_LSHR, a[1], mkConst(w - k, w))));
        }
        if (isIntrinsic(n, "llvm.eh.typeid.for"))
        {
            auto* c = dyn_cast<Constant>(cast<CallBase>(in.I)->getArgOperand(0));
            return ret(mkConst(u64(typeIndex(c->getName().str())), 32));
        }
        if (isIntrinsic(n, "llvm.trap") || isIntrinsic(n, "llvm.ubsantrap"))
        {
            require(s, mkFalse(), "undefined", "trap");
            return X_KILLED;
        }
        if (isIntrinsic(n, "llvm.stacksave"))
            return ret(mkConst(0, 64));
        if (isIntrinsic(n, "llvm.stackrestore"))
            return X_DONE;
        if (isIntrinsic(n, "llvm.threadlocal.address"))
            return ret(a[0]);
        if (isIntrinsic(n, "llvm.ceil") || isIntrinsic(n, "llvm.floor") || isIntrinsic(n, "llvm.fabs"))
        {
            if (!isC(a[0]) || a[0]->undef)
                throw Unsupported{"symbolic floating point"};
            double x = toDouble(a[0]);
            return ret(fromDouble(isIntrinsic(n, "llvm.ceil") ? ceil(x) : isIntrinsic(n, "llvm.floor") ? floor(x) : fabs(x), a[0]->width));
        }
        throw Unsupported{n};
    }
    //----------------------------------------------------------------- memory
    if (n == "memcpy" || n == "memmove")
    {
        ExtResult r = memCopy(s, a[0], a[1], a[2]);
        if (r == X_DONE)
            res.push_back(a[0]);
        return r;
    }
    if (n == "memset")
    {
        u64 len = concretize(s, a[2]);
        if (s.dead)
            return X_KILLED;
        u64 d;
        if (len && !access(s, a[0], len, true, d, nullptr))
            return X_KILLED;
        if (len)
        {
            Obj& o = writable(s, u32(d >> 32));
            for (u64 i = 0; i < len; ++i)
                writeByte(o, (d & 0xFFFFFFFF) + i, mkResize(a[1], 8));
        }
        return ret(a[0]);
    }
    if (n == "memcmp" || n == "bcmp")
    {
        u64 len = concretize(s, a[2]);
        if (s.dead)
            return X_KILLED;
        if (!len)
            return ret(mkConst(0, 32));
        u64 p, q;
        if (!access(s, a[0], len, false, p, nullptr) || !access(s, a[1], len, false, q, nullptr))
            return X_KILLED;
        E r = mkConst(0, 32);
        for (u64 i = len; i-- > 0;)
        {
            E x = byteAt(s, p + i), y = byteAt(s, q + i);
            r = mkIte(mkEq(x, y), r, mkIte(mkBin(K_ULT, x, y), mkConst(~0ull, 32), mkConst(1, 32)));
        }
        return ret(r);
    }
    if (n == "memchr")
    {
        u64 len = concretize(s, a[2]);
        if (s.dead)
            return X_KILLED;
        for (u64 i = 0; i < len; ++i)
        {
            u64 p;
            if (!access(s, mkAdd(a[0], mkConst(i, 64)), 1, false, p, nullptr))
                return X_KILLED;
            bool eq = decide(s, mkEq(byteAt(s, p), mkResize(a[1], 8)));
            if (s.dead)
                return X_KILLED;
            if (eq)
                return ret(mkConst(p, 64));
        }
        return ret(mkConst(0, 64));
    }
    if (n == "strlen")
    {
        for (u64 i = 0;; ++i)
        {
            u64 p;
            if (!access(s, mkAdd(a[0], mkConst(i, 64)), 1, false, p, nullptr))
                return X_KILLED;
            bool z = decide(s, mkEq(byteAt(s, p), mkConst(0, 8)));
            if (s.dead)
                return X_KILLED;
            if (z)
                return ret(mkConst(i, 64));
        }
    }
    if (n == "calloc")
    {
        u64 len = concretize(s, a[0]), k = s.dead ? 0 : concretize(s, a[1]);
        if (s.dead)
            return X_KILLED;
        if (k && len > (1u << 28) / k)
            return ret(mkConst(0, 64));
        return ret(mkConst(newObj(s, len * k, OB_MALLOC, false), 64));
    }
    if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t"
        || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t")
    {
        u64 len = concretize(s, a[0]);
        if (s.dead)
            return X_KILLED;
        if (len > (1u << 28))
        {
            if (n[0] == 'm')
                return ret(mkConst(0, 64));
            raise(s, newException(s, "_ZTISt9bad_alloc"));
            return X_RAISED;
        }
        return ret(mkConst(newObj(s, len, n == "malloc" ? OB_MALLOC : n.compare(0, 5, "_Znwm") == 0 ? OB_NEW : OB_NEWARR), 64));
    }
    if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm"
        || isIntrinsic(n, "_ZdlPvSt11align") || isIntrinsic(n, "_ZdlPvmSt11align") || isIntrinsic(n, "_ZdaPvSt11align")
        || isIntrinsic(n, "_ZdaPvmSt11align") || isIntrinsic(n, "_ZdlPvRKSt9nothrow") || isIntrinsic(n, "_ZdaPvRKSt9nothrow"))
    {
        u64 p = concretize(s, a[0]);
        if (s.dead)
            return X_KILLED;
        if (!p)
            return X_DONE;
        u32 id = u32(p >> 32);
        if (id < g_globals.size() && objSlot(s, id) && p < FN_BASE && !(p & 0xFFFFFFFF))
            if (g_concolic)
                throw MergeAbort();
            else
                s.globalOver.emplace(id, g_globals[id]); // made by a static initialiser
        ObjRef& o = objSlot(s, id);
        ObjKind want = n == "free" ? OB_MALLOC : n.compare(0, 5, "_ZdlP") == 0 ? OB_NEW : OB_NEWARR;
        if ((p & 0xFFFFFFFF) || p >= FN_BASE || !o || o->kind != want)
        {
            require(s, mkFalse(), "memory", "invalid free");
            return X_KILLED;
        }
        o = nullptr;
        return X_DONE;
    }
    //------------------------------------------------------------- exceptions
    if (n == "__cxa_allocate_exception")
        return ret(mkConst(newObj(s, std::max<u64>(64, concretize(s, a[0])), OB_EXC, false), 64));
    if (n == "__cxa_free_exception")
        return X_DONE;
    if (n == "__cxa_throw")
    {
        if (g_mergeDepth || g_concolic)
            throw MergeAbort();
        u64 p = a[0]->val;
        auto* c = dyn_cast<Constant>(cast<CallBase>(in.I)->getArgOperand(1));
        writable(s, u32(p >> 32)).excType = typeIndex(c->getName().str());
        raise(s, p);
        return X_RAISED;
    }
    if (n == "__cxa_begin_catch")
    {
        s.caught.push_back(a[0]->val);
        return ret(a[0]);
    }
    if (n == "__cxa_end_catch")
    {
        if (!s.caught.empty())
            s.caught.pop_back();
        return X_DONE;
    }
    if (n == "__cxa_rethrow")
    {
        if (s.caught.empty())
        {
            require(s, mkFalse(), "exception", "rethrow without an exception");
            return X_KILLED;
        }
        raise(s, s.caught.back());
        return X_RAISED;
    }
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "_ZSt21__glibcxx_assert_failPKciS0_S0_"
        || n == "exit" || n == "_exit" || n == "__cxa_pure_virtual" || n == "__clang_call_terminate")
    {
        require(s, mkFalse(), "abort", "the program is terminated by " + demangle(n));
        return X_KILLED;
    }
    {
        static const std::pair<const char*, const char*> throwers[] = {
            {"_ZSt20__throw_length_error", "_ZTISt12length_error"},
            {"_ZSt20__throw_out_of_range", "_ZTISt12out_of_range"},
            {"_ZSt24__throw_out_of_range_fmt", "_ZTISt12out_of_range"},
            {"_ZSt19__throw_logic_error", "_ZTISt11logic_error"},
            {"_ZSt24__throw_invalid_argument", "_ZTISt16invalid_argument"},
            {"_ZSt20__throw_domain_error", "_ZTISt12domain_error"},
            {"_ZSt21__throw_runtime_error", "_ZTISt13runtime_error"},
            {"_ZSt20__throw_range_error", "_ZTISt11range_error"},
            {"_ZSt17__throw_bad_alloc", "_ZTISt9bad_alloc"},
            {"_ZSt28__throw_bad_array_new_length", "_ZTISt20bad_array_new_length"},
            {"_ZSt25__throw_bad_function_call", "_ZTISt17bad_function_call"},
            {"_ZSt16__throw_bad_cast", "_ZTISt8bad_cast"},
            {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}};
        for (auto& [p, t] : throwers)
            if (isIntrinsic(n, p))
            {
                raise(s, newException(s, t));
                return X_RAISED;
            }
    }
    // Standard exception classes: the message is not modelled.
    if (isIntrinsic(n, "_ZNSt13runtime_errorC") || isIntrinsic(n, "_ZNSt13runtime_errorD")
        || isIntrinsic(n, "_ZNSt11logic_errorC") || isIntrinsic(n, "_ZNSt11logic_errorD")
        || isIntrinsic(n, "_ZNSt16invalid_argument") || isIntrinsic(n, "_ZNSt12out_of_range")
        || isIntrinsic(n, "_ZNSt12length_error") || isIntrinsic(n, "_ZNSt12domain_error")
        || isIntrinsic(n, "_ZNSt11range_error") || isIntrinsic(n, "_ZNSt14overflow_error")
        || isIntrinsic(n, "_ZNSt9exceptionD"))
        return X_DONE;
    if (n == "_ZSt18uncaught_exceptionv" || n == "_ZSt19uncaught_exceptionsv")
        return ret(mkConst(0, in.w));
    if (n == "__cxa_atexit")
        return ret(mkConst(0, 32));
    if (n == "__cxa_guard_acquire")
    {
        u64 p;
        if (!access(s, a[0], 1, false, p, nullptr))
            return X_KILLED;
        return ret(mkZext(mkEq(byteAt(s, p), mkConst(0, 8)), 32));
    }
    if (n == "__cxa_guard_release")
    {
        u64 p;
        if (!access(s, a[0], 1, true, p, nullptr))
            return X_KILLED;
        writeByte(writable(s, u32(p >> 32)), p & 0xFFFFFFFF, mkConst(1, 8));
        return X_DONE;
    }
    if (n == "abs" || n == "labs" || n == "llabs")
    {
        E x = a[0];
        require(s, mkNot(mkEq(x, mkConst(1ull << (x->width - 1), x->width))), "undefined", "absolute value overflows");
        if (s.dead)
            return X_KILLED;
        return ret(mkIte(mkBin(K_SLT, x, mkConst(0, x->width)), mkNeg(x), x));
    }
    if (a.size() == 1)
        if (E r = ctype(n, a[0]))
            return ret(r);
    throw Unsupported{"call of " + demangle(n)};
}

static E binop(State& s, const Ins& in, E x, E y)
{
    unsigned w = in.w;
    auto ovf = [&](E r, E yy)
    {
        E o = mkBin(K_AND, mkBin(K_XOR, x, r), mkBin(K_XOR, yy, r));
        return mkBin(K_SLT, o, mkConst(0, w));
    };
    auto undef = [&](E ok, const char* msg) { require(s, ok, "undefined", msg); };
    switch (in.sub)
    {
    case Instruction::Add:
    {
        E r = mkAdd(x, y);
        if (in.nsw && !r->undef)
            undef(mkNot(ovf(r, y)), "signed overflow in addition");
        return r;
    }
    case Instruction::Sub:
    {
        E r = mkSub(x, y);
        if (in.nsw && !r->undef)
            undef(mkNot(ovf(r, mkBin(K_XOR, y, mkConst(~0ull, w)))), "signed overflow in subtraction");
        return r;
    }
    case Instruction::Mul:
    {
        E r = mkBin(K_MUL, x, y);
        if (in.nsw && !r->undef)
        {
            if (isC(x))
                std::swap(x, y);
            if (isC(y))
            {
                i64 k = sx(y->val, w);
                if (isC(x))
                {
                    __int128 p = __int128(sx(x->val, w)) * k;
                    undef(mkConst(p == sx(u64(p) & maskw(w), w), 1), "signed overflow in multiplication");
                }
                else if (k > 0)
                {
                    i64 hi = sx(maskw(w - 1), w) / k, lo = sx(1ull << (w - 1), w) / k;
                    undef(mkAnd(mkBin(K_SLE, x, mkConst(u64(hi), w)), mkBin(K_SLE, mkConst(u64(lo), w), x)),
                          "signed overflow in multiplication");
                }
                else if (k == -1)
                    undef(mkNot(mkEq(x, mkConst(1ull << (w - 1), w))), "signed overflow in multiplication");
                else if (k)
                    throw Unsupported{"signed multiplication"};
            }
            else if (w <= 32)
            {
                E p = mkBin(K_MUL, mkSext(x, 64), mkSext(y, 64));
                undef(mkEq(p, mkSext(mkExtract(p, 0, w), 64)), "signed overflow in multiplication");
            }
            else
                throw Unsupported{"signed multiplication"};
        }
        return r;
    }
    case Instruction::UDiv: undef(mkNot(mkEq(y, mkConst(0, w))), "division by zero"); return mkBin(K_UDIV, x, y);
    case Instruction::URem: undef(mkNot(mkEq(y, mkConst(0, w))), "division by zero"); return mkBin(K_UREM, x, y);
    case Instruction::SDiv:
    case Instruction::SRem:
        undef(mkNot(mkEq(y, mkConst(0, w))), "division by zero");
        if (s.dead)
            return x;
        if (!isC(y) || y->val == maskw(w))
            undef(mkNot(mkAnd(mkEq(y, mkConst(~0ull, w)), mkEq(x, mkConst(1ull << (w - 1), w)))),
                  "signed overflow in division");
        if (isC(y) && sx(y->val, w) > 0 && (y->val & (y->val - 1)) == 0 && in.sub == Instruction::SDiv)
        {
            // Division by a power of two of a (usually exact) difference.
            unsigned k = unsigned(__builtin_ctzll(y->val));
            if (k == 0)
                return x;
            E sign = mkBin(K_LSHR, mkBin(K_ASHR, x, mkConst(w - 1, w)), mkConst(w - k, w));
            return mkBin(K_ASHR, mkAdd(x, sign), mkConst(k, w));
        }
        return mkBin(in.sub == Instruction::SDiv ? K_SDIV : K_SREM, x, y);
    case Instruction::Shl:
    case Instruction::LShr:
    case Instruction::AShr:
        if (!isC(y) || y->val >= w)
        {
            undef(mkBin(K_ULT, y, mkConst(w, w)), "shift amount too large");
            if (s.dead)
                return x;
        }
        return mkBin(in.sub == Instruction::Shl ? K_SHL : in.sub == Instruction::LShr ? K_LSHR : K_ASHR, x, y);
    case Instruction::And: return mkBin(K_AND, x, y);
    case Instruction::Or: return mkBin(K_OR, x, y);
    case Instruction::Xor: return mkBin(K_XOR, x, y);
    }
    throw Unsupported{"operator"};
}

static E icmp(unsigned p, E x, E y)
{
    switch (p)
    {
    case CmpInst::ICMP_EQ: return mkEq(x, y);
    case CmpInst::ICMP_NE: return mkNot(mkEq(x, y));
    case CmpInst::ICMP_ULT: return mkBin(K_ULT, x, y);
    case CmpInst::ICMP_ULE: return mkBin(K_ULE, x, y);
    case CmpInst::ICMP_UGT: return mkBin(K_ULT, y, x);
    case CmpInst::ICMP_UGE: return mkBin(K_ULE, y, x);
    case CmpInst::ICMP_SLT: return mkBin(K_SLT, x, y);
    case CmpInst::ICMP_SLE: return mkBin(K_SLE, x, y);
    case CmpInst::ICMP_SGT: return mkBin(K_SLT, y, x);
    default: return mkBin(K_SLE, y, x);
    }
}

// After a call instruction has produced its results.
static void finishCall(State& s, const Ins& in, const std::vector<E>& res)
{
    for (u32 i = 0; i < in.n && i < res.size(); ++i)
        setReg(s, in.dst + i, res[i]);
    if (in.isInvoke)
        jump(s, in.succ[0]);
    else
        ++s.frames.back().ip;
}

static std::unordered_map<int, std::pair<bool, std::string>> g_toString;

// Executes one instruction. Returns true when the frame at depth base has
// returned, with its results in g_retVals.
static std::vector<E> g_retVals;

static bool stepIns(State& s, size_t base)
{
    Frame& f = s.frames.back();
    Blk& blk = f.fn->blocks[f.block];
    const Ins& in = blk.ins[f.ip];
    ++s.steps;
    ++g_stats.steps;
    switch (in.op)
    {
    case O_ALLOCA:
    {
        u64 n = in.o[0].c ? in.o[0].c->val : concretize(s, val(s, in.o[0]));
        if (s.dead)
            return false;
        u64 a = newObj(s, in.imm[0] * n, OB_STACK);
        s.allocas.push_back(u32(a >> 32));
        setReg(s, in.dst, mkConst(a, 64));
        ++f.ip;
        return false;
    }
    case O_LOAD:
    {
        u64 a;
        E off = nullptr;
        E addr = val(s, in.o[0]);
        if (!access(s, addr, in.imm[0], false, a, in.n == 1 ? &off : nullptr))
            return false;
        if (off)
        {
            E r = lookup(s, u32(a >> 32), off, in.mem.widths[0]);
            if (!r)
            {
                u64 c = concretize(s, addr);
                if (s.dead)
                    return false;
                r = readObj(s, u32(c >> 32), c & 0xFFFFFFFF, in.mem.widths[0]);
            }
            setReg(s, in.dst, r);
            ++f.ip;
            return false;
        }
        for (u32 i = 0; i < in.n; ++i)
            setReg(s, in.dst + i, readObj(s, u32(a >> 32), (a & 0xFFFFFFFF) + in.mem.offsets[i], in.mem.widths[i]));
        ++f.ip;
        return false;
    }
    case O_STORE:
    {
        u64 a;
        if (!access(s, val(s, in.o[0]), in.imm[0], true, a, nullptr))
            return false;
        Obj& o = writable(s, u32(a >> 32));
        for (u32 i = 0; i < in.mem.widths.size(); ++i)
            writeObj(o, (a & 0xFFFFFFFF) + in.mem.offsets[i], val(s, in.o[i + 1]));
        ++f.ip;
        return false;
    }
    case O_GEP:
    {
        E p = val(s, in.o[0]);
        if (in.imm[0])
            p = mkAdd(p, mkConst(in.imm[0], 64));
        for (size_t k = 1; k < in.o.size(); ++k)
        {
            E i = val(s, in.o[k]);
            i = i->width < 64 ? mkSext(i, 64) : i;
            p = mkAdd(p, mkBin(K_MUL, i, mkConst(in.imm[k], 64)));
        }
        setReg(s, in.dst, p);
        ++f.ip;
        return false;
    }
    case O_ICMP:
        setReg(s, in.dst, icmp(in.sub, val(s, in.o[0]), val(s, in.o[1])));
        ++f.ip;
        return false;
    case O_BIN:
    {
        E r = binop(s, in, val(s, in.o[0]), val(s, in.o[1]));
        if (s.dead)
            return false;
        setReg(s, in.dst, r);
        ++f.ip;
        return false;
    }
    case O_CAST:
    {
        E x = val(s, in.o[0]);
        E r = in.sub == Instruction::SExt ? mkSext(x, in.w) : mkResize(x, in.w);
        setReg(s, in.dst, r);
        ++f.ip;
        return false;
    }
    case O_SELECT:
    {
        E c = val(s, in.o[0]);
        if (in.sub && in.n == 1 && !c->undef)
        {
            setReg(s, in.dst, mkIte(c, val(s, in.o[1]), val(s, in.o[2])));
        }
        else
        {
            bool t = decide(s, c);
            if (s.dead)
                return false;
            for (u32 i = 0; i < in.n; ++i)
                setReg(s, in.dst + i, val(s, in.o[1 + i + (t ? 0 : in.n)]));
        }
        ++f.ip;
        return false;
    }
    case O_FLOAT:
        setReg(s, in.dst, floatOp(*in.I, val(s, in.o[0]), val(s, in.o.back())));
        ++f.ip;
        return false;
    case O_ATOMIC:
    {
        u64 p;
        unsigned n = in.w / 8;
        if (!access(s, val(s, in.o[0]), n, true, p, nullptr))
            return false;
        E old = readObj(s, u32(p >> 32), p & 0xFFFFFFFF, in.w);
        E x = val(s, in.o[1]), res = nullptr;
        if (in.sub == 255)
        {
            E same = mkEq(old, val(s, in.o[2]));
            res = mkIte(same, x, old);
            setReg(s, in.dst + 1, same);
        }
        else
            switch (in.sub)
            {
            case AtomicRMWInst::Xchg: res = x; break;
            case AtomicRMWInst::Add: res = mkAdd(old, x); break;
            case AtomicRMWInst::Sub: res = mkSub(old, x); break;
            case AtomicRMWInst::And: res = mkBin(K_AND, old, x); break;
            case AtomicRMWInst::Or: res = mkBin(K_OR, old, x); break;
            case AtomicRMWInst::Xor: res = mkBin(K_XOR, old, x); break;
            default: throw Unsupported{"atomic operation"};
            }
        setReg(s, in.dst, old);
        Obj& o = writable(s, u32(p >> 32));
        for (unsigned i = 0; i < n; ++i)
            writeByte(o, (p & 0xFFFFFFFF) + i, mkExtract(res, 8 * i, 8));
        ++f.ip;
        return false;
    }
    case O_FREEZE:
        for (u32 i = 0; i < in.n; ++i)
        {
            E x = val(s, in.o[i]);
            setReg(s, in.dst + i, x->undef ? mkConst(0, x->width) : x);
        }
        ++f.ip;
        return false;
    case O_COPY:
    {
        std::vector<E> t;
        for (auto& o : in.o)
            t.push_back(val(s, o));
        for (u32 i = 0; i < in.n; ++i)
            setReg(s, in.dst + i, t[i]);
        ++f.ip;
        return false;
    }
    case O_BR:
        jump(s, in.succ[0]);
        return false;
    case O_CONDBR:
    {
        bool t = decide(s, val(s, in.o[0]));
        if (s.dead)
            return false;
        jump(s, in.succ[t ? 0 : 1]);
        return false;
    }
    case O_SWITCH:
    {
        E c = val(s, in.o[0]);
        if (isC(c))
        {
            u32 to = in.succ[0];
            for (size_t i = 0; i < in.imm.size(); ++i)
                if (in.imm[i] == c->val)
                {
                    to = in.succ[i + 1];
                    break;
                }
            jump(s, to);
            return false;
        }
        // One decision for each destination.
        std::vector<u32> order;
        std::map<u32, E> conds;
        E any = mkFalse();
        for (size_t i = 0; i < in.imm.size(); ++i)
        {
            E e = mkEq(c, mkConst(in.imm[i], c->width));
            any = mkOr(any, e);
            auto it = conds.find(in.succ[i + 1]);
            if (it == conds.end())
            {
                order.push_back(in.succ[i + 1]);
                conds[in.succ[i + 1]] = e;
            }
            else
                it->second = mkOr(it->second, e);
        }
        for (u32 d : order)
        {
            if (d == in.succ[0])
                continue;
            bool t = decide(s, conds[d]);
            if (s.dead)
                return false;
            if (t)
            {
                jump(s, d);
                return false;
            }
        }
        jump(s, in.succ[0]);
        return false;
    }
    case O_UNREACHABLE:
        require(s, mkFalse(), "undefined", "unreachable code is reached");
        return false;
    case O_RET:
    {
        std::vector<E> r;
        for (auto& o : in.o)
            r.push_back(val(s, o));
        const Ins* call = f.call;
        popFrame(s);
        if (s.frames.size() == base)
        {
            g_retVals = r;
            return true;
        }
        finishCall(s, *call, r);
        return false;
    }
    case O_RESUME:
    {
        E p = val(s, in.o[0]);
        u64 addr = p->val;
        // Continue in the caller.
        if (s.frames.size() == 1)
        {
            report(s, "exception", "exception escapes", *s.model);
            kill(s);
            return false;
        }
        popFrame(s);
        raise(s, addr);
        return false;
    }
    case O_LANDINGPAD:
        throw Unsupported{"landing pad reached by a jump"};
    case O_UNSUPPORTED:
    {
        std::string t;
        raw_string_ostream os(t);
        in.I->print(os);
        throw Unsupported{"instruction " + t.substr(0, 100)};
    }
    case O_CALL:
        break;
    }
    // Calls
    std::vector<E> args;
    size_t nargs = in.o.size() - (in.ext == -2 ? 1 : 0);
    args.reserve(nargs);
    for (size_t i = 0; i < nargs; ++i)
        args.push_back(val(s, in.o[i]));
    Fn* callee = in.callee;
    std::string extName;
    if (in.ext == -2)
    {
        u64 a = concretize(s, val(s, in.o.back()));
        if (s.dead)
            return false;
        callee = nullptr;
        for (auto& [fp, ad] : g_fnAddr)
            if (ad == a)
            {
                auto it = g_fnOf.find(fp);
                if (it != g_fnOf.end())
                    callee = it->second;
                else
                    extName = fp->getName().str();
            }
        if (!callee && extName.empty())
        {
            require(s, mkFalse(), "memory", "call through an invalid function pointer");
            return false;
        }
    }
    else if (!callee)
        extName = g_extNames[size_t(in.ext)];

    if (callee && callee->pretty.compare(0, 20, "std::__cxx11::to_str") == 0 && args.size() == 2)
    {
        // Only exact when the number is known; the texts of exceptions, which
        // no property is about, are the only users with unknown numbers.
        std::string t = "?";
        if (isC(args[1]))
            t = callee->name.back() == 'i' || callee->name.back() == 'l' || callee->name.back() == 'x'
                    ? std::to_string(sx(args[1]->val, args[1]->width)) : std::to_string(args[1]->val);
        if (!makeString(s, args[0], t))
            return false;
        finishCall(s, in, {});
        return false;
    }
    if (!callee)
    {
        if (auto* mf = M->getFunction("ys_model_" + extName))
        {
            callee = g_fnOf[mf];
        }
        else
        {
            std::vector<E> res;
            switch (callExternal(s, extName, in, args, res))
            {
            case X_DONE:
                finishCall(s, in, res);
                break;
            default: break;
            }
            return false;
        }
    }
    bool anySym = false;
    for (E e : args)
        anySym |= !isC(e);
    if (callee->appOk && anySym && g_useApps)
    {
        bool undef = false;
        for (E e : args)
            undef |= e->undef;
        E r;
        if (!undef && runApp(s, *callee, args, r))
        {
            finishCall(s, in, {r});
            return false;
        }
    }
    if (callee->mergeOk && g_useMerge && !g_concolic)
    {
        E r;
        if (mergeCall(s, *callee, args, r))
        {
            if (s.dead)
                return false;
            finishCall(s, in, {r});
            return false;
        }
    }
    // byval arguments are copies.
    for (size_t k = 0; k < in.byval.size(); ++k)
    {
        if (!in.byval[k])
            continue;
        u64 c = newObj(s, in.byval[k], OB_STACK);
        s.allocas.push_back(u32(c >> 32));
        memCopy(s, mkConst(c, 64), args[in.argStart[k]], mkConst(in.byval[k], 64));
        if (s.dead)
            return false;
        args[in.argStart[k]] = mkConst(c, 64);
    }
    if (s.frames.size() > 400)
    {
        require(s, mkFalse(), "hang", "recursion too deep");
        return false;
    }
    pushFrame(s, *callee, args, &in);
    return false;
}

//////////////////////////////////////////////////////////////////////////////
// Functions of integers only: applications, and leaves found on demand

static u64 concreteCall(Fn& fn, const u64* a)
{
    State s;
    s.model = std::make_shared<std::vector<u64>>(MAX_VARS);
    std::vector<E> args;
    for (size_t i = 0; i < fn.argWidth.size(); ++i)
        args.push_back(mkConst(a[i], fn.argWidth[i]));
    bool oldC = g_concolic;
    Work w, *old = g_work;
    g_work = &w;
    g_concolic = true;
    u64 r = 0;
    try
    {
        pushFrame(s, fn, args, nullptr);
        while (!s.dead)
        {
            if (stepIns(s, 0))
            {
                if (!isC(g_retVals[0]))
                    throw MergeAbort();
                r = g_retVals[0]->val;
                break;
            }
            if (s.steps > g_maxSteps)
                throw MergeAbort();
        }
        if (s.dead)
            throw MergeAbort();
    }
    catch (MergeAbort&)
    {
        throw AppFailure{fn.index};
    }
    g_work = old;
    g_concolic = oldC;
    return r;
}

u64 evalApp(u32 idx, const u64* args)
{
    Fn& fn = *g_fns[idx];
    u64 h = args[0] * 0x9E3779B97F4A7C15ull ^ args[1] * 0xC2B2AE3D27D4EB4Full ^ args[2];
    auto& bucket = fn.memo[h];
    for (auto& [k, v] : bucket)
        if (k[0] == args[0] && k[1] == args[1] && k[2] == args[2])
            return v;
    std::array<u64, 3> key{args[0], args[1], args[2]};
    u64 r = concreteCall(fn, key.data());
    fn.memo[h].push_back({key, r});
    return r;
}

// The same conditions, with those that bound a term joined into an interval.
static std::vector<E> tighten(const std::vector<E>& pc)
{
    struct Range { u64 lo, hi; };
    std::vector<E> order, rest;
    std::unordered_map<E, Range> ranges;
    auto bound = [&](E t, u64 lo, u64 hi)
    {
        auto it = ranges.find(t);
        if (it == ranges.end())
        {
            order.push_back(t);
            ranges[t] = {lo, hi};
            return;
        }
        it->second.lo = std::max(it->second.lo, lo);
        it->second.hi = std::min(it->second.hi, hi);
    };
    for (E e : pc)
    {
        bool neg = e->kind == K_NOT;
        E c = neg ? e->a : e;
        if (!c->a || c->a->width == 1)
        {
            rest.push_back(e);
            continue;
        }
        u64 max = maskw(c->a->width);
        if (c->kind == K_ULE || c->kind == K_ULT)
        {
            bool strict = c->kind == K_ULT;
            E x = c->a, y = c->b;
            if (neg) // not (x <= y) is y < x
            {
                std::swap(x, y);
                strict = !strict;
            }
            if (isC(y) && !isC(x) && !(strict && y->val == 0))
            {
                bound(x, 0, y->val - strict);
                continue;
            }
            if (isC(x) && !isC(y) && !(strict && x->val == max))
            {
                bound(y, x->val + strict, max);
                continue;
            }
        }
        if (c->kind == K_EQ && !neg && isC(c->b))
        {
            bound(c->a, c->b->val, c->b->val);
            continue;
        }
        rest.push_back(e);
    }
    std::vector<E> r;
    for (E x : order)
    {
        auto [lo, hi] = ranges[x];
        if (lo == hi)
        {
            r.push_back(mkEq(x, mkConst(lo, x->width)));
            continue;
        }
        if (lo > 0)
            r.push_back(mkBin(K_ULE, mkConst(lo, x->width), x));
        if (hi < maskw(x->width))
            r.push_back(mkBin(K_ULE, x, mkConst(hi, x->width)));
    }
    r.insert(r.end(), rest.begin(), rest.end());
    return r;
}

static const Leaf* leafFor(u32 idx, const u64* argsIn)
{
    Fn& fn = *g_fns[idx];
    std::array<u64, 3> args{argsIn[0], argsIn[1], argsIn[2]};
    u64 saved[8];
    memcpy(saved, g_formals, sizeof saved);
    for (int i = 0; i < 3; ++i)
        g_formals[i] = args[i];
    ++g_epoch;
    for (size_t k = 0; k < fn.leaves.size(); ++k)
    {
        Leaf* l = fn.leaves[k];
        bool in = true;
        for (E e : l->region)
            if (!evalE(e))
            {
                in = false;
                break;
            }
        if (in)
        {
            memcpy(g_formals, saved, sizeof saved);
            ++g_epoch;
            // The latest first.
            std::swap(fn.leaves[k], fn.leaves[0]);
            return l;
        }
    }
    State s;
    s.model = std::make_shared<std::vector<u64>>(MAX_VARS);
    std::vector<E> formals;
    for (size_t i = 0; i < fn.argWidth.size(); ++i)
        formals.push_back(mkFormal(unsigned(i), fn.argWidth[i]));
    bool oldC = g_concolic;
    Work w, *old = g_work;
    g_work = &w;
    g_concolic = true;
    auto* leaf = new Leaf;
    try
    {
        pushFrame(s, fn, formals, nullptr);
        while (!s.dead)
        {
            if (stepIns(s, 0))
                break;
            if (s.steps > g_maxSteps)
                throw MergeAbort();
        }
        if (s.dead)
            throw MergeAbort();
    }
    catch (MergeAbort&)
    {
        g_work = old;
        g_concolic = oldC;
        memcpy(g_formals, saved, sizeof saved);
        ++g_epoch;
        throw AppFailure{idx};
    }
    g_work = old;
    g_concolic = oldC;
    leaf->region = tighten(s.pc);
    leaf->result = g_retVals[0];
    memcpy(g_formals, saved, sizeof saved);
    ++g_epoch;
    fn.leaves.push_back(leaf);
    return leaf;
}

// The interval that a leaf consists of, if it is one, and nothing else.
static bool leafInterval(const Leaf* l, u64& lo, u64& hi)
{
    E f = nullptr;
    for (E e : l->region)
    {
        if ((e->kind != K_ULE && e->kind != K_ULT && e->kind != K_EQ) || !e->a)
            return false;
        E x = isC(e->a) ? e->b : e->a, c = isC(e->a) ? e->a : e->b;
        if (x->kind != K_FORMAL || !isC(c) || (f && f != x))
            return false;
        f = x;
        if (e->kind == K_EQ)
        {
            lo = std::max(lo, c->val);
            hi = std::min(hi, c->val);
        }
        else if (x == e->a)
            hi = std::min(hi, c->val - (e->kind == K_ULT));
        else
            lo = std::max(lo, c->val + (e->kind == K_ULT));
    }
    return true;
}

// Tabulates a function of one integer from its leaves.
static FnTable* makeTable(u32 idx, bool delta)
{
    auto* t = new FnTable;
    Fn& fn = *g_fns[idx];
    unsigned w = fn.argWidth[0];
    if (fn.argWidth.size() != 1 || w < 16 || (delta && fn.retWidth != w))
        return t;
    const u64 n = 1u << 21, max = std::min<u64>(maskw(w), n - 1);
    std::vector<u32> ids(n);
    std::unordered_map<u64, u32> terms;
    t->delta = delta;
    // Values and changes are 0 where nothing is known.
    auto term = [&](u64 v)
    {
        auto [i, f] = terms.try_emplace(v, u32(terms.size()));
        if (f)
            t->terminals.push_back(v);
        return i->second;
    };
    term(0);
    u64 saved[8];
    memcpy(saved, g_formals, sizeof saved);
    u64 args[3] = {0, 0, 0};
    auto valueAt = [&](const Leaf* l, u64 x)
    {
        g_formals[0] = x;
        ++g_epoch;
        return evalE(l->result);
    };
    try
    {
        for (u64 x = 0; x <= max;)
        {
            args[0] = x;
            auto* l = leafFor(idx, args);
            u64 lo = 0, hi = maskw(w);
            bool flat = leafInterval(l, lo, hi) && hi >= x
                        && (isC(l->result) || l->result->kind == K_FORMAL
                            || (l->result->kind == K_ADD && l->result->a->kind == K_FORMAL && isC(l->result->b)));
            u64 end = flat ? std::min(hi, max) : x;
            bool constant = isC(l->result);
            u64 v = valueAt(l, x);
            for (u64 y = x; y <= end; ++y)
            {
                u64 val = flat ? (constant ? v : (v + (y - x)) & maskw(w)) : v;
                t->max = std::max(t->max, val);
                ids[y] = term(t->delta ? (val - y) & maskw(w) : val);
            }
            x = end + 1;
            if (t->terminals.size() > 5000)
                throw AppFailure{idx};
        }
    }
    catch (AppFailure&)
    {
        memcpy(g_formals, saved, sizeof saved);
        ++g_epoch;
        return t;
    }
    memcpy(g_formals, saved, sizeof saved);
    ++g_epoch;
    u32 T = u32(t->terminals.size());
    t->roots[0] = ids[0];
    std::unordered_map<u64, u32> memo;
    for (unsigned bit = 0; bit < 21; ++bit)
    {
        memo.clear();
        size_t m = n >> (bit + 1);
        for (size_t i = 0; i < m; ++i)
        {
            u32 a = ids[2 * i], b = ids[2 * i + 1];
            if (a == b)
            {
                ids[i] = a;
                continue;
            }
            auto [k, f] = memo.try_emplace(u64(a) << 32 | b, u32(T + t->nodes.size()));
            if (f)
                t->nodes.push_back({bit, a, b});
            ids[i] = k->second;
        }
        t->roots[bit + 1] = ids[0];
    }
    t->ok = t->nodes.size() < 20000;
    if (getenv("YS_DEBUG"))
        fprintf(stderr, "table of %s: %zu values, %zu nodes, ok=%d\n", fn.name.c_str(), t->terminals.size(),
                t->nodes.size(), t->ok);
    return t;
}

static const FnTable* tableFor(u32 idx)
{
    static std::unordered_map<u32, FnTable*> cache;
    auto [it, fresh] = cache.try_emplace(idx);
    if (fresh)
    {
        it->second = makeTable(idx, false);
        if (!it->second->ok)
            it->second = makeTable(idx, true);
    }
    return it->second;
}

static bool runApp(State& s, Fn& fn, const std::vector<E>& args, E& out)
{
    if (g_concolic)
        return false; // only the outermost function is an application
    ++g_stats.apps;
    out = mkApp(fn.index, fn.retWidth, args[0], args.size() > 1 ? args[1] : nullptr,
                args.size() > 2 ? args[2] : nullptr);
    return true;
}

//////////////////////////////////////////////////////////////////////////////
// Merging the paths through functions without side effects

static bool mergeCall(State& s, Fn& fn, const std::vector<E>& args, E& out)
{
    // Explore the function from a copy of this state.
    struct Res { E cond; E val; };
    std::vector<Res> results;
    Work w, *old = g_work;
    g_work = &w;
    ++g_mergeDepth;
    size_t base = s.frames.size();
    auto* first = new State(s);
    // Only what is learned from here on matters.
    size_t pc0 = s.pc.size();
    bool ok = true;
    u64 budget = g_stats.steps + 200000;
    u64 forks0 = g_stats.forks;
    try
    {
        pushFrame(*first, fn, args, nullptr);
        w.stack.push_back(first);
        while (!w.stack.empty() && ok)
        {
            State* t = w.stack.back();
            w.stack.pop_back();
            std::unique_ptr<State> guard(t);
            while (!t->dead)
            {
                if (stepIns(*t, base))
                {
                    E c = mkTrue();
                    for (size_t i = pc0; i < t->pc.size(); ++i)
                        c = mkAnd(c, t->pc[i]);
                    for (unsigned i = 0; i < t->dom.size(); ++i)
                        if (!(t->dom[i] == s.dom[i]))
                        {
                            // Values already excluded do not matter.
                            c = mkAnd(c, mkInset(i, t->dom[i] | ~s.dom[i]));
                        }
                    results.push_back({c, g_retVals[0]});
                    break;
                }
                if (g_stats.steps > budget || results.size() > 300)
                    throw MergeAbort();
            }
            if (t->dead)
                throw MergeAbort();
        }
    }
    catch (MergeAbort&)
    {
        ok = false;
    }
    catch (...)
    {
        for (State* t : w.stack)
            delete t;
        g_work = old;
        --g_mergeDepth;
        throw;
    }
    for (State* t : w.stack)
        delete t;
    g_work = old;
    --g_mergeDepth;
    g_stats.forks = forks0;
    if (!ok || results.empty())
    {
        return false;
    }
    if (results.size() == 1)
    {
        out = results[0].val;
        return true;
    }
    ++g_stats.merges;
    g_stats.mergedPaths += results.size();
    // Group equal values; the conditions are disjoint and exhaustive.
    std::vector<Res> groups;
    std::unordered_map<E, size_t> pos;
    for (auto& r : results)
    {
        auto it = pos.find(r.val);
        if (it == pos.end())
        {
            pos[r.val] = groups.size();
            groups.push_back(r);
        }
        else
            groups[it->second].cond = mkOr(groups[it->second].cond, r.cond);
    }
    out = groups.back().val;
    for (size_t i = groups.size() - 1; i-- > 0;)
        out = mkIte(groups[i].cond, groups[i].val, out);
    return true;
}
