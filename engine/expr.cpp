#include "expr.hpp"

std::vector<VarInfo> g_vars;
std::vector<E> g_exprs;
const u64* g_model = nullptr;
u64 g_epoch = 1;
u64 g_formals[8];

namespace
{
    std::vector<E> g_varExprs;
    std::deque<Expr> g_arena;
    std::deque<Mask> g_masks;

    struct KeyHash
    {
        size_t operator()(E e) const
        {
            u64 h = u64(e->kind) * 0x9E3779B97F4A7C15ull + e->width;
            auto mix = [&](u64 x)
            {
                h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
                h *= 0xff51afd7ed558ccdull;
                h ^= h >> 32;
            };
            mix(e->val);
            mix(e->a ? e->a->id + 1 : 0);
            mix(e->b ? e->b->id + 1 : 0);
            mix(e->c ? e->c->id + 1 : 0);
            if (e->kind == K_INSET)
                for (u64 x : static_cast<const Mask*>(e->ext)->w)
                    mix(x);
            if (e->kind == K_BYTEFN)
                for (int i = 0; i < 256; ++i)
                    mix(static_cast<const u64*>(e->ext)[i]);
            return h;
        }
    };
    struct KeyEq
    {
        bool operator()(E x, E y) const
        {
            if (x->kind != y->kind || x->width != y->width || x->val != y->val
                || x->a != y->a || x->b != y->b || x->c != y->c)
                return false;
            if (x->kind == K_INSET)
                return *static_cast<const Mask*>(x->ext) == *static_cast<const Mask*>(y->ext);
            if (x->kind == K_BYTEFN)
                return !memcmp(x->ext, y->ext, 256 * 8);
            return true;
        }
    };
    struct Interned
    {
        std::vector<E> slots;
        size_t n = 0;
        Interned() : slots(1 << 16) {}
        E* find(E k)
        {
            size_t m = slots.size() - 1, h = KeyHash()(k) & m;
            KeyEq eq;
            while (slots[h] && !eq(slots[h], k))
                h = (h + 1) & m;
            return &slots[h];
        }
        void grow()
        {
            std::vector<E> old(slots.size() * 2);
            old.swap(slots);
            for (E e : old)
                if (e)
                    *find(e) = e;
        }
    } g_table;

    E intern(Expr& k)
    {
        E* p = g_table.find(&k);
        if (*p)
            return *p;
        k.undef = k.kind == K_UNDEF;
        k.formal = k.kind == K_FORMAL;
        k.app = k.kind == K_APP;
        k.sup = Sup();
        bool first = true, single = true;
        int16_t bv = -1;
        for (E ch : {k.a, k.b, k.c})
        {
            if (!ch)
                continue;
            k.undef |= ch->undef;
            k.formal |= ch->formal;
            k.app |= ch->app;
            k.sup = k.sup | ch->sup;
            if (isC(ch))
                continue;
            if (ch->bv < 0)
                single = false;
            else if (first)
                bv = ch->bv;
            else if (bv != ch->bv)
                single = false;
            first = false;
        }
        k.bv = single && !k.undef && !k.formal ? bv : -1;
        if (k.kind == K_VAR)
        {
            k.sup.set(unsigned(k.val));
            k.bv = k.width == 8 ? int16_t(k.val) : -1;
        }
        if (k.kind == K_INSET || k.kind == K_BYTEFN)
        {
            k.sup.set(unsigned(k.val));
            k.bv = int16_t(k.val);
            if (k.kind == K_INSET)
            {
                g_masks.push_back(*static_cast<const Mask*>(k.ext));
                k.ext = &g_masks.back();
            }
            else
            {
                auto* v = new u64[256];
                memcpy(v, k.ext, 256 * 8);
                k.ext = v;
            }
        }
        k.vals = nullptr;
        k.epoch = 0;
        k.id = u32(g_exprs.size());
        g_arena.push_back(k);
        E e = &g_arena.back();
        g_exprs.push_back(e);
        *p = e;
        if (++g_table.n * 2 > g_table.slots.size())
            g_table.grow();
        return e;
    }

    E node(Kind k, unsigned w, u64 val, E a = nullptr, E b = nullptr, E c = nullptr,
           const void* ext = nullptr)
    {
        Expr e{};
        e.kind = k;
        e.width = uint8_t(w);
        e.val = val;
        e.a = a;
        e.b = b;
        e.c = c;
        e.ext = ext;
        return intern(e);
    }

    u64 foldBin(Kind k, u64 x, u64 y, unsigned w)
    {
        u64 m = maskw(w);
        switch (k)
        {
        case K_ADD: return (x + y) & m;
        case K_MUL: return (x * y) & m;
        case K_UDIV: return y ? x / y : m;
        case K_UREM: return y ? x % y : x;
        case K_SDIV:
        {
            i64 a = sx(x, w), b = sx(y, w);
            if (!b)
                return a < 0 ? 1 : m;
            if (b == -1)
                return (0 - x) & m;
            return u64(a / b) & m;
        }
        case K_SREM:
        {
            i64 a = sx(x, w), b = sx(y, w);
            if (!b)
                return x;
            if (b == -1)
                return 0;
            return u64(a % b) & m;
        }
        case K_AND: return x & y;
        case K_OR: return x | y;
        case K_XOR: return x ^ y;
        case K_SHL: return y >= w ? 0 : (x << y) & m;
        case K_LSHR: return y >= w ? 0 : x >> y;
        case K_ASHR: return u64(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
        case K_EQ: return x == y;
        case K_ULT: return x < y;
        case K_ULE: return x <= y;
        case K_SLT: return sx(x, w) < sx(y, w);
        case K_SLE: return sx(x, w) <= sx(y, w);
        default: assert(false); return 0;
        }
    }

    bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }

    // Canonical form of a boolean depending on a single byte variable.
    E canonBool(E e)
    {
        if (e->width != 1 || e->bv < 0 || e->kind == K_INSET)
            return e;
        const u64* v = byteVals(e);
        Mask m = Mask::empty();
        for (unsigned i = 0; i < 256; ++i)
            if (v[i])
                m.set(i);
        return mkInset(unsigned(e->bv), m);
    }
}

E mkConst(u64 v, unsigned w) { return node(K_CONST, w, v & maskw(w)); }

E mkVar(unsigned width, const std::string& name)
{
    assert(g_vars.size() < MAX_VARS);
    g_vars.push_back({name, width});
    E e = node(K_VAR, width, g_vars.size() - 1);
    g_varExprs.push_back(e);
    return e;
}

E varExpr(unsigned index) { return g_varExprs[index]; }

E mkFormal(unsigned idx, unsigned width) { return node(K_FORMAL, width, idx); }

E mkUndef(unsigned width)
{
    static u64 n = 0;
    return node(K_UNDEF, width, ++n);
}

const u64* byteVals(E e)
{
    assert(e->bv >= 0);
    if (e->vals)
        return e->vals;
    if (e->kind == K_BYTEFN)
        return e->vals = static_cast<const u64*>(e->ext);
    auto* v = new u64[256];
    if (e->kind == K_INSET)
    {
        auto* m = static_cast<const Mask*>(e->ext);
        for (unsigned i = 0; i < 256; ++i)
            v[i] = m->test(i);
        return e->vals = v;
    }
    if (e->kind == K_VAR)
    {
        for (unsigned i = 0; i < 256; ++i)
            v[i] = i;
        return e->vals = v;
    }
    static thread_local std::vector<u64> tmp(MAX_VARS);
    const u64* old = g_model;
    std::vector<u64> model(MAX_VARS);
    for (unsigned i = 0; i < 256; ++i)
    {
        model[unsigned(e->bv)] = i;
        g_model = model.data();
        ++g_epoch;
        v[i] = evalE(e);
    }
    g_model = old;
    ++g_epoch;
    return e->vals = v;
}

u64 evalE(E e)
{
    if (e->kind == K_CONST)
        return e->val;
    if (e->epoch == g_epoch)
        return e->ev;
    u64 r = 0;
    switch (e->kind)
    {
    case K_VAR: r = g_model[e->val]; break;
    case K_FORMAL: r = g_formals[e->val]; break;
    case K_UNDEF: r = 0; break;
    case K_NOT: r = !evalE(e->a); break;
    case K_ZEXT: r = evalE(e->a); break;
    case K_SEXT: r = u64(sx(evalE(e->a), e->a->width)) & maskw(e->width); break;
    case K_EXTRACT: r = (evalE(e->a) >> e->val) & maskw(e->width); break;
    case K_CONCAT: r = (evalE(e->a) << e->b->width) | evalE(e->b); break;
    case K_ITE: r = evalE(e->a) ? evalE(e->b) : evalE(e->c); break;
    case K_INSET: r = static_cast<const Mask*>(e->ext)->test(unsigned(g_model[e->val])); break;
    case K_BYTEFN: r = static_cast<const u64*>(e->ext)[g_model[e->val]]; break;
    case K_APP:
    {
        u64 args[3] = {0, 0, 0};
        args[0] = evalE(e->a);
        if (e->b)
            args[1] = evalE(e->b);
        if (e->c)
            args[2] = evalE(e->c);
        u64 ep = g_epoch;
        const u64* m = g_model;
        r = evalApp(u32(e->val), args) & maskw(e->width);
        g_model = m;
        if (g_epoch != ep)
        {
            // The callee evaluated something: start over with a fresh epoch
            // for the memoised values of this model.
            ++g_epoch;
        }
        break;
    }
    default:
    {
        u64 x = evalE(e->a);
        u64 ep = g_epoch;
        u64 y = evalE(e->b);
        (void)ep;
        r = foldBin(e->kind, x, y, e->a->width);
        break;
    }
    }
    e->ev = r;
    e->epoch = g_epoch;
    return r;
}

E mkInset(unsigned var, const Mask& m)
{
    if (m.none())
        return mkFalse();
    if (m.all())
        return mkTrue();
    return node(K_INSET, 1, var, nullptr, nullptr, nullptr, &m);
}

E mkByteFn(unsigned var, const u64* vals, unsigned w)
{
    bool same = true;
    for (int i = 1; i < 256 && same; ++i)
        same = vals[i] == vals[0];
    if (same)
        return mkConst(vals[0], w);
    if (w == 1)
    {
        Mask m = Mask::empty();
        for (unsigned i = 0; i < 256; ++i)
            if (vals[i] & 1)
                m.set(i);
        return mkInset(var, m);
    }
    return node(K_BYTEFN, w, var, nullptr, nullptr, nullptr, vals);
}

E mkApp(u32 fn, unsigned w, E a, E b, E c)
{
    E e = node(K_APP, w, fn, a, b, c);
    // A function of one byte is a table.
    if (e->bv >= 0)
        return mkByteFn(unsigned(e->bv), byteVals(e), w);
    return e;
}

u64 umaxOf(E e)
{
    switch (e->kind)
    {
    case K_CONST: return e->val;
    case K_ZEXT: return umaxOf(e->a);
    case K_AND:
    {
        u64 x = umaxOf(e->a), y = umaxOf(e->b);
        return x < y ? x : y;
    }
    case K_LSHR:
        if (isC(e->b))
            return e->b->val >= e->width ? 0 : umaxOf(e->a) >> e->b->val;
        return umaxOf(e->a);
    case K_ITE:
    {
        u64 x = umaxOf(e->b), y = umaxOf(e->c);
        return x > y ? x : y;
    }
    case K_OR:
    case K_XOR:
    {
        u64 x = umaxOf(e->a) | umaxOf(e->b);
        while (x & (x + 1))
            x |= x >> 1;
        return x & maskw(e->width);
    }
    case K_SHL:
        if (isC(e->b) && e->b->val < e->width)
        {
            u64 x = umaxOf(e->a);
            if (x <= maskw(e->width) >> e->b->val)
                return x << e->b->val;
        }
        return maskw(e->width);
    case K_UREM:
        if (isC(e->b) && e->b->val)
            return e->b->val - 1;
        return maskw(e->width);
    case K_UDIV:
        if (isC(e->b) && e->b->val)
            return umaxOf(e->a) / e->b->val;
        return maskw(e->width);
    case K_ADD:
    {
        u64 x = umaxOf(e->a), y = umaxOf(e->b);
        if (x + y >= x && x + y <= maskw(e->width))
            return x + y;
        return maskw(e->width);
    }
    case K_CONCAT:
        return (umaxOf(e->a) << e->b->width) | umaxOf(e->b);
    case K_BYTEFN:
    {
        u64 x = 0;
        for (int i = 0; i < 256; ++i)
            x = std::max(x, static_cast<const u64*>(e->ext)[i]);
        return x;
    }
    default: return maskw(e->width);
    }
}

E mkNot(E a)
{
    switch (a->kind)
    {
    case K_CONST: return mkConst(!a->val, 1);
    case K_NOT: return a->a;
    case K_INSET: return mkInset(unsigned(a->val), ~*static_cast<const Mask*>(a->ext));
    case K_ULT: return mkBin(K_ULE, a->b, a->a);
    case K_ULE: return mkBin(K_ULT, a->b, a->a);
    case K_SLT: return mkBin(K_SLE, a->b, a->a);
    case K_SLE: return mkBin(K_SLT, a->b, a->a);
    case K_ITE: return mkIte(a->a, mkNot(a->b), mkNot(a->c));
    default: return node(K_NOT, 1, 0, a);
    }
}

namespace
{
    bool iteConstLeaves(E e, int depth)
    {
        if (isC(e))
            return true;
        if (e->kind != K_ITE || depth == 0)
            return false;
        return iteConstLeaves(e->b, depth - 1) && iteConstLeaves(e->c, depth - 1);
    }

    E distribute(Kind k, E a, E b, std::unordered_map<E, E>& memo, bool left)
    {
        // a is an ITE tree when left, otherwise b is.
        E t = left ? a : b;
        if (t->kind != K_ITE)
            return mkBin(k, a, b);
        auto it = memo.find(t);
        if (it != memo.end())
            return it->second;
        E x = left ? distribute(k, t->b, b, memo, left) : distribute(k, a, t->b, memo, left);
        E y = left ? distribute(k, t->c, b, memo, left) : distribute(k, a, t->c, memo, left);
        return memo[t] = mkIte(t->a, x, y);
    }

    E mkBool(Kind k, E a, E b) // AND, OR on width 1
    {
        if (a == b)
            return a;
        if (isC(a))
            std::swap(a, b);
        if (isC(b))
        {
            if (k == K_AND)
                return b->val ? a : b;
            return b->val ? b : a;
        }
        if (a->kind == K_INSET && b->kind == K_INSET && a->val == b->val)
        {
            auto& x = *static_cast<const Mask*>(a->ext);
            auto& y = *static_cast<const Mask*>(b->ext);
            return mkInset(unsigned(a->val), k == K_AND ? (x & y) : (x | y));
        }
        if (mkNot(a) == b)
            return mkConst(k == K_OR, 1);
        if (a->id > b->id)
            std::swap(a, b);
        return node(k, 1, 0, a, b);
    }
}

E mkBin(Kind k, E a, E b)
{
    assert(a->width == b->width);
    unsigned w = a->width;
    bool cmp = isCmp(k);
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b))
        return mkConst(foldBin(k, a->val, b->val, w), rw);
    if (w == 1)
    {
        switch (k)
        {
        case K_AND: case K_OR: return mkBool(k, a, b);
        case K_MUL: return mkBool(K_AND, a, b);
        case K_XOR: case K_ADD:
            if (isC(a))
                std::swap(a, b);
            if (isC(b))
                return b->val ? mkNot(a) : a;
            return mkIte(a, mkNot(b), b);
        case K_EQ:
            if (isC(a))
                std::swap(a, b);
            if (isC(b))
                return b->val ? a : mkNot(a);
            return mkIte(a, b, mkNot(b));
        case K_ULT: return mkAnd(mkNot(a), b);
        case K_ULE: return mkOr(mkNot(a), b);
        case K_SLT: return mkAnd(a, mkNot(b));
        case K_SLE: return mkOr(a, mkNot(b));
        default: break;
        }
    }
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id)))
        std::swap(a, b);

    if (a == b)
    {
        switch (k)
        {
        case K_EQ: case K_ULE: case K_SLE: return mkTrue();
        case K_ULT: case K_SLT: return mkFalse();
        case K_AND: case K_OR: return a;
        case K_XOR: return mkConst(0, w);
        default: break;
        }
    }
    if (isC(b))
    {
        u64 v = b->val;
        switch (k)
        {
        case K_ADD:
            if (!v)
                return a;
            if (a->kind == K_ADD && isC(a->b))
                return mkAdd(a->a, mkConst(a->b->val + v, w));
            break;
        case K_MUL:
            if (v == 1)
                return a;
            if (v == 0)
                return b;
            if (v == maskw(w) && a->kind == K_MUL && isC(a->b) && a->b->val == maskw(w))
                return a->a;
            if ((v & (v - 1)) == 0)
                return mkBin(K_SHL, a, mkConst(u64(__builtin_ctzll(v)), w));
            break;
        case K_AND:
            if (!v)
                return b;
            if (v == maskw(w) || (((umaxOf(a) & ~v) == 0) && (v & (v + 1)) == 0))
                return a;
            if (a->kind == K_AND && isC(a->b))
                return mkBin(K_AND, a->a, mkConst(a->b->val & v, w));
            if (a->kind == K_OR && isC(a->b) && (a->b->val & v) == 0)
                return mkBin(K_AND, a->a, b);
            if (a->kind == K_ZEXT)
                return mkZext(mkBin(K_AND, a->a, mkConst(v, a->a->width)), w);
            break;
        case K_OR:
            if (!v)
                return a;
            if (v == maskw(w))
                return b;
            if (a->kind == K_ZEXT && v <= maskw(a->a->width))
                return mkZext(mkBin(K_OR, a->a, mkConst(v, a->a->width)), w);
            if (a->kind == K_OR && isC(a->b))
                return mkBin(K_OR, a->a, mkConst(a->b->val | v, w));
            break;
        case K_XOR:
            if (!v)
                return a;
            if (a->kind == K_ZEXT && v <= maskw(a->a->width))
                return mkZext(mkBin(K_XOR, a->a, mkConst(v, a->a->width)), w);
            if (a->kind == K_XOR && isC(a->b))
                return mkBin(K_XOR, a->a, mkConst(a->b->val ^ v, w));
            break;
        case K_SHL: case K_LSHR: case K_ASHR:
            if (!v)
                return a;
            if (v >= w && k != K_ASHR)
                return mkConst(0, w);
            if (k == K_LSHR && umaxOf(a) >> v == 0)
                return mkConst(0, w);
            if (k == K_ASHR && umaxOf(a) <= maskw(w - 1))
                return mkBin(K_LSHR, a, b);
            if (k == K_LSHR && a->kind == K_SHL && isC(a->b) && a->b->val == v
                && umaxOf(a->a) <= maskw(w) >> v)
                return a->a;
            if (k == K_LSHR && a->kind == K_LSHR && isC(a->b))
                return mkBin(K_LSHR, a->a, mkConst(std::min<u64>(w, a->b->val + v), w));
            break;
        case K_UDIV:
            if (v == 1)
                return a;
            if (v && (v & (v - 1)) == 0)
                return mkBin(K_LSHR, a, mkConst(u64(__builtin_ctzll(v)), w));
            break;
        case K_UREM:
            if (v && (v & (v - 1)) == 0)
                return mkBin(K_AND, a, mkConst(v - 1, w));
            break;
        case K_EQ:
            if (v > umaxOf(a))
                return mkFalse();
            if (a->kind == K_ZEXT)
                return mkEq(a->a, mkConst(v, a->a->width));
            if (a->kind == K_ADD && isC(a->b))
                return mkEq(a->a, mkConst(v - a->b->val, w));
            if (a->kind == K_MUL && isC(a->b) && a->b->val == maskw(w))
                return mkEq(a->a, mkConst(0 - v, w));
            if (a->kind == K_XOR && isC(a->b))
                return mkEq(a->a, mkConst(v ^ a->b->val, w));
            if (a->kind == K_SEXT)
            {
                u64 t = v & maskw(a->a->width);
                if ((u64(sx(t, a->a->width)) & maskw(w)) != v)
                    return mkFalse();
                return mkEq(a->a, mkConst(t, a->a->width));
            }
            if (a->kind == K_CONCAT)
                return mkAnd(mkEq(a->a, mkConst(v >> a->b->width, a->a->width)),
                             mkEq(a->b, mkConst(v, a->b->width)));
            if (a->kind == K_SHL && isC(a->b))
            {
                u64 s = a->b->val;
                if (v & maskw(unsigned(s)))
                    return mkFalse();
                if (umaxOf(a->a) <= maskw(w) >> s)
                    return mkEq(a->a, mkConst(v >> s, w));
            }
            break;
        case K_ULT:
            if (v == 0)
                return mkFalse();
            if (umaxOf(a) < v)
                return mkTrue();
            if (v == 1)
                return mkEq(a, mkConst(0, w));
            if (a->kind == K_ZEXT)
                return mkBin(K_ULT, a->a, mkConst(v, a->a->width));
            if (a->kind == K_SHL && isC(a->b) && umaxOf(a->a) <= maskw(w) >> a->b->val)
                return mkBin(K_ULE, a->a, mkConst((v - 1) >> a->b->val, w));
            break;
        case K_ULE:
            if (umaxOf(a) <= v)
                return mkTrue();
            return mkBin(K_ULT, a, mkConst(v + 1, w));
        case K_SLT:
            if (umaxOf(a) <= maskw(w - 1))
                return sx(v, w) <= 0 ? mkFalse() : mkBin(K_ULT, a, b);
            break;
        case K_SLE:
            if (sx(v, w) == sx(maskw(w - 1), w))
                return mkTrue();
            return mkBin(K_SLT, a, mkConst(v + 1, w));
        default: break;
        }
        if (cmp && a->kind == K_ITE && (isC(a->b) || isC(a->c) || iteConstLeaves(a, 64)))
        {
            std::unordered_map<E, E> memo;
            return distribute(k, a, b, memo, true);
        }
    }
    else if (isC(a))
    {
        u64 v = a->val;
        switch (k)
        {
        case K_ULT:
            if (v == maskw(w) || umaxOf(b) <= v)
                return mkFalse();
            if (b->kind == K_ZEXT)
                return mkBin(K_ULT, mkConst(v, b->a->width), b->a);
            if (b->kind == K_SHL && isC(b->b) && umaxOf(b->a) <= maskw(w) >> b->b->val)
                return mkBin(K_ULT, mkConst(v >> b->b->val, w), b->a);
            break;
        case K_ULE:
            if (v == 0)
                return mkTrue();
            return mkBin(K_ULT, mkConst(v - 1, w), b);
        case K_SLT:
            if (umaxOf(b) <= maskw(w - 1))
                return sx(v, w) < 0 ? mkTrue() : mkBin(K_ULT, a, b);
            if (v == maskw(w - 1))
                return mkFalse();
            break;
        case K_SLE:
            if (v == (1ull << (w - 1)))
                return mkTrue();
            return mkBin(K_SLT, mkConst(v - 1, w), b);
        case K_SHL: case K_LSHR: case K_UDIV: case K_UREM:
            if (v == 0)
                return a;
            break;
        default: break;
        }
        if (cmp && b->kind == K_ITE && (isC(b->b) || isC(b->c) || iteConstLeaves(b, 64)))
        {
            std::unordered_map<E, E> memo;
            return distribute(k, a, b, memo, false);
        }
    }
    else
    {
        if (cmp && a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width)
            return mkBin(k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k, a->a, b->a);
        if ((k == K_AND || k == K_OR || k == K_XOR) && a->kind == K_ZEXT && b->kind == K_ZEXT
            && a->a->width == b->a->width)
            return mkZext(mkBin(k, a->a, b->a), w);
        if (k == K_EQ && a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width)
            return mkEq(a->a, b->a);
        if (k == K_EQ && a->kind == K_ADD && b->kind == K_ADD && isC(a->b) && isC(b->b) && a->b == b->b)
            return mkEq(a->a, b->a);
        if (k == K_EQ && a->kind == K_CONCAT && b->kind == K_CONCAT && a->a->width == b->a->width)
            return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        if ((k == K_SLT || k == K_SLE) && umaxOf(a) <= maskw(w - 1) && umaxOf(b) <= maskw(w - 1))
            return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
        if (k == K_ADD && b->kind == K_ADD && isC(b->b))
            return mkAdd(mkAdd(a, b->a), b->b);
        if (k == K_ADD && a->kind == K_ADD && isC(a->b))
            return mkAdd(mkAdd(a->a, b), a->b);
        if (k == K_ADD)
        {
            // x + (-x)
            if (b->kind == K_MUL && isC(b->b) && b->b->val == maskw(w) && b->a == a)
                return mkConst(0, w);
            if (a->kind == K_MUL && isC(a->b) && a->b->val == maskw(w) && a->a == b)
                return mkConst(0, w);
            // (x + y) + (-x)
            auto neg = [&](E x, E y) -> E
            {
                if (y->kind == K_MUL && isC(y->b) && y->b->val == maskw(w) && x->kind == K_ADD)
                {
                    if (x->a == y->a)
                        return x->b;
                    if (x->b == y->a)
                        return x->a;
                }
                return nullptr;
            };
            if (E r = neg(a, b))
                return r;
            if (E r = neg(b, a))
                return r;
        }
    }
    E e = node(k, rw, 0, a, b);
    return rw == 1 ? canonBool(e) : e;
}

E mkZext(E a, unsigned w)
{
    if (a->width == w)
        return a;
    if (isC(a))
        return mkConst(a->val, w);
    if (a->kind == K_ZEXT)
        return mkZext(a->a, w);
    if (a->kind == K_ITE && iteConstLeaves(a, 3))
        return mkIte(a->a, mkZext(a->b, w), mkZext(a->c, w));
    return node(K_ZEXT, w, 0, a);
}

E mkSext(E a, unsigned w)
{
    if (a->width == w)
        return a;
    if (isC(a))
        return mkConst(u64(sx(a->val, a->width)), w);
    if (a->kind == K_SEXT)
        return mkSext(a->a, w);
    if (umaxOf(a) <= maskw(a->width - 1u) && a->width > 1)
        return mkZext(a, w);
    if (a->kind == K_ITE && iteConstLeaves(a, 3))
        return mkIte(a->a, mkSext(a->b, w), mkSext(a->c, w));
    return node(K_SEXT, w, 0, a);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && a->width == w)
        return a;
    if (isC(a))
        return mkConst(a->val >> lo, w);
    switch (a->kind)
    {
    case K_EXTRACT: return mkExtract(a->a, lo + unsigned(a->val), w);
    case K_CONCAT:
        if (lo >= a->b->width)
            return mkExtract(a->a, lo - a->b->width, w);
        if (lo + w <= a->b->width)
            return mkExtract(a->b, lo, w);
        break;
    case K_ZEXT:
        if (lo >= a->a->width)
            return mkConst(0, w);
        if (lo + w <= a->a->width)
            return mkExtract(a->a, lo, w);
        if (lo == 0)
            return mkZext(a->a, w);
        break;
    case K_SEXT:
        if (lo + w <= a->a->width)
            return mkExtract(a->a, lo, w);
        if (lo == 0)
            return mkSext(a->a, w);
        break;
    case K_SHL:
        if (isC(a->b) && a->b->val < a->width)
        {
            unsigned k = unsigned(a->b->val);
            if (lo >= k)
                return mkExtract(a->a, lo - k, w);
            if (lo + w <= k)
                return mkConst(0, w);
        }
        break;
    case K_LSHR:
        if (isC(a->b) && a->b->val < a->width)
        {
            unsigned k = unsigned(a->b->val);
            if (lo + k + w <= a->width)
                return mkExtract(a->a, lo + k, w);
            if (lo + k >= a->width)
                return mkConst(0, w);
        }
        break;
    case K_AND: case K_OR: case K_XOR:
        if (isC(a->b) || lo == 0 || a->undef)
            return mkBin(a->kind, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        break;
    case K_ADD: case K_MUL:
        if (lo == 0)
            return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case K_ITE:
        if (isC(a->b) || isC(a->c))
            return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
        break;
    default: break;
    }
    E e = node(K_EXTRACT, w, lo, a);
    return w == 1 ? canonBool(e) : e;
}

E mkConcat(E hi, E lo)
{
    unsigned w = unsigned(hi->width) + lo->width;
    assert(w <= 64);
    if (isC(hi) && isC(lo))
        return mkConst((hi->val << lo->width) | lo->val, w);
    if (isC(hi) && hi->val == 0)
        return mkZext(lo, w);
    if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a
        && hi->val == lo->val + lo->width)
        return mkExtract(hi->a, unsigned(lo->val), w);
    // extract(x, n-k.., k) ++ x-low parts of a zext/sext
    if (hi->kind == K_EXTRACT && hi->a == lo && hi->val == lo->width)
        return mkExtract(lo, 0, w);
    return node(K_CONCAT, w, 0, hi, lo);
}

E mkIte(E c, E a, E b)
{
    assert(a->width == b->width);
    if (isC(c))
        return c->val ? a : b;
    if (a == b)
        return a;
    if (c->kind == K_NOT)
        return mkIte(c->a, b, a);
    if (a->width == 1)
    {
        if (isC(a))
            return a->val ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b))
            return b->val ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if (a == c)
            return mkOr(c, b);
        if (b == c)
            return mkAnd(c, a);
    }
    if (b->kind == K_ITE && b->b == a)
        return mkIte(mkOr(c, b->a), a, b->c);
    if (b->kind == K_ITE && b->a == c)
        return mkIte(c, a, b->c);
    if (a->kind == K_ITE && a->a == c)
        return mkIte(c, a->b, b);
    E e = node(K_ITE, a->width, 0, c, a, b);
    return a->width == 1 ? canonBool(e) : e;
}

E substFormals(E e, E const* actuals, std::unordered_map<E, E>& memo)
{
    if (!e->formal)
        return e;
    if (e->kind == K_FORMAL)
        return actuals[e->val];
    auto it = memo.find(e);
    if (it != memo.end())
        return it->second;
    auto s = [&](E x) { return x ? substFormals(x, actuals, memo) : nullptr; };
    E r;
    switch (e->kind)
    {
    case K_NOT: r = mkNot(s(e->a)); break;
    case K_ZEXT: r = mkZext(s(e->a), e->width); break;
    case K_SEXT: r = mkSext(s(e->a), e->width); break;
    case K_EXTRACT: r = mkExtract(s(e->a), unsigned(e->val), e->width); break;
    case K_CONCAT: r = mkConcat(s(e->a), s(e->b)); break;
    case K_ITE: r = mkIte(s(e->a), s(e->b), s(e->c)); break;
    case K_APP: r = mkApp(u32(e->val), e->width, s(e->a), s(e->b), s(e->c)); break;
    default: r = mkBin(e->kind, s(e->a), s(e->b)); break;
    }
    return memo[e] = r;
}

std::string show(E e, int depth)
{
    static const char* names[] = {
        "const", "var", "formal", "undef", "add", "mul", "udiv", "sdiv", "urem", "srem",
        "and", "or", "xor", "not", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle",
        "zext", "sext", "extract", "concat", "ite", "inset", "bytefn", "app"};
    if (!e)
        return "";
    char buf[64];
    if (isC(e))
    {
        snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)e->val);
        return buf;
    }
    if (e->kind == K_VAR)
        return g_vars[e->val].name;
    if (e->kind == K_INSET)
    {
        std::string s = g_vars[e->val].name + " in {";
        auto& m = *static_cast<const Mask*>(e->ext);
        for (unsigned i = 0; i < 256; ++i)
        {
            if (!m.test(i))
                continue;
            unsigned j = i;
            while (j < 255 && m.test(j + 1))
                ++j;
            snprintf(buf, sizeof buf, i == j ? " %02x" : " %02x-%02x", i, j);
            s += buf;
            i = j;
        }
        return s + "}";
    }
    if (depth == 0)
        return "...";
    snprintf(buf, sizeof buf, "(%s%u", names[e->kind], e->width);
    std::string s = buf;
    if (e->kind == K_EXTRACT || e->kind == K_APP || e->kind == K_FORMAL)
        s += "#" + std::to_string(e->val);
    for (E ch : {e->a, e->b, e->c})
        if (ch)
            s += " " + show(ch, depth - 1);
    return s + ")";
}
