#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <set>
#include <z3.h>

SolverStats g_solver;
const Leaf* (*g_leafFor)(u32 fn, const u64* args) = nullptr;
const FnTable* (*g_tableFor)(u32 fn) = nullptr;

namespace
{
    Z3_context ctx;
    // One solver knows no facts about the applications of functions, the
    // other all that were learned.
    struct Slot
    {
        Z3_solver sol = nullptr;
        std::vector<char> litState; // by expression id: 1 = defined in sol
        size_t defined = 0;
    } slots[2], *cur = slots;
    std::vector<Z3_ast> asts;         // by expression id
    std::vector<Z3_ast> lits;
    std::unordered_map<E, std::vector<E>> lemmas; // facts about an application
    std::set<std::pair<E, const Leaf*>> known;    // leaves among them
    std::unordered_set<u64> congr;
    unsigned timeout_ms = 10000, seed_ = 1;

    // Terms are kept for as long as the process lives.
    Z3_ast keep(Z3_ast a)
    {
        Z3_inc_ref(ctx, a);
        return a;
    }

    Z3_sort sortOf(unsigned w)
    {
        static Z3_sort sorts[65];
        if (!sorts[w])
        {
            sorts[w] = Z3_mk_bv_sort(ctx, w);
            keep(Z3_sort_to_ast(ctx, sorts[w]));
        }
        return sorts[w];
    }
    Z3_ast num(u64 v, unsigned w)
    {
        static std::unordered_map<u64, Z3_ast> known[65];
        Z3_ast& r = known[w][v];
        if (!r)
            r = keep(Z3_mk_unsigned_int64(ctx, v, sortOf(w)));
        return r;
    }

    // The i-th bit of a byte variable.
    Z3_ast byteBit(unsigned v, Z3_ast var, unsigned i)
    {
        static std::unordered_map<unsigned, Z3_ast> known;
        Z3_ast& r = known[v * 8 + i];
        if (!r)
            r = keep(Z3_mk_eq(ctx, keep(Z3_mk_extract(ctx, i, i, var)), num(1, 1)));
        return r;
    }

    // A set of values of a byte as a decision diagram over its bits: t has
    // 2 << bit entries.
    Z3_ast byteDiagram(unsigned v, Z3_ast var, const bool* t, int bit)
    {
        size_t n = size_t(1) << (bit + 1);
        bool all = true, any = false;
        for (size_t i = 0; i < n; ++i)
        {
            all &= t[i];
            any |= t[i];
        }
        if (all || !any)
            return all ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        static std::unordered_map<std::string, Z3_ast> known;
        std::string key((const char*)t, n);
        key += std::to_string(v);
        auto it = known.find(key);
        if (it != known.end())
            return it->second;
        Z3_ast r;
        if (memcmp(t, t + n / 2, n / 2) == 0)
            r = byteDiagram(v, var, t, bit - 1);
        else
        {
            Z3_ast lo = byteDiagram(v, var, t, bit - 1), hi = byteDiagram(v, var, t + n / 2, bit - 1), x = byteBit(v, var, bit);
            Z3_ast yes = Z3_mk_true(ctx), no = Z3_mk_false(ctx);
            if (hi == yes && lo == no)
                r = x;
            else if (hi == no && lo == yes)
                r = Z3_mk_not(ctx, x);
            else if (hi == no || lo == no || hi == yes || lo == yes)
            {
                Z3_ast a[2] = {x, hi};
                if (hi == no || lo == yes)
                    a[0] = keep(Z3_mk_not(ctx, x));
                if (hi == no || hi == yes)
                    a[1] = lo;
                r = hi == no || lo == no ? Z3_mk_and(ctx, 2, a) : Z3_mk_or(ctx, 2, a);
            }
            else
                r = Z3_mk_ite(ctx, x, hi, lo);
            keep(r);
        }
        known.emplace(key, r);
        return r;
    }

    Z3_ast maskTerm(unsigned v, Z3_ast var, const Mask& m)
    {
        bool t[256];
        for (unsigned i = 0; i < 256; ++i)
            t[i] = m.test(i);
        return byteDiagram(v, var, t, 7);
    }

    // A function of a byte, bit by bit.
    Z3_ast byteFunction(unsigned v, Z3_ast var, const u64* vals, unsigned w)
    {
        Z3_ast r = nullptr;
        auto append = [&](Z3_ast low) { r = r ? keep(Z3_mk_concat(ctx, low, r)) : low; };
        for (unsigned b = 0; b < w;)
        {
            bool t[256];
            auto get = [&](unsigned k)
            {
                for (unsigned i = 0; i < 256; ++i)
                    t[i] = (vals[i] >> k) & 1;
            };
            auto constant = [&](unsigned k)
            {
                get(k);
                return std::find(t, t + 256, !t[0]) == t + 256;
            };
            if (constant(b))
            {
                u64 c = 0;
                unsigned n = 0;
                while (b + n < w && constant(b + n))
                {
                    c |= u64(t[0]) << n;
                    ++n;
                }
                append(num(c, n));
                b += n;
                continue;
            }
            append(keep(Z3_mk_ite(ctx, byteDiagram(v, var, t, 7), num(1, 1), num(0, 1))));
            ++b;
        }
        return r;
    }

    // Booleans are Z3 Bools, everything else bit vectors.
    Z3_ast tr(E e)
    {
        if (asts.size() < g_exprs.size())
            asts.resize(g_exprs.size() * 2);
        if (asts[e->id])
            return asts[e->id];
        Z3_ast r = nullptr;
        auto name = [&](const char* p, u64 n)
        {
            return Z3_mk_string_symbol(ctx, (p + std::to_string(n)).c_str());
        };
        auto bv1 = [&](E x) { return keep(Z3_mk_ite(ctx, tr(x), num(1, 1), num(0, 1))); };
        auto bits = [&](E x) { return x->width == 1 ? bv1(x) : tr(x); };
        switch (e->kind)
        {
        case K_CONST:
            r = e->width == 1 ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->val, e->width);
            break;
        case K_VAR:
            if (e->width == 1)
                r = Z3_mk_const(ctx, name("v", e->val), Z3_mk_bool_sort(ctx));
            else
                r = Z3_mk_const(ctx, name("v", e->val), sortOf(e->width));
            break;
        case K_APP:
            if (e->width == 1)
                r = Z3_mk_const(ctx, name("app", e->id), Z3_mk_bool_sort(ctx));
            else
                r = Z3_mk_const(ctx, name("app", e->id), sortOf(e->width));
            break;
        case K_ADD:
        {
            // Print subtraction as such.
            if (e->b->kind == K_MUL && isC(e->b->b) && e->b->b->val == maskw(e->width))
                r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b->a));
            else
                r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b));
            break;
        }
        case K_MUL:
            if (isC(e->b) && e->b->val == maskw(e->width))
                r = Z3_mk_bvneg(ctx, tr(e->a));
            else
                r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b));
            break;
        case K_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
        case K_AND:
        case K_OR:
            if (e->width == 1)
            {
                Z3_ast t[2] = {tr(e->a), tr(e->b)};
                r = e->kind == K_AND ? Z3_mk_and(ctx, 2, t) : Z3_mk_or(ctx, 2, t);
            }
            else
                r = e->kind == K_AND ? Z3_mk_bvand(ctx, tr(e->a), tr(e->b)) : Z3_mk_bvor(ctx, tr(e->a), tr(e->b));
            break;
        case K_XOR:
            r = e->width == 1 ? Z3_mk_xor(ctx, tr(e->a), tr(e->b)) : Z3_mk_bvxor(ctx, tr(e->a), tr(e->b));
            break;
        case K_NOT: r = Z3_mk_not(ctx, tr(e->a)); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
        case K_EQ: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
        case K_ULT: r = Z3_mk_bvult(ctx, bits(e->a), bits(e->b)); break;
        case K_ULE: r = Z3_mk_bvule(ctx, bits(e->a), bits(e->b)); break;
        case K_SLT: r = Z3_mk_bvslt(ctx, bits(e->a), bits(e->b)); break;
        case K_SLE: r = Z3_mk_bvsle(ctx, bits(e->a), bits(e->b)); break;
        case K_ZEXT:
            if (e->a->width == 1)
                r = Z3_mk_ite(ctx, tr(e->a), num(1, e->width), num(0, e->width));
            else
                r = Z3_mk_zero_ext(ctx, e->width - e->a->width, tr(e->a));
            break;
        case K_SEXT:
            if (e->a->width == 1)
                r = Z3_mk_ite(ctx, tr(e->a), num(maskw(e->width), e->width), num(0, e->width));
            else
                r = Z3_mk_sign_ext(ctx, e->width - e->a->width, tr(e->a));
            break;
        case K_EXTRACT:
            r = keep(Z3_mk_extract(ctx, unsigned(e->val) + e->width - 1, unsigned(e->val), bits(e->a)));
            if (e->width == 1)
                r = Z3_mk_eq(ctx, r, num(1, 1));
            break;
        case K_CONCAT: r = Z3_mk_concat(ctx, bits(e->a), bits(e->b)); break;
        case K_ITE: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
        case K_INSET:
            r = maskTerm(unsigned(e->val), tr(varExpr(unsigned(e->val))), *static_cast<const Mask*>(e->ext));
            break;
        case K_BYTEFN:
        {
            r = byteFunction(unsigned(e->val), tr(varExpr(unsigned(e->val))), static_cast<const u64*>(e->ext), e->width);
            if (e->width == 1)
                r = Z3_mk_eq(ctx, r, num(1, 1));
            break;
        }
        default:
            fprintf(stderr, "solver: cannot translate %s\n", show(e).c_str());
            abort();
        }
        if (asts.size() < g_exprs.size())
            asts.resize(g_exprs.size() * 2);
        return asts[e->id] = keep(r);
    }

    void newSolver()
    {
        auto& sol = cur->sol;
        if (sol)
        {
            Z3_solver_dec_ref(ctx, sol);
            ++g_solver.resets;
        }
        sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        Z3_solver_inc_ref(ctx, sol);
        Z3_params p = Z3_mk_params(ctx);
        Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), seed_);
        Z3_solver_set_params(ctx, sol, p);
        Z3_params_dec_ref(ctx, p);
        std::fill(cur->litState.begin(), cur->litState.end(), 0);
        cur->defined = 0;
    }

    void collectApps(E e, std::unordered_set<E>& seen, std::vector<E>& apps)
    {
        if (!e || !e->app || !seen.insert(e).second)
            return;
        if (e->kind == K_APP)
            apps.push_back(e);
        collectApps(e->a, seen, apps);
        collectApps(e->b, seen, apps);
        collectApps(e->c, seen, apps);
    }

    Z3_ast litFor(E e);

    void assertFact(E e) { Z3_solver_assert(ctx, slots[1].sol, tr(e)); }

    Z3_ast litFor(E e)
    {
        auto& litState = cur->litState;
        if (litState.size() < g_exprs.size())
            litState.resize(g_exprs.size() * 2);
        if (lits.size() < g_exprs.size())
            lits.resize(g_exprs.size() * 2);
        if (!litState[e->id])
        {
            if (!lits[e->id])
                lits[e->id] = keep(Z3_mk_const(
                    ctx, Z3_mk_string_symbol(ctx, ("p" + std::to_string(e->id)).c_str()),
                    Z3_mk_bool_sort(ctx)));
            Z3_solver_assert(ctx, cur->sol, Z3_mk_implies(ctx, lits[e->id], tr(e)));
            litState[e->id] = 1;
            ++cur->defined;
            if (e->app && cur != slots)
            {
                std::unordered_set<E> seen;
                std::vector<E> apps;
                collectApps(e, seen, apps);
                for (E a : apps)
                {
                    auto it = lemmas.find(a);
                    if (it != lemmas.end())
                        for (E l : it->second)
                            assertFact(l);
                }
            }
        }
        return lits[e->id];
    }

    void addLemma(E app, E fact)
    {
        lemmas[app].push_back(fact);
        ++g_solver.lemmas;
        assertFact(fact);
    }

    // The application of a tabulated function to x.
    E definition(const FnTable& t, E x, unsigned w)
    {
        std::vector<E> memo(t.terminals.size() + t.nodes.size());
        std::vector<E> bits(21);
        for (unsigned i = 0; i < 21 && i < x->width; ++i)
            bits[i] = mkExtract(x, i, 1);
        std::function<E(u32)> node = [&](u32 n) -> E
        {
            if (n < t.terminals.size())
                return mkConst(t.terminals[n] & maskw(w), w);
            if (!memo[n])
            {
                auto& d = t.nodes[n - t.terminals.size()];
                memo[n] = mkIte(bits[d[0]], node(d[2]), node(d[1]));
            }
            return memo[n];
        };
        u64 max = umaxOf(x);
        unsigned k = 0;
        while (k < 21 && max >> k) // only the bits that can be set
            ++k;
        E v = node(t.roots[k]);
        return t.delta ? mkAdd(x, v) : v;
    }

    u64 modelValue(Z3_model m, E e)
    {
        Z3_ast r;
        if (!Z3_model_eval(ctx, m, tr(e), true, &r))
            return 0;
        if (e->width == 1)
            return Z3_get_bool_value(ctx, r) == Z3_L_TRUE;
        uint64_t v = 0;
        Z3_get_numeral_uint64(ctx, r, &v);
        return v;
    }
}

// Unsatisfiable cores that z3 has found. A conjunction is unsatisfiable when
// it has, or implies, every element of one of them.
static std::unordered_map<u64, std::vector<std::vector<E>>> g_cores;
static u64 coreKey(E e) { return e->kind == K_INSET ? (1ull << 40) | e->val : e->id; }

static bool hasCore(const std::vector<E>& conj)
{
    static std::unordered_set<E> set;
    static std::unordered_map<u64, E> insets;
    set.clear();
    insets.clear();
    for (E e : conj)
    {
        set.insert(e);
        if (e->kind == K_INSET)
        {
            E& x = insets[e->val];
            x = x ? mkAnd(x, e) : e;
        }
    }
    auto implied = [&](E e)
    {
        if (set.count(e))
            return true;
        if (e->kind != K_INSET)
            return false;
        auto it = insets.find(e->val);
        if (it == insets.end())
            return false;
        if (it->second->kind != K_INSET)
            return true; // contradictory
        const Mask& m = *static_cast<const Mask*>(it->second->ext);
        return (m & ~*static_cast<const Mask*>(e->ext)).none();
    };
    for (E e : conj)
    {
        auto it = g_cores.find(coreKey(e));
        if (it == g_cores.end())
            continue;
        for (auto& c : it->second)
        {
            bool all = true;
            for (E x : c)
                if (!implied(x))
                {
                    all = false;
                    break;
                }
            if (all)
                return true;
        }
    }
    return false;
}

static void addCore(std::vector<E> core)
{
    if (core.empty())
        return;
    // Filed under the youngest element, which is the least common one.
    size_t best = 0;
    for (size_t i = 0; i < core.size(); ++i)
        if (core[best]->kind == K_INSET ? core[i]->kind != K_INSET || core[i]->id > core[best]->id
                                        : core[i]->kind != K_INSET && core[i]->id > core[best]->id)
            best = i;
    std::swap(core[0], core[best]);
    auto& l = g_cores[coreKey(core[0])];
    if (l.size() < 200)
        l.push_back(std::move(core));
}

static std::vector<std::vector<u64>> g_models; // recent ones
static size_t g_modelPos = 0;

void solverInit(unsigned timeoutMs, unsigned seed)
{
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e)
    {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
        abort();
    });
    timeout_ms = timeoutMs;
    seed_ = seed;
    for (auto& s : slots)
    {
        cur = &s;
        newSolver();
    }
}

Result solve(const std::vector<E>& conj, std::vector<u64>& model)
{
    auto t0 = std::chrono::steady_clock::now();
    struct Timer
    {
        std::chrono::steady_clock::time_point t0;
        ~Timer() { if (getenv("YS_QT")) fprintf(stderr, "query %.3f\n", std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); g_solver.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    } timer{t0};
    if (hasCore(conj))
    {
        ++g_solver.coreHits;
        return UNSAT;
    }
    for (auto& m : g_models)
    {
        bool ok = true;
        for (E e : conj)
            if (!evalUnder(e, m))
            {
                ok = false;
                break;
            }
        if (ok)
        {
            ++g_solver.modelReuse;
            Sup sup;
            for (E e : conj)
                sup = sup | e->sup;
            for (unsigned i = 0; i < g_vars.size(); ++i)
                if (sup.test(i))
                    model[i] = m[i];
            return SAT;
        }
    }
    ++g_solver.queries;
    Sup sup;
    bool app = false;
    for (E e : conj)
    {
        sup = sup | e->sup;
        app |= e->app;
    }
    std::vector<E> apps;
    if (app)
    {
        std::unordered_set<E> seen;
        for (E e : conj)
            collectApps(e, seen, apps);
    }
    for (int round = 0; round < 3000; ++round)
    {
        cur = slots + (round > 0);
        if (round < 2 && cur->defined > 60)
            newSolver();
        std::vector<Z3_ast> as;
        for (E e : conj)
            as.push_back(litFor(e));
        auto q0 = std::chrono::steady_clock::now();
        Z3_lbool r = Z3_solver_check_assumptions(ctx, cur->sol, unsigned(as.size()), as.data());
        if (getenv("YS_QT")) { fprintf(stderr, "  round %d defined %zu apps %zu r %d: %.3f\n", round, cur->defined, apps.size(), int(r), std::chrono::duration<double>(std::chrono::steady_clock::now() - q0).count()); if (getenv("YS_QE") && round==0) for (E e : conj) fprintf(stderr, "    %s\n", show(e, 12).c_str()); }
        if (r == Z3_L_FALSE)
        {
            ++g_solver.unsat;
            Z3_ast_vector v = Z3_solver_get_unsat_core(ctx, cur->sol);
            Z3_ast_vector_inc_ref(ctx, v);
            std::vector<E> core;
            for (unsigned i = 0; i < Z3_ast_vector_size(ctx, v); ++i)
            {
                Z3_ast x = Z3_ast_vector_get(ctx, v, i);
                for (size_t k = 0; k < as.size(); ++k)
                    if (as[k] == x)
                    {
                        core.push_back(conj[k]);
                        break;
                    }
            }
            Z3_ast_vector_dec_ref(ctx, v);
            addCore(std::move(core));
            return UNSAT;
        }
        if (r == Z3_L_UNDEF)
        {
            ++g_solver.unknown;
            newSolver();
            return UNKNOWN;
        }
        Z3_model m = Z3_solver_get_model(ctx, cur->sol);
        Z3_model_inc_ref(ctx, m);
        std::vector<u64> cand(model);
        for (unsigned i = 0; i < g_vars.size(); ++i)
            if (sup.test(i))
                cand[i] = modelValue(m, varExpr(i));
        bool ok = true;
        for (E e : conj)
            if (!evalUnder(e, cand))
                ok = false;
        if (ok)
        {
            Z3_model_dec_ref(ctx, m);
            model = cand;
            if (g_models.size() < 24)
                g_models.push_back(cand);
            else
                g_models[g_modelPos++ % 24] = cand;
            ++g_solver.sat;
            return SAT;
        }
        if (!app)
        {
            fprintf(stderr, "solver: model does not satisfy the query\n");
            for (E e : conj)
                fprintf(stderr, "  %d %s\n", int(evalUnder(e, cand)), show(e, 30).c_str());
            abort();
        }
        // Some application has another value than the solver assumed.
        bool learned = false;
        std::unordered_map<u64, E> byArgs;
        for (E a : apps)
        {
            u64 z = modelValue(m, a);
            u64 args[3] = {evalUnder(a->a, cand), 0, 0};
            if (a->b)
                args[1] = evalUnder(a->b, cand);
            if (a->c)
                args[2] = evalUnder(a->c, cand);
            u64 real = evalUnder(a, cand);
            if (z == real)
                continue;
            if (!a->b)
            {
                auto* t = g_tableFor(u32(a->val));
                if (t->ok && args[0] < (1ull << 21))
                {
                    if (known.insert({a, nullptr}).second)
                    {
                        E def = mkAnd(mkEq(a, definition(*t, a->a, a->width)),
                                      mkBin(K_ULE, a, mkConst(t->max, a->width)));
                        if (umaxOf(a->a) >> 21)
                            def = mkOr(mkNot(mkBin(K_ULT, a->a, mkConst(1ull << 21, a->a->width))), def);
                        addLemma(a, def);
                        learned = true;
                    }
                    continue;
                }
            }
            std::vector<const Leaf*> todo{g_leafFor(u32(a->val), args)};
            E actuals[3] = {a->a, a->b, a->c};
            std::unordered_map<E, E> memo;
            for (auto* leaf : todo)
            {
                if (!known.insert({a, leaf}).second)
                    continue;
                E cond = mkTrue();
                for (E c : leaf->region)
                    cond = mkAnd(cond, substFormals(c, actuals, memo));
                E res = substFormals(leaf->result, actuals, memo);
                addLemma(a, mkOr(mkNot(cond), mkEq(a, res)));
                learned = true;
            }
        }
        // Equal arguments give equal results.
        for (size_t i = 0; i < apps.size(); ++i)
            for (size_t j = i + 1; j < apps.size(); ++j)
            {
                E x = apps[i], y = apps[j];
                if (x->val != y->val || x->width != y->width || modelValue(m, x) == modelValue(m, y))
                    continue;
                E same = mkEq(x->a, y->a);
                if (x->b)
                    same = mkAnd(same, mkEq(x->b, y->b));
                if (x->c)
                    same = mkAnd(same, mkEq(x->c, y->c));
                if (!evalUnder(same, cand))
                    continue;
                u64 key = (u64(x->id) << 32) | y->id;
                if (!congr.insert(key).second)
                    continue;
                addLemma(x, mkOr(mkNot(same), mkEq(x, y)));
                lemmas[y].push_back(lemmas[x].back());
                learned = true;
            }
        Z3_model_dec_ref(ctx, m);
        if (!learned && round)
        {
            fprintf(stderr, "solver: spurious model without a lemma\n");
            abort();
        }
    }
    ++g_solver.unknown;
    return UNKNOWN;
}
