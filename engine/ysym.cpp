// ysym: a symbolic executor for LLVM bitcode.
//
//   ysym MODULE.bc --out RESULT.json [--entry ys_main] [--param name=value]...
//        [--time SECONDS] [--max-steps N] [--samples N] [--seed N]
//        [--apps 0|1] [--merge 0|1] [--max-violations N]
//
// Executes the entry function on all paths. Bytes and integers made with the
// ys_* functions are symbolic, and so is everything computed from them. Every
// branch is explored when the solver finds it feasible, every ys_check and
// every implicit check (memory accesses, shifts, signed overflow, use of
// uninitialised values, unexpected exceptions) is decided by the solver for
// all values the path admits.
#include "solver.hpp"

#include <llvm/Analysis/CGSCCPassManager.h>
#include <llvm/Analysis/LoopAnalysisManager.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <bit>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <map>
#include <memory>
#include <random>
#include <set>

using namespace llvm;

//////////////////////////////////////////////////////////////////////////////
// Options and statistics

static std::map<std::string, u64> g_params;
static double g_timeLimit = 60;
static u64 g_maxSteps = 400000;
static double g_pathTime = 30;          // seconds for a single path
static unsigned g_maxSamples = 20, g_maxViolations = 4;
static u64 g_seed = 1;
static bool g_useApps = true, g_useMerge = true;
static std::set<std::string> g_noApp;
static unsigned g_crossEvery = 0;
static u64 g_parts = 1, g_part = 0;

struct Stats
{
    u64 paths = 0, forks = 0, steps = 0, assumedAway = 0, errors = 0;
    u64 checks = 0, checksTrivial = 0, checksSolver = 0, checksUnknown = 0;
    u64 implicitChecks = 0;
    u64 fastDecisions = 0, modelHits = 0, cacheHits = 0;
    u64 merges = 0, mergedPaths = 0, apps = 0, crossChecks = 0;
    u64 otherParts = 0;
    u64 hangs = 0, unsupported = 0, unknownBranches = 0;
} g_stats;

static std::chrono::steady_clock::time_point g_start;
static double elapsed()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_start).count();
}

//////////////////////////////////////////////////////////////////////////////
// Pre-decoded program

struct Fn;

struct Opnd { E c = nullptr; u32 slot = 0; };

enum Op : uint8_t
{
    O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_ICMP, O_BIN, O_CAST, O_SELECT, O_BR, O_CONDBR,
    O_SWITCH, O_CALL, O_LANDINGPAD, O_RESUME, O_RET, O_UNREACHABLE, O_COPY, O_FREEZE, O_FLOAT, O_ATOMIC,
    O_UNSUPPORTED
};

struct Leaves { std::vector<unsigned> widths; std::vector<u64> offsets; };

struct Ins
{
    Op op;
    uint8_t sub = 0, w = 0;
    bool nsw = false, isInvoke = false, cleanup = false;
    u32 dst = 0, n = 0;
    std::vector<Opnd> o;
    std::vector<u64> imm;
    std::vector<u32> succ;
    Leaves mem;
    Fn* callee = nullptr;
    int ext = -1;
    const Instruction* I = nullptr;
    std::vector<u32> argStart;    // index in o of each argument's first leaf
    std::vector<u64> byval;       // size of each byval argument, or 0
    std::vector<std::string> clauses; // typeinfo names, "" catches everything
};

struct PhiMove { u32 dst; Opnd src; };
struct Blk
{
    std::vector<Ins> ins;
    std::map<u32, std::vector<PhiMove>> phis; // by predecessor
};

struct Fn
{
    Function* F = nullptr;
    std::string name, pretty;
    std::vector<Blk> blocks;
    u32 nslots = 0, nargs = 0;
    std::vector<u32> argSlot;
    std::vector<unsigned> argWidth;
    bool decoded = false, appOk = false, mergeOk = false;
    unsigned retWidth = 0;
    u32 index = 0;
    u64 calls = 0;
    std::vector<Leaf*> leaves;
    std::unordered_map<u64, std::vector<std::pair<std::array<u64, 3>, u64>>> memo;
};

static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::vector<Fn*> g_fns;
static std::unordered_map<const Function*, Fn*> g_fnOf;
static std::unordered_map<const GlobalVariable*, u32> g_globalId;
static std::unordered_map<const Function*, u64> g_fnAddr;
static std::map<std::string, std::vector<std::string>> g_bases; // typeinfo -> bases
static std::vector<std::string> g_typeNames;
static std::map<std::string, int> g_typeIndex;

static int typeIndex(const std::string& n)
{
    auto it = g_typeIndex.find(n);
    if (it != g_typeIndex.end())
        return it->second;
    g_typeNames.push_back(n);
    return g_typeIndex[n] = int(g_typeNames.size());
}

static bool derivesFrom(const std::string& t, const std::string& base)
{
    if (t == base)
        return true;
    auto it = g_bases.find(t);
    if (it == g_bases.end())
        return false;
    for (auto& b : it->second)
        if (derivesFrom(b, base))
            return true;
    return false;
}

constexpr u64 FN_BASE = 0x7000000000000000ull;

//////////////////////////////////////////////////////////////////////////////
// Memory and states

enum ObjKind : uint8_t { OB_GLOBAL, OB_CONST, OB_STACK, OB_MALLOC, OB_NEW, OB_NEWARR, OB_EXC };

static Expr g_undefMarkObj{};
static E const UNDEF_BYTE = &g_undefMarkObj;

struct Obj
{
    u64 size = 0;
    ObjKind kind = OB_STACK;
    int excType = 0;
    std::vector<uint8_t> bytes;
    std::vector<E> sym; // empty, or one per byte; nullptr is concrete
};
typedef std::shared_ptr<Obj> ObjRef;

struct Frame
{
    Fn* fn;
    u32 block = 0, ip = 0;
    u32 regBase = 0;
    u32 allocaBase = 0;
    const Ins* call = nullptr; // in the caller's function
};

struct Input { std::string name; std::vector<u32> vars; };

typedef std::shared_ptr<std::vector<u64>> ModelRef;

struct State
{
    std::vector<Frame> frames;
    std::vector<E> regs;
    std::vector<ObjRef> objs; // local objects; ids from g_globals.size()
    std::map<u32, ObjRef> globalOver;
    std::vector<u32> allocas;
    std::vector<E> pc;
    std::vector<Mask> dom;   // by variable, for byte variables
    Sup entangled, touched;
    ModelRef model;
    std::vector<u64> caught; // addresses of caught exception objects
    u64 inflight = 0;
    std::vector<E> obs;
    std::vector<Input> inputs;
    std::map<std::string, u32> symCount;
    std::vector<u32> trail;  // reach labels
    u64 steps = 0;
    bool deferred = false;
    double seconds = 0; // spent on it before it was deferred
    bool dead = false;
};

static std::vector<ObjRef> g_globals(1); // id 0 is null
static bool g_concolic = false;          // follow g_formals instead of forking
static int g_mergeDepth = 0;

struct MergeAbort {};
struct AppFailure { u32 fn; };
struct Unsupported { std::string what; };

struct Violation
{
    std::string kind, msg, where;
    std::vector<std::pair<std::string, std::vector<u64>>> inputs;
    std::vector<unsigned> widths;
};
static std::vector<Violation> g_violations;
static std::vector<std::string> g_samples;
static std::map<std::string, u64> g_reach;
static std::set<std::string> g_unsupportedMsgs;
static std::mt19937_64 g_rng;

struct Work { std::vector<State*> stack; };
static Work* g_work = nullptr;
static size_t g_pendingMax = 0;

static ObjRef& objSlot(State& s, u32 id)
{
    static ObjRef null;
    if (id < g_globals.size())
    {
        auto it = s.globalOver.find(id);
        if (it != s.globalOver.end())
            return it->second;
        return g_globals[id];
    }
    id -= u32(g_globals.size());
    if (id >= s.objs.size())
        return null = nullptr;
    return s.objs[id];
}

static Obj& writable(State& s, u32 id)
{
    if (id < g_globals.size())
    {
        if (g_concolic)
            throw MergeAbort();
        auto it = s.globalOver.find(id);
        if (it == s.globalOver.end())
            it = s.globalOver.emplace(id, std::make_shared<Obj>(*g_globals[id])).first;
        else if (it->second.use_count() > 1)
            it->second = std::make_shared<Obj>(*it->second);
        return *it->second;
    }
    auto& r = s.objs[id - g_globals.size()];
    if (r.use_count() > 1)
        r = std::make_shared<Obj>(*r);
    return *r;
}

static u64 newObj(State& s, u64 size, ObjKind kind, bool undef = true)
{
    auto o = std::make_shared<Obj>();
    o->size = size;
    o->kind = kind;
    o->bytes.resize(size);
    if (undef)
        o->sym.assign(size, UNDEF_BYTE);
    s.objs.push_back(std::move(o));
    return u64(g_globals.size() + s.objs.size() - 1) << 32;
}

static E readByte(const Obj& o, u64 off)
{
    if (o.sym.empty() || !o.sym[off])
        return mkConst(o.bytes[off], 8);
    if (o.sym[off] == UNDEF_BYTE)
        return nullptr;
    return o.sym[off];
}

static E readObj(State& s, u32 id, u64 off, unsigned width)
{
    Obj& o = *objSlot(s, id);
    unsigned n = (width + 7) / 8;
    bool conc = true;
    if (!o.sym.empty())
        for (unsigned i = 0; i < n && conc; ++i)
            conc = !o.sym[off + i];
    if (conc)
    {
        u64 v = 0;
        memcpy(&v, &o.bytes[off], n);
        return mkConst(v, width);
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; ++i)
    {
        E b = readByte(o, off + i);
        if (!b)
        {
            // Give the uninitialised byte a name, so that copies of it agree.
            b = mkUndef(8);
            writable(s, id).sym[off + i] = b;
            return readObj(s, id, off, width);
        }
        r = r ? mkConcat(b, r) : b;
    }
    return r->width == width ? r : mkExtract(r, 0, width);
}

static void writeByte(Obj& o, u64 off, E b)
{
    if (isC(b))
    {
        o.bytes[off] = uint8_t(b->val);
        if (!o.sym.empty())
            o.sym[off] = nullptr;
    }
    else
    {
        if (o.sym.empty())
            o.sym.resize(o.size);
        o.sym[off] = b;
    }
}

static void writeObj(Obj& o, u64 off, E v)
{
    unsigned n = (v->width + 7) / 8;
    if (v->width % 8)
        v = mkZext(v, n * 8);
    if (isC(v) && o.sym.empty())
    {
        u64 x = v->val;
        memcpy(&o.bytes[off], &x, n);
        return;
    }
    for (unsigned i = 0; i < n; ++i)
        writeByte(o, off + i, mkExtract(v, i * 8, 8));
}

//////////////////////////////////////////////////////////////////////////////
// Deciding conditions

static std::string where(State& s)
{
    std::string r;
    for (size_t i = s.frames.size(); i-- > 0;)
    {
        const std::string& n = s.frames[i].fn->pretty;
        if (n.compare(0, 9, "ystring::") == 0 || i + 1 == s.frames.size())
            r += (r.empty() ? "" : " < ") + n.substr(0, 120);
        if (r.size() > 400)
            break;
    }
    return r;
}

static void report(State& s, const std::string& kind, const std::string& msg, const std::vector<u64>& model)
{
    if (g_concolic)
        throw MergeAbort();
    if (g_mergeDepth)
        throw MergeAbort();
    ++g_stats.errors;
    std::string at = where(s);
    unsigned same = 0;
    for (auto& v : g_violations)
        if (v.kind == kind && v.msg == msg && (kind == "check" || v.where == at))
            ++same;
    if (same >= 2 || g_violations.size() >= 40)
        return;
    Violation v;
    v.kind = kind;
    v.msg = msg;
    v.where = at;
    for (auto& in : s.inputs)
    {
        std::vector<u64> vals;
        unsigned w = 8;
        for (u32 x : in.vars)
        {
            vals.push_back(model[x]);
            w = g_vars[x].width;
        }
        v.inputs.push_back({in.name, vals});
        v.widths.push_back(w);
    }
    g_violations.push_back(v);
}

static void addConstraint(State& s, E c)
{
    if (isC(c))
        return;
    if (c->kind == K_AND)
    {
        addConstraint(s, c->a);
        addConstraint(s, c->b);
        return;
    }
    if (c->kind == K_NOT && c->a->kind == K_OR)
    {
        addConstraint(s, mkNot(c->a->a));
        addConstraint(s, mkNot(c->a->b));
        return;
    }
    s.touched = s.touched | c->sup;
    if (c->bv >= 0)
    {
        assert(c->kind == K_INSET);
        s.dom[size_t(c->bv)] = s.dom[size_t(c->bv)] & *static_cast<const Mask*>(c->ext);
        return;
    }
    s.pc.push_back(c);
    for (unsigned i = 0; i < g_vars.size(); ++i)
        if (c->sup.test(i))
            s.entangled.set(i);
}

struct VecHash
{
    size_t operator()(const std::vector<u32>& v) const
    {
        u64 h = v.size();
        for (u32 x : v)
            h = (h ^ x) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
        return h;
    }
};
struct Cached { Result r; std::vector<std::pair<u32, u64>> vals; };
static std::unordered_map<std::vector<u32>, Cached, VecHash> g_cache;

static void slice(State& s, E c, std::vector<E>& conj)
{
    Sup sup = c->sup;
    conj.clear();
    conj.push_back(c);
    std::vector<char> in(s.pc.size());
    for (bool again = true; again;)
    {
        again = false;
        for (size_t i = 0; i < s.pc.size(); ++i)
        {
            if (!in[i] && s.pc[i]->sup.intersects(sup))
            {
                in[i] = 1;
                sup = sup | s.pc[i]->sup;
                conj.push_back(s.pc[i]);
                again = true;
            }
        }
    }
    for (unsigned i = 0; i < s.dom.size(); ++i)
        if (sup.test(i) && g_vars[i].width == 8 && !s.dom[i].all())
            conj.push_back(mkInset(i, s.dom[i]));
}

// Is c possible on this path? If so, out is a model of the path and c.
static Result feasible(State& s, E c, ModelRef& out)
{
    if (evalUnder(c, *s.model))
    {
        out = s.model;
        ++g_stats.modelHits;
        return SAT;
    }
    if (c->kind == K_INSET)
    {
        unsigned v = unsigned(c->val);
        Mask m = s.dom[v] & *static_cast<const Mask*>(c->ext);
        if (m.none() || !s.entangled.test(v))
        {
            if (g_crossEvery && ++g_stats.fastDecisions % g_crossEvery == 0)
            {
                std::vector<E> conj{c, mkInset(v, s.dom[v])};
                if (isC(conj[1]))
                    conj.pop_back();
                std::vector<u64> mm(*s.model);
                ++g_stats.crossChecks;
                if ((solve(conj, mm) == SAT) != !m.none())
                {
                    fprintf(stderr, "domain decision disagrees with z3\n");
                    abort();
                }
            }
            if (m.none())
                return UNSAT;
            out = std::make_shared<std::vector<u64>>(*s.model);
            (*out)[v] = u64(m.first());
            return SAT;
        }
    }
    std::vector<E> conj;
    slice(s, c, conj);
    std::vector<u32> key;
    for (E e : conj)
        key.push_back(e->id);
    std::sort(key.begin(), key.end());
    auto it = g_cache.find(key);
    if (it == g_cache.end())
    {
        std::vector<u64> m(*s.model);
        Cached cr;
        cr.r = solve(conj, m);
        if (cr.r == SAT)
        {
            Sup sup;
            for (E e : conj)
                sup = sup | e->sup;
            for (unsigned i = 0; i < g_vars.size(); ++i)
                if (sup.test(i))
                    cr.vals.push_back({i, m[i]});
        }
        it = g_cache.emplace(std::move(key), std::move(cr)).first;
    }
    else
    {
        ++g_stats.cacheHits;
    }
    if (it->second.r == SAT)
    {
        out = std::make_shared<std::vector<u64>>(*s.model);
        for (auto& [i, v] : it->second.vals)
            (*out)[i] = v;
    }
    return it->second.r;
}

static bool inPc(State& s, E c)
{
    for (E e : s.pc)
        if (e == c)
            return true;
    return false;
}

static void kill(State& s) { s.dead = true; }

static State* forkState(State& s)
{
    ++g_stats.forks;
    auto* o = new State(s);
    o->deferred = false;
    o->seconds = 0;
    g_work->stack.push_back(o);
    g_pendingMax = std::max(g_pendingMax, g_work->stack.size());
    return o;
}

static void checkUndef(State& s, E e, const char* what)
{
    if (e->undef)
    {
        if (getenv("YS_DEBUG"))
            fprintf(stderr, "undef %s: %s\n", what, show(e, 6).c_str());
        report(s, "uninitialised", std::string("use of an uninitialised value in a ") + what, *s.model);
        kill(s);
    }
}

// Decides a condition: true or false on this path, the other side is
// explored by a forked state that executes the same instruction again.
static bool decide(State& s, E c)
{
    if (isC(c))
        return c->val != 0;
    checkUndef(s, c, "condition");
    if (s.dead)
        return false;
    if (g_concolic)
    {
        ++g_epoch;
        bool v = evalE(c) != 0;
        s.pc.push_back(v ? c : mkNot(c));
        return v;
    }
    if (c->bv < 0)
    {
        if (inPc(s, c))
            return true;
        if (inPc(s, mkNot(c)))
            return false;
    }
    E nc = mkNot(c);
    ModelRef mt, mf;
    Result rt = feasible(s, c, mt);
    Result rf = feasible(s, nc, mf);
    if (rt == UNKNOWN || rf == UNKNOWN)
    {
        ++g_stats.unknownBranches;
        // Follow only a side that is known to be feasible.
        if (rt == UNKNOWN)
            rt = UNSAT;
        if (rf == UNKNOWN)
            rf = UNSAT;
    }
    if (rt == SAT && rf == SAT)
    {
        State* o = forkState(s);
        addConstraint(*o, nc);
        o->model = mf;
        addConstraint(s, c);
        s.model = mt;
        return true;
    }
    if (rt != SAT && rf != SAT)
    {
        kill(s);
        return false;
    }
    return rt == SAT;
}

// An implicit check: ok must hold. Continues with ok assumed.
static void require(State& s, E ok, const char* kind, const std::string& msg)
{
    if (isC(ok))
    {
        if (!ok->val)
        {
            if (g_concolic)
                throw MergeAbort();
            report(s, kind, msg, *s.model);
            kill(s);
        }
        return;
    }
    checkUndef(s, ok, "checked operand");
    if (s.dead)
        return;
    ++g_stats.implicitChecks;
    if (g_concolic)
    {
        ++g_epoch;
        if (!evalE(ok))
            throw MergeAbort();
        s.pc.push_back(ok);
        return;
    }
    ModelRef m;
    Result r = feasible(s, mkNot(ok), m);
    if (r == UNKNOWN)
    {
        ++g_stats.checksUnknown;
        return;
    }
    if (r == UNSAT)
        return;
    report(s, kind, msg, *m);
    ModelRef g;
    if (feasible(s, ok, g) != SAT)
    {
        kill(s);
        return;
    }
    addConstraint(s, ok);
    s.model = g;
}

// The value of e on this path; other values are explored by forked states.
static u64 concretize(State& s, E e)
{
    if (isC(e))
        return e->val;
    checkUndef(s, e, "address or size");
    if (s.dead)
        return 0;
    if (g_concolic)
    {
        ++g_epoch;
        u64 v = evalE(e);
        s.pc.push_back(mkEq(e, mkConst(v, e->width)));
        return v;
    }
    u64 v = evalUnder(e, *s.model);
    decide(s, mkEq(e, mkConst(v, e->width)));
    return v;
}

//////////////////////////////////////////////////////////////////////////////
// Decoding the module

static void leavesOf(Type* t, u64 off, Leaves& l)
{
    if (t->isIntegerTy())
    {
        if (t->getIntegerBitWidth() > 64)
            throw Unsupported{"integer wider than 64 bits"};
        l.widths.push_back(t->getIntegerBitWidth());
        l.offsets.push_back(off);
    }
    else if (t->isPointerTy() || t->isDoubleTy())
    {
        l.widths.push_back(64);
        l.offsets.push_back(off);
    }
    else if (t->isFloatTy())
    {
        l.widths.push_back(32);
        l.offsets.push_back(off);
    }
    else if (auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i)
            leavesOf(st->getElementType(i), off + sl->getElementOffset(i), l);
    }
    else if (auto* at = dyn_cast<ArrayType>(t))
    {
        u64 sz = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); ++i)
            leavesOf(at->getElementType(), off + i * sz, l);
    }
    else if (!t->isVoidTy())
    {
        std::string n;
        raw_string_ostream os(n);
        t->print(os);
        throw Unsupported{"type " + n};
    }
}

static u64 constAddr(const Constant* c);

static void constLeaves(const Constant* c, std::vector<E>& out)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() > 64)
            throw Unsupported{"wide constant"};
        out.push_back(mkConst(ci->getZExtValue(), ci->getBitWidth()));
    }
    else if (auto* cf = dyn_cast<ConstantFP>(c); cf && (t->isFloatTy() || t->isDoubleTy()))
        out.push_back(mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), t->isFloatTy() ? 32 : 64));
    else if (isa<ConstantPointerNull>(c))
        out.push_back(mkConst(0, 64));
    else if (isa<UndefValue>(c)) // includes poison
    {
        Leaves l;
        leavesOf(t, 0, l);
        for (unsigned w : l.widths)
            out.push_back(mkUndef(w));
    }
    else if (isa<ConstantAggregateZero>(c))
    {
        Leaves l;
        leavesOf(t, 0, l);
        for (unsigned w : l.widths)
            out.push_back(mkConst(0, w));
    }
    else if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            constLeaves(cast<Constant>(ca->getOperand(i)), out);
    }
    else if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            constLeaves(cd->getElementAsConstant(i), out);
    }
    else if (t->isPointerTy())
        out.push_back(mkConst(constAddr(c), 64));
    else if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (ce->getOpcode() == Instruction::PtrToInt)
        {
            std::vector<E> v;
            constLeaves(ce->getOperand(0), v);
            out.push_back(mkResize(v[0], t->getIntegerBitWidth()));
        }
        else if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add)
        {
            std::vector<E> v;
            constLeaves(ce->getOperand(0), v);
            constLeaves(ce->getOperand(1), v);
            out.push_back(ce->getOpcode() == Instruction::Sub ? mkSub(v[0], v[1]) : mkAdd(v[0], v[1]));
        }
        else if (ce->getOpcode() == Instruction::Trunc)
        {
            std::vector<E> v;
            constLeaves(ce->getOperand(0), v);
            out.push_back(mkResize(v[0], t->getIntegerBitWidth()));
        }
        else
            throw Unsupported{"constant expression"};
    }
    else
        throw Unsupported{"constant"};
}

static u64 constAddr(const Constant* c)
{
    if (isa<ConstantPointerNull>(c))
        return 0;
    if (auto* f = dyn_cast<Function>(c))
    {
        auto it = g_fnAddr.find(f);
        if (it == g_fnAddr.end())
            it = g_fnAddr.emplace(f, FN_BASE + (u64(g_fnAddr.size() + 1) << 8)).first;
        return it->second;
    }
    if (auto* g = dyn_cast<GlobalVariable>(c))
        return u64(g_globalId.at(g)) << 32;
    if (auto* ga = dyn_cast<GlobalAlias>(c))
        return constAddr(ga->getAliasee());
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (ce->getOpcode() == Instruction::GetElementPtr)
        {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
                throw Unsupported{"constant GEP"};
            return constAddr(ce->getOperand(0)) + u64(off.getSExtValue());
        }
        if (ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::BitCast
            || ce->getOpcode() == Instruction::AddrSpaceCast)
        {
            std::vector<E> v;
            constLeaves(ce->getOperand(0), v);
            return v[0]->val;
        }
    }
    throw Unsupported{"constant address"};
}

static void initGlobal(Obj& o, const Constant* c, u64 off)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c))
        return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        StringRef raw = cd->getRawDataValues();
        memcpy(&o.bytes[off], raw.data(), raw.size());
        return;
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        auto* st = dyn_cast<StructType>(t);
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
        {
            u64 eo = st ? u64(DL->getStructLayout(st)->getElementOffset(i))
                        : i * DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
            initGlobal(o, cast<Constant>(ca->getOperand(i)), off + eo);
        }
        return;
    }
    if (t->isFloatingPointTy())
    {
        if (auto* cf = dyn_cast<ConstantFP>(c))
        {
            u64 v = cf->getValueAPF().bitcastToAPInt().getLimitedValue();
            memcpy(&o.bytes[off], &v, std::min<u64>(8, DL->getTypeStoreSize(t)));
        }
        return;
    }
    std::vector<E> v;
    constLeaves(c, v);
    u64 x = v[0]->val;
    memcpy(&o.bytes[off], &x, (v[0]->width + 7) / 8);
}

static std::map<std::string, int> g_extIndex;
static std::vector<std::string> g_extNames;
static int extIndex(const std::string& n)
{
    auto it = g_extIndex.find(n);
    if (it != g_extIndex.end())
        return it->second;
    g_extNames.push_back(n);
    return g_extIndex[n] = int(g_extNames.size()) - 1;
}

struct Decoder
{
    Fn& fn;
    std::unordered_map<const Value*, u32> slot;
    std::unordered_map<const BasicBlock*, u32> blockNo;

    void opnd(const Value* v, std::vector<Opnd>& out)
    {
        Leaves l;
        if (auto* c = dyn_cast<Constant>(v))
        {
            std::vector<E> es;
            constLeaves(c, es);
            for (E e : es)
            {
                Opnd o;
                o.c = e;
                out.push_back(o);
            }
            return;
        }
        leavesOf(v->getType(), 0, l);
        u32 b = slot.at(v);
        for (u32 i = 0; i < l.widths.size(); ++i)
        {
            Opnd o;
            o.slot = b + i;
            out.push_back(o);
        }
    }

    u32 allot(const Value* v)
    {
        Leaves l;
        leavesOf(v->getType(), 0, l);
        u32 r = fn.nslots;
        slot[v] = r;
        fn.nslots += u32(l.widths.size());
        return u32(l.widths.size());
    }

    static u32 leafIndex(Type* t, ArrayRef<unsigned> idx)
    {
        u32 n = 0;
        for (unsigned i : idx)
        {
            if (auto* st = dyn_cast<StructType>(t))
            {
                for (unsigned k = 0; k < i; ++k)
                {
                    Leaves l;
                    leavesOf(st->getElementType(k), 0, l);
                    n += u32(l.widths.size());
                }
                t = st->getElementType(i);
            }
            else
            {
                auto* at = cast<ArrayType>(t);
                Leaves l;
                leavesOf(at->getElementType(), 0, l);
                n += u32(l.widths.size()) * i;
                t = at->getElementType();
            }
        }
        return n;
    }

    static unsigned leafCount(Type* t)
    {
        Leaves l;
        leavesOf(t, 0, l);
        return unsigned(l.widths.size());
    }

    void run()
    {
        Function& F = *fn.F;
        for (auto& a : F.args())
        {
            fn.argSlot.push_back(fn.nslots);
            allot(&a);
        }
        fn.nargs = fn.nslots;
        u32 bn = 0;
        for (auto& b : F)
        {
            blockNo[&b] = bn++;
            for (auto& i : b)
                if (!i.getType()->isVoidTy())
                    try
                    {
                        allot(&i);
                    }
                    catch (Unsupported&)
                    {
                        slot[&i] = fn.nslots;
                    }
        }
        fn.blocks.resize(bn);
        for (auto& b : F)
        {
            Blk& blk = fn.blocks[blockNo[&b]];
            for (auto& i : b)
            {
                if (auto* phi = dyn_cast<PHINode>(&i))
                {
                    for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k)
                    {
                        std::vector<Opnd> src;
                        opnd(phi->getIncomingValue(k), src);
                        auto& mv = blk.phis[blockNo[phi->getIncomingBlock(k)]];
                        // The same predecessor may be listed more than once.
                        bool dup = false;
                        for (auto& m : mv)
                            dup |= m.dst == slot[phi];
                        if (dup)
                            continue;
                        for (u32 j = 0; j < src.size(); ++j)
                            mv.push_back({slot[phi] + j, src[j]});
                    }
                    continue;
                }
                Ins in;
                in.I = &i;
                try
                {
                    if (decode(i, in))
                        blk.ins.push_back(std::move(in));
                }
                catch (Unsupported& u)
                {
                    Ins bad;
                    bad.I = &i;
                    bad.op = O_UNSUPPORTED;
                    blk.ins.push_back(std::move(bad));
                }
            }
        }
    }

    bool decode(Instruction& i, Ins& in)
    {
        if (!i.getType()->isVoidTy())
        {
            in.dst = slot[&i];
            in.n = leafCount(i.getType());
        }
        switch (i.getOpcode())
        {
        case Instruction::Alloca:
        {
            auto& a = cast<AllocaInst>(i);
            in.op = O_ALLOCA;
            in.imm.push_back(DL->getTypeAllocSize(a.getAllocatedType()));
            opnd(a.getArraySize(), in.o);
            return true;
        }
        case Instruction::Load:
            in.op = O_LOAD;
            leavesOf(i.getType(), 0, in.mem);
            in.imm.push_back(DL->getTypeStoreSize(i.getType()));
            opnd(i.getOperand(0), in.o);
            return true;
        case Instruction::Store:
            in.op = O_STORE;
            leavesOf(i.getOperand(0)->getType(), 0, in.mem);
            in.imm.push_back(DL->getTypeStoreSize(i.getOperand(0)->getType()));
            opnd(i.getOperand(1), in.o);
            opnd(i.getOperand(0), in.o);
            return true;
        case Instruction::GetElementPtr:
        {
            // imm[0] is the constant part, imm[k] the scale of operand k.
            in.op = O_GEP;
            opnd(i.getOperand(0), in.o);
            u64 base = 0;
            in.imm.push_back(0);
            for (auto it = gep_type_begin(i), e = gep_type_end(i); it != e; ++it)
            {
                Value* idx = it.getOperand();
                if (auto* st = it.getStructTypeOrNull())
                {
                    base += DL->getStructLayout(st)->getElementOffset(unsigned(cast<ConstantInt>(idx)->getZExtValue()));
                    continue;
                }
                u64 sz = DL->getTypeAllocSize(it.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx))
                {
                    base += u64(ci->getSExtValue()) * sz;
                    continue;
                }
                opnd(idx, in.o);
                in.imm.push_back(sz);
            }
            in.imm[0] = base;
            return true;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
        case Instruction::FNeg: case Instruction::FCmp: case Instruction::FPExt: case Instruction::FPTrunc:
        case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI:
            in.op = O_FLOAT;
            in.sub = uint8_t(i.getOpcode());
            for (auto& o : i.operands())
                opnd(o.get(), in.o);
            if (in.o.size() > 2 || in.n != 1)
                throw Unsupported{"floating point vector"};
            return true;
        case Instruction::ICmp:
            in.op = O_ICMP;
            in.sub = uint8_t(cast<ICmpInst>(i).getPredicate());
            opnd(i.getOperand(0), in.o);
            opnd(i.getOperand(1), in.o);
            return true;
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul:
        case Instruction::Shl:
            in.nsw = cast<OverflowingBinaryOperator>(i).hasNoSignedWrap();
            [[fallthrough]];
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
        case Instruction::SRem: case Instruction::LShr: case Instruction::AShr:
        case Instruction::And: case Instruction::Or: case Instruction::Xor:
            in.op = O_BIN;
            in.sub = uint8_t(i.getOpcode());
            opnd(i.getOperand(0), in.o);
            opnd(i.getOperand(1), in.o);
            in.w = uint8_t(i.getType()->getIntegerBitWidth());
            return true;
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
            in.op = O_CAST;
            in.sub = uint8_t(i.getOpcode());
            in.w = uint8_t(i.getType()->isIntegerTy() ? i.getType()->getIntegerBitWidth() : i.getType()->isFloatTy() ? 32 : 64);
            opnd(i.getOperand(0), in.o);
            return true;
        case Instruction::Select:
            in.op = O_SELECT;
            in.sub = i.getType()->isIntegerTy();
            for (unsigned k = 0; k < 3; ++k)
                opnd(i.getOperand(k), in.o);
            return true;
        case Instruction::Freeze:
            in.op = O_FREEZE;
            opnd(i.getOperand(0), in.o);
            return true;
        case Instruction::ExtractValue:
        {
            auto& x = cast<ExtractValueInst>(i);
            in.op = O_COPY;
            std::vector<Opnd> all;
            opnd(x.getAggregateOperand(), all);
            u32 at = leafIndex(x.getAggregateOperand()->getType(), x.getIndices());
            in.o.assign(all.begin() + at, all.begin() + at + in.n);
            return true;
        }
        case Instruction::InsertValue:
        {
            auto& x = cast<InsertValueInst>(i);
            in.op = O_COPY;
            opnd(x.getAggregateOperand(), in.o);
            std::vector<Opnd> v;
            opnd(x.getInsertedValueOperand(), v);
            u32 at = leafIndex(x.getType(), x.getIndices());
            std::copy(v.begin(), v.end(), in.o.begin() + at);
            return true;
        }
        case Instruction::AtomicRMW:
        {
            // There is one thread.
            auto& a = cast<AtomicRMWInst>(i);
            in.op = O_ATOMIC;
            in.sub = uint8_t(a.getOperation());
            in.w = uint8_t(DL->getTypeSizeInBits(i.getType()));
            opnd(a.getPointerOperand(), in.o);
            opnd(a.getValOperand(), in.o);
            return true;
        }
        case Instruction::AtomicCmpXchg:
        {
            auto& a = cast<AtomicCmpXchgInst>(i);
            in.op = O_ATOMIC;
            in.sub = 255;
            in.w = uint8_t(DL->getTypeSizeInBits(a.getNewValOperand()->getType()));
            opnd(a.getPointerOperand(), in.o);
            opnd(a.getNewValOperand(), in.o);
            opnd(a.getCompareOperand(), in.o);
            return true;
        }
        case Instruction::Fence:
            return false;
        case Instruction::Br:
        {
            auto& b = cast<BranchInst>(i);
            if (b.isUnconditional())
            {
                in.op = O_BR;
                in.succ.push_back(blockNo[b.getSuccessor(0)]);
            }
            else
            {
                in.op = O_CONDBR;
                opnd(b.getCondition(), in.o);
                in.succ.push_back(blockNo[b.getSuccessor(0)]);
                in.succ.push_back(blockNo[b.getSuccessor(1)]);
            }
            return true;
        }
        case Instruction::Switch:
        {
            auto& sw = cast<SwitchInst>(i);
            in.op = O_SWITCH;
            opnd(sw.getCondition(), in.o);
            in.succ.push_back(blockNo[sw.getDefaultDest()]);
            for (auto& c : sw.cases())
            {
                in.imm.push_back(c.getCaseValue()->getZExtValue());
                in.succ.push_back(blockNo[c.getCaseSuccessor()]);
            }
            return true;
        }
        case Instruction::Ret:
            in.op = O_RET;
            if (i.getNumOperands())
                opnd(i.getOperand(0), in.o);
            return true;
        case Instruction::Unreachable:
            in.op = O_UNREACHABLE;
            return true;
        case Instruction::Resume:
            in.op = O_RESUME;
            opnd(i.getOperand(0), in.o);
            return true;
        case Instruction::LandingPad:
        {
            auto& lp = cast<LandingPadInst>(i);
            in.op = O_LANDINGPAD;
            in.cleanup = lp.isCleanup();
            for (unsigned k = 0; k < lp.getNumClauses(); ++k)
            {
                if (lp.isFilter(k))
                    throw Unsupported{"filter"};
                auto* c = lp.getClause(k);
                in.clauses.push_back(isa<ConstantPointerNull>(c) ? "" : c->getName().str());
            }
            return true;
        }
        case Instruction::Call:
        case Instruction::Invoke:
        {
            auto& cb = cast<CallBase>(i);
            in.op = O_CALL;
            if (auto* inv = dyn_cast<InvokeInst>(&i))
            {
                in.isInvoke = true;
                in.succ.push_back(blockNo[inv->getNormalDest()]);
                in.succ.push_back(blockNo[inv->getUnwindDest()]);
            }
            Function* f = cb.getCalledFunction();
            if (f && f->isIntrinsic())
            {
                StringRef n = f->getName();
                if (n.starts_with("llvm.lifetime") || n.starts_with("llvm.dbg")
                    || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.invariant")
                    || n.starts_with("llvm.assume") || n.starts_with("llvm.prefetch"))
                    return false;
            }
            if (cb.isInlineAsm())
                throw Unsupported{"inline asm"};
            for (unsigned k = 0; k < cb.arg_size(); ++k)
            {
                in.argStart.push_back(u32(in.o.size()));
                in.byval.push_back(cb.isByValArgument(k) ? u64(DL->getTypeAllocSize(cb.getParamByValType(k))) : 0);
                if (cb.getArgOperand(k)->getType()->isMetadataTy())
                    continue;
                opnd(cb.getArgOperand(k), in.o);
            }
            if (f)
            {
                auto it = g_fnOf.find(f);
                if (it != g_fnOf.end())
                    in.callee = it->second;
                else
                    in.ext = extIndex(f->getName().str());
            }
            else
            {
                in.argStart.push_back(u32(in.o.size()));
                opnd(cb.getCalledOperand(), in.o);
                in.ext = -2; // indirect
            }
            if (auto* ii = dyn_cast<IntrinsicInst>(&i))
                in.w = uint8_t(ii->getType()->isIntegerTy() ? ii->getType()->getIntegerBitWidth() : 0);
            else if (i.getType()->isIntegerTy())
                in.w = uint8_t(i.getType()->getIntegerBitWidth());
            return true;
        }
        default:
            in.op = O_UNSUPPORTED;
            return true;
        }
    }
};

static void ensureDecoded(Fn& f)
{
    if (f.decoded)
        return;
    f.decoded = true;
    Decoder d{f, {}, {}};
    d.run();
}

#include "exec.hpp"
#include "main.hpp"
