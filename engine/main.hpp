// Loading the module, the search over paths, and the results: included by
// ysym.cpp.

static std::string jsonStr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + "\"";
}

static void runPasses(const std::string& pipeline)
{
    LoopAnalysisManager lam;
    FunctionAnalysisManager fam;
    CGSCCAnalysisManager cam;
    ModuleAnalysisManager mam;
    PassBuilder pb;
    pb.registerModuleAnalyses(mam);
    pb.registerCGSCCAnalyses(cam);
    pb.registerFunctionAnalyses(fam);
    pb.registerLoopAnalyses(lam);
    pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm;
    if (auto err = pb.parsePassPipeline(mpm, pipeline))
    {
        errs() << "bad pipeline: " << toString(std::move(err)) << "\n";
        exit(3);
    }
    mpm.run(*M, mam);
}

static bool intSignature(Function& f, bool anyArgs)
{
    Type* r = f.getReturnType();
    if (!r->isIntegerTy() || r->getIntegerBitWidth() > 64)
        return false;
    if (anyArgs)
        return true;
    if (f.arg_size() == 0 || f.arg_size() > 3)
        return false;
    for (auto& a : f.args())
        if (!a.getType()->isIntegerTy() || a.getType()->getIntegerBitWidth() > 64)
            return false;
    return true;
}

static bool hasBackEdge(Function& f)
{
    // Any cycle in the control flow graph.
    std::map<BasicBlock*, int> st;
    std::vector<std::pair<BasicBlock*, unsigned>> stack;
    stack.push_back({&f.getEntryBlock(), 0});
    st[&f.getEntryBlock()] = 1;
    while (!stack.empty())
    {
        auto& [b, i] = stack.back();
        auto* t = b->getTerminator();
        if (i < t->getNumSuccessors())
        {
            BasicBlock* n = t->getSuccessor(i++);
            int& x = st[n];
            if (x == 1)
                return true;
            if (x == 0)
            {
                x = 1;
                stack.push_back({n, 0});
            }
        }
        else
        {
            st[b] = 2;
            stack.pop_back();
        }
    }
    return false;
}

static std::map<Function*, int> g_loops;
static bool hasLoop(Function& f)
{
    auto it = g_loops.find(&f);
    if (it != g_loops.end())
        return it->second;
    g_loops[&f] = 0;
    bool r = hasBackEdge(f);
    for (auto& b : f)
        for (auto& i : b)
            if (auto* c = dyn_cast<CallBase>(&i))
                if (auto* g = c->getCalledFunction())
                    if (!g->isDeclaration() && hasLoop(*g))
                        r = true;
    return g_loops[&f] = r;
}

static bool isYs(const Function& f)
{
    return f.getName().starts_with("ys_") || f.getName().starts_with("main");
}

// Does anything the function executes depend on or change memory other than
// constants and its own locals? A function of integers gets no other
// pointers, so it is enough that it and its callees mention no variables.
static bool closedCode(const Value* v, std::set<const Value*>& seen)
{
    if (!seen.insert(v).second)
        return true;
    if (auto* g = dyn_cast<GlobalVariable>(v))
        return g->getName().starts_with("_ZTV") || g->getName().starts_with("_ZTI") || g->isConstant() && (!g->hasInitializer() || closedCode(g->getInitializer(), seen));
    if (auto* f = dyn_cast<Function>(v))
    {
        if (f->isDeclaration())
        {
            static const std::set<std::string> ok{
                "__assert_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_", "_ZSt9terminatev", "abort",
                "__cxa_begin_catch", "memcmp", "bcmp", "memcpy", "memmove", "memset", "strlen", "memchr",
                "__gxx_personality_v0", "_Znwm", "_ZdlPv", "_ZdlPvm", "malloc", "free"};
            // What throws is not evaluated as an application.
            StringRef n = f->getName();
            return n.starts_with("llvm.") || ok.count(n.str()) || n.starts_with("__cxa_") || n.starts_with("_ZNSt9exception")
                   || (n.starts_with("_ZSt") && n.contains("__throw_")) || n.contains("_error") || n == "_Unwind_Resume"
                   || n == "__clang_call_terminate";
        }
        for (auto& b : *f)
            for (auto& i : b)
            {
                if (isa<IntToPtrInst>(i) || isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<FenceInst>(i))
                    return false;
                if (auto* c = dyn_cast<CallBase>(&i))
                    if (!c->getCalledFunction())
                        return false;
                if (auto* l = dyn_cast<LoadInst>(&i))
                    if (l->isVolatile() || l->isAtomic())
                        return false;
                if (auto* st = dyn_cast<StoreInst>(&i))
                    if (st->isVolatile() || st->isAtomic())
                        return false;
                for (auto& o : i.operands())
                    if (isa<Constant>(o.get()) && !closedCode(o.get(), seen))
                        return false;
            }
        return true;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v))
        if (ce->getOpcode() == Instruction::IntToPtr)
            return false;
    if (auto* c = dyn_cast<Constant>(v))
        for (auto& o : c->operands())
            if (!closedCode(o.get(), seen))
                return false;
    return true;
}

static bool pureInt(Function& f)
{
    if (f.isDeclaration() || !intSignature(f, false) || isYs(f))
        return false;
    std::set<const Value*> seen;
    return hasLoop(f) && closedCode(&f, seen);
}

static bool mergeable(Function& f)
{
    return !f.isDeclaration() && f.onlyReadsMemory() && intSignature(f, true) && !isYs(f) && f.size() > 1;
}

// Does the function, through its calls, reach another application candidate?
static bool callsPure(Function& f, std::set<Function*>& seen)
{
    for (auto& b : f)
        for (auto& i : b)
            if (auto* c = dyn_cast<CallBase>(&i))
                if (auto* g = c->getCalledFunction())
                {
                    if (g->isDeclaration() || !seen.insert(g).second)
                        continue;
                    if (pureInt(*g) || callsPure(*g, seen))
                        return true;
                }
    return false;
}

static void collectBases()
{
    auto si = [](const char* d, const char* b) { g_bases[d].push_back(b); };
    si("_ZTISt13runtime_error", "_ZTISt9exception");
    si("_ZTISt11logic_error", "_ZTISt9exception");
    si("_ZTISt9bad_alloc", "_ZTISt9exception");
    si("_ZTISt8bad_cast", "_ZTISt9exception");
    si("_ZTISt17bad_function_call", "_ZTISt9exception");
    si("_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc");
    si("_ZTISt12out_of_range", "_ZTISt11logic_error");
    si("_ZTISt12length_error", "_ZTISt11logic_error");
    si("_ZTISt16invalid_argument", "_ZTISt11logic_error");
    si("_ZTISt12domain_error", "_ZTISt11logic_error");
    si("_ZTISt11range_error", "_ZTISt13runtime_error");
    si("_ZTISt14overflow_error", "_ZTISt13runtime_error");
    si("_ZTISt15underflow_error", "_ZTISt13runtime_error");
    for (auto& g : M->globals())
    {
        if (!g.getName().starts_with("_ZTI") || !g.hasInitializer())
            continue;
        auto* cs = dyn_cast<ConstantStruct>(g.getInitializer());
        if (!cs)
            continue;
        for (unsigned i = 2; i < cs->getNumOperands(); ++i)
            if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()))
                if (b->getName().starts_with("_ZTI"))
                    g_bases[g.getName().str()].push_back(b->getName().str());
    }
}

static State* newState()
{
    auto* s = new State;
    s->model = std::make_shared<std::vector<u64>>(MAX_VARS);
    return s;
}

static void initGlobals()
{
    for (auto& g : M->globals())
    {
        auto o = std::make_shared<Obj>();
        o->size = g.getValueType()->isSized() ? u64(DL->getTypeAllocSize(g.getValueType())) : 0;
        if (g.isDeclaration())
            o->size = std::max<u64>(o->size, 512);
        o->kind = g.isConstant() ? OB_CONST : OB_GLOBAL;
        o->bytes.resize(o->size);
        g_globalId[&g] = u32(g_globals.size());
        g_globals.push_back(o);
    }
    u64 k = 0;
    for (auto& f : *M)
        g_fnAddr[&f] = FN_BASE + 16 * ++k;
    for (auto& g : M->globals())
    {
        if (!g.hasInitializer() || g.getName().starts_with("llvm."))
            continue;
        try
        {
            initGlobal(*g_globals[g_globalId[&g]], g.getInitializer(), 0);
        }
        catch (Unsupported& u)
        {
            g_unsupportedMsgs.insert("initialiser of " + g.getName().str() + ": " + u.what);
        }
    }
}

static void runCtors()
{
    auto* g = M->getGlobalVariable("llvm.global_ctors");
    if (!g || !g->hasInitializer())
        return;
    auto* ca = dyn_cast<ConstantArray>(g->getInitializer());
    if (!ca)
        return;
    std::multimap<u64, Function*> order;
    for (auto& op : ca->operands())
    {
        auto* f = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts());
        if (f && !f->isDeclaration())
            order.emplace(cast<ConstantInt>(cast<ConstantStruct>(op)->getOperand(0))->getZExtValue(), f);
    }
    for (auto& [priority, f] : order)
    {
        std::unique_ptr<State> s(newState());
        Work w;
        g_work = &w;
        try
        {
            pushFrame(*s, *g_fnOf[f], {}, nullptr);
            while (!s->dead && !stepIns(*s, 0))
                ;
            // What the constructor changed and made is there from the start.
            for (auto& [id, o] : s->globalOver)
                g_globals[id] = o;
            for (auto& o : s->objs)
                g_globals.push_back(o);
        }
        catch (Unsupported& u)
        {
            g_unsupportedMsgs.insert("static initialisation: " + u.what);
        }
        g_work = nullptr;
    }
}

static std::string hexVal(u64 v)
{
    return std::to_string(v);
}

static std::string inputsJson(const std::vector<std::pair<std::string, std::vector<u64>>>& in)
{
    std::string r = "[";
    bool first = true;
    for (auto& [n, vs] : in)
    {
        r += (first ? "" : ",") + std::string("[") + jsonStr(n) + ",[";
        for (size_t i = 0; i < vs.size(); ++i)
            r += (i ? "," : "") + hexVal(vs[i]);
        r += "]]";
        first = false;
    }
    return r + "]";
}

static u64 g_completed = 0;

static void pathEnd(State& s)
{
    ++g_completed;
    if (!g_maxSamples)
        return;
    size_t at = g_samples.size();
    if (at >= g_maxSamples)
    {
        at = size_t(g_rng() % g_completed);
        if (at >= g_maxSamples)
            return;
    }
    else
        g_samples.emplace_back();
    std::vector<std::pair<std::string, std::vector<u64>>> in;
    for (auto& i : s.inputs)
    {
        std::vector<u64> vs;
        for (u32 x : i.vars)
            vs.push_back((*s.model)[x]);
        in.push_back({i.name, vs});
    }
    std::string obs = "[";
    for (size_t i = 0; i < s.obs.size(); ++i)
    {
        if (s.obs[i]->undef)
        {
            obs += (i ? "," : "") + std::string("null");
            continue;
        }
        obs += (i ? "," : "") + std::to_string(evalUnder(s.obs[i], *s.model));
    }
    g_samples[at] = "{\"inputs\":" + inputsJson(in) + ",\"obs\":" + obs + "]}";
}

static std::string g_status;
static double g_firstViolation = 0;

static void explore(Fn& entry)
{
    Work w;
    g_work = &w;
    State* first = newState();
    try
    {
        pushFrame(*first, entry, {}, nullptr);
    }
    catch (...)
    {
        delete first;
        throw;
    }
    w.stack.push_back(first);
    // Paths that have used up their time slice, to be continued later.
    std::vector<State*> deferred;
    struct Cleaner
    {
        std::vector<State*>&a, &b;
        ~Cleaner()
        {
            for (State* s : a)
                delete s;
            for (State* s : b)
                delete s;
            a.clear();
            b.clear();
        }
    } cleaner{w.stack, deferred};
    u64 tick = 0;
    double slice = 2;
    while (!w.stack.empty() || !deferred.empty())
    {
        if (w.stack.empty())
        {
            w.stack.swap(deferred);
            slice *= 4;
        }
        std::unique_ptr<State> s(w.stack.back());
        w.stack.pop_back();
        if (!s->deferred)
            ++g_stats.paths;
        double started = elapsed();
        try
        {
            while (!s->dead)
            {
                if (stepIns(*s, 0))
                {
                    pathEnd(*s);
                    break;
                }
                if (s->steps > g_maxSteps)
                {
                    ++g_stats.hangs;
                    report(*s, "hang", "no end after " + std::to_string(g_maxSteps) + " instructions", *s->model);
                    break;
                }
                if ((++tick & 255) == 0)
                {
                    double now = elapsed();
                    if (now > g_timeLimit)
                    {
                        g_status = "timeout";
                        return;
                    }
                    if (s->seconds + (now - started) > g_pathTime)
                    {
                        // Run natively, it may show not to end.
                        ++g_stats.hangs;
                        report(*s, "hang", "no end after " + std::to_string(s->steps) + " instructions", *s->model);
                        break;
                    }
                    if (g_firstViolation && now > g_firstViolation + 5)
                    {
                        g_status = "violations";
                        return;
                    }
                    if (now - started > slice && !w.stack.empty())
                    {
                        s->seconds += now - started;
                        // It may not end. What turned off from it first is
                        // likely to be the quickest to finish.
                        s->deferred = true;
                        deferred.push_back(s.release());
                        std::reverse(w.stack.begin(), w.stack.end());
                        break;
                    }
                }
            }
        }
        catch (Unsupported& u)
        {
            ++g_stats.unsupported;
            g_unsupportedMsgs.insert(u.what + " in " + where(*s));
            if (g_stats.unsupported > 200)
            {
                g_status = "unsupported";
                return;
            }
        }
        if (!g_violations.empty() && g_firstViolation == 0)
            g_firstViolation = elapsed();
        if (g_violations.size() >= g_maxViolations || (g_firstViolation && elapsed() > g_firstViolation + 5))
        {
            g_status = "violations";
            return;
        }
        if (elapsed() > g_timeLimit)
        {
            if (!w.stack.empty())
            {
                g_status = "timeout";
                return;
            }
        }
    }
}

int main(int argc, char** argv)
{
    g_start = std::chrono::steady_clock::now();
    std::string file, out, entry = "ys_main";
    unsigned solverMs = 20000;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--out") out = next();
        else if (a == "--entry") entry = next();
        else if (a == "--param")
        {
            std::string p = next();
            size_t e = p.find('=');
            g_params[p.substr(0, e)] = u64(strtoll(p.c_str() + e + 1, nullptr, 0));
        }
        else if (a == "--time") g_timeLimit = atof(next().c_str());
        else if (a == "--max-steps") g_maxSteps = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--samples") g_maxSamples = unsigned(atoi(next().c_str()));
        else if (a == "--seed") g_seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--apps") g_useApps = next() == "1";
        else if (a == "--merge") g_useMerge = next() == "1";
        else if (a == "--noapp") g_noApp.insert(next());
        else if (a == "--path-time") g_pathTime = strtod(next().c_str(), nullptr);
        else if (a == "--max-violations") g_maxViolations = unsigned(atoi(next().c_str()));
        else if (a == "--parts") g_parts = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--part") g_part = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--cross") g_crossEvery = unsigned(atoi(next().c_str()));
        else if (a == "--solver-ms") solverMs = unsigned(atoi(next().c_str()));
        else file = a;
    }
    g_rng.seed(g_seed);
    g_undefMarkObj.kind = K_UNDEF;
    g_undefMarkObj.width = 8;
    g_undefMarkObj.undef = true;

    LLVMContext ctx;
    SMDiagnostic err;
    M = parseIRFile(file, err, ctx);
    if (!M)
    {
        err.print("ysym", errs());
        return 3;
    }
    DL = &M->getDataLayout();
    Function* ef = M->getFunction(entry);
    if (!ef || ef->isDeclaration())
    {
        fprintf(stderr, "no function %s\n", entry.c_str());
        return 3;
    }
    for (auto& f : *M)
        if (!f.isDeclaration() && &f != ef && !f.getName().starts_with("ys_model_"))
        {
            f.setLinkage(GlobalValue::InternalLinkage);
            f.setComdat(nullptr);
        }
    for (auto& g : M->globals())
        if (!g.isDeclaration() && !g.getName().starts_with("llvm."))
        {
            g.setLinkage(GlobalValue::InternalLinkage);
            g.setComdat(nullptr);
        }
    ef->setComdat(nullptr);

    runPasses("function(sroa),cgscc(function-attrs)");
    std::set<Function*> keep;
    for (auto& f : *M)
    {
        if (f.isDeclaration())
            continue;
        std::string d = f.hasFnAttribute(Attribute::NoInline) ? "" : demangle(f.getName().str());
        if (pureInt(f) || (mergeable(f) && !f.hasFnAttribute(Attribute::AlwaysInline))
            || d.compare(0, 20, "std::__cxx11::to_str") == 0)
        {
            f.addFnAttr(Attribute::NoInline);
            f.removeFnAttr(Attribute::AlwaysInline);
            f.removeFnAttr(Attribute::InlineHint);
        }
    }
    g_loops.clear();
    runPasses("cgscc(inline),function(sroa,early-cse),globaldce,cgscc(function-attrs)");
    ef = M->getFunction(entry);

    u32 idx = 0;
    for (auto& f : *M)
    {
        if (f.isDeclaration())
            continue;
        auto* fn = new Fn;
        fn->F = &f;
        fn->name = f.getName().str();
        fn->pretty = demangle(fn->name);
        fn->index = idx++;
        if (f.getReturnType()->isIntegerTy())
            fn->retWidth = f.getReturnType()->getIntegerBitWidth();
        for (auto& a : f.args())
            fn->argWidth.push_back(a.getType()->isIntegerTy() ? a.getType()->getIntegerBitWidth() : 64);
        g_fns.push_back(fn);
        g_fnOf[&f] = fn;
    }
    for (Fn* fn : g_fns)
    {
        std::set<Function*> seen;
        fn->appOk = pureInt(*fn->F) && !callsPure(*fn->F, seen) && !g_noApp.count(fn->name);
        fn->mergeOk = mergeable(*fn->F);
    }
    g_leafFor = leafFor;
    g_tableFor = tableFor;
    collectBases();
    initGlobals();
    solverInit(solverMs, unsigned(g_seed));
    runCtors();
    double prep = elapsed();

    // An application that turns out not to be one restarts the search.
    unsigned restarts = 0;
    while (true)
    {
        g_status = "complete";
        try
        {
            explore(*g_fnOf[ef]);
            break;
        }
        catch (AppFailure& a)
        {
            if (++restarts > 20)
            {
                g_status = "appfailure";
                break;
            }
            g_fns[a.fn]->appOk = false;
            g_concolic = false;
            g_mergeDepth = 0;
            g_violations.clear();
            g_samples.clear();
            g_reach.clear();
            g_completed = 0;
            g_cache.clear();
            Stats empty;
            g_stats = empty;
            g_unsupportedMsgs.insert("restart without application of " + g_fns[a.fn]->pretty);
        }
    }
    if (g_status == "complete" && g_stats.unsupported)
        g_status = "unsupported";

    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(fo, "{\"status\":%s,\"seconds\":%.3f,\"prepare_seconds\":%.3f,\n", jsonStr(g_status).c_str(), elapsed(), prep);
    fprintf(fo, "\"paths\":%llu,\"completed\":%llu,\"forks\":%llu,\"steps\":%llu,\"assumed_away\":%llu,\"other_parts\":%llu,\"errors\":%llu,\n",
            (unsigned long long)g_stats.paths, (unsigned long long)g_completed, (unsigned long long)g_stats.forks,
            (unsigned long long)g_stats.steps, (unsigned long long)g_stats.assumedAway, (unsigned long long)g_stats.otherParts, (unsigned long long)g_stats.errors);
    fprintf(fo, "\"checks\":%llu,\"checks_trivial\":%llu,\"checks_solver\":%llu,\"checks_unknown\":%llu,\"implicit_checks\":%llu,\n",
            (unsigned long long)g_stats.checks, (unsigned long long)g_stats.checksTrivial, (unsigned long long)g_stats.checksSolver,
            (unsigned long long)g_stats.checksUnknown, (unsigned long long)g_stats.implicitChecks);
    fprintf(fo, "\"model_hits\":%llu,\"cache_hits\":%llu,\"merges\":%llu,\"merged_paths\":%llu,\"apps\":%llu,\"hangs\":%llu,\"unsupported\":%llu,\"unknown_branches\":%llu,\"cross_checks\":%llu,\n",
            (unsigned long long)g_stats.modelHits, (unsigned long long)g_stats.cacheHits, (unsigned long long)g_stats.merges,
            (unsigned long long)g_stats.mergedPaths, (unsigned long long)g_stats.apps, (unsigned long long)g_stats.hangs,
            (unsigned long long)g_stats.unsupported, (unsigned long long)g_stats.unknownBranches,
            (unsigned long long)g_stats.crossChecks);
    fprintf(fo, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"lemmas\":%llu,\"core_hits\":%llu,\"model_reuse\":%llu,\"solver_seconds\":%.3f,\"exprs\":%zu,\"pending_max\":%zu,\n",
            (unsigned long long)g_solver.queries, (unsigned long long)g_solver.sat, (unsigned long long)g_solver.unsat,
            (unsigned long long)g_solver.unknown, (unsigned long long)g_solver.lemmas, (unsigned long long)g_solver.coreHits, (unsigned long long)g_solver.modelReuse, g_solver.seconds, g_exprs.size(), g_pendingMax);
    fprintf(fo, "\"unsupported_messages\":[");
    bool first = true;
    for (auto& m : g_unsupportedMsgs)
    {
        fprintf(fo, "%s%s", first ? "" : ",", jsonStr(m).c_str());
        first = false;
    }
    fprintf(fo, "],\n\"reach\":{");
    first = true;
    for (auto& [k, n] : g_reach)
    {
        fprintf(fo, "%s%s:%llu", first ? "" : ",", jsonStr(k).c_str(), (unsigned long long)n);
        first = false;
    }
    fprintf(fo, "},\n\"functions\":[");
    first = true;
    for (Fn* fn : g_fns)
        if ((fn->calls || !fn->leaves.empty()) && fn->pretty.find("ystring::") != std::string::npos)
        {
            fprintf(fo, "%s%s", first ? "" : ",", jsonStr(fn->pretty.substr(0, 160)).c_str());
            first = false;
        }
    fprintf(fo, "],\n\"applications\":[");
    first = true;
    for (Fn* fn : g_fns)
        if (!fn->leaves.empty())
        {
            fprintf(fo, "%s[%s,%zu]", first ? "" : ",", jsonStr(fn->pretty.substr(0, 160)).c_str(), fn->leaves.size());
            first = false;
        }
    fprintf(fo, "],\n\"violations\":[");
    first = true;
    for (auto& v : g_violations)
    {
        fprintf(fo, "%s\n{\"kind\":%s,\"msg\":%s,\"where\":%s,\"inputs\":%s}", first ? "" : ",", jsonStr(v.kind).c_str(),
                jsonStr(v.msg).c_str(), jsonStr(v.where).c_str(), inputsJson(v.inputs).c_str());
        first = false;
    }
    fprintf(fo, "],\n\"samples\":[");
    first = true;
    for (auto& s : g_samples)
    {
        fprintf(fo, "%s\n%s", first ? "" : ",", s.c_str());
        first = false;
    }
    fprintf(fo, "]}\n");
    fclose(fo);
    fflush(stdout);
    _exit(0);
}
