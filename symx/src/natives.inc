// Functions implemented by the engine: allocation, exceptions, the harness interface, a few libc leaves.
struct Native { std::string name; std::function<bool(std::vector<Val> &, Val &, DI &)> fn; };
static std::vector<Native> natives;
static std::unordered_map<std::string, int> nativeIdx;
static std::unordered_map<Function *, int> nativeMemo;
static int nativeId(Function *F) {
    auto it = nativeMemo.find(F);
    if (it != nativeMemo.end()) return it->second;
    int r = -2;
    auto j = nativeIdx.find(F->getName().str());
    // a definition inside the module wins, except for the harness interface and the allocator
    if (j != nativeIdx.end()) r = j->second;
    nativeMemo[F] = r;
    return r;
}
static void pushFrame(Thread &t, Function *F, const std::vector<Val> &args, bool stop);
static void raise(uint64_t obj, uint64_t ti);
static const GlobalVariable *gvAt(uint64_t a);
static int64_t baseOffset(const GlobalVariable *d, const GlobalVariable *b);
static double bitsdN(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }

static uint64_t doMalloc(const Val &n, const char *what, uint8_t fill) {
    uint64_t sz = concretize(n, "allocation size");
    if (sz > (1ull << 31)) memErr("huge-allocation", "allocation of " + std::to_string(sz) + " bytes");
    return allocObj(*S, sz, O_HEAP, fill, what);
}
static void doFree(const Val &p, const char *what) {
    uint64_t a = concretize(p, "free");
    if (!a) return;
    Obj *o = findObj(*S, a);
    if (!o || o->kind != O_HEAP || a != o->base) memErr("bad-free", std::string(what) + " of a pointer that was not allocated");
    if (o->freed) memErr("double-free", std::string(what) + " of memory already freed");
    o = writableObj(*S, o);
    o->freed = true;
    for (auto &pg : o->pages) pg.reset();
}
static E symInput(const std::string &name, unsigned w, u128 lo, u128 hi) {
    E e = lo == hi ? mkConst(lo, w) : mkSym((unsigned)S->inputs.size(), name, w, lo, hi);
    S->inputs.push_back({name, e});
    return e;
}
static E cmpMem(uint64_t a, uint64_t b, uint64_t n) {
    E r = mkConst(0, 32);
    if (!n) return r;
    uint64_t ao, bo; E x;
    Obj *oa = resolve(Val(a, 64), n, false, ao, x);
    Obj *ob = resolve(Val(b, 64), n, false, bo, x);
    std::vector<std::pair<E, E>> diff;
    for (uint64_t k = 0; k < n; ++k) {
        uint8_t ca, cb;
        E ea = byteE(oa, ao + k, ca), eb = byteE(ob, bo + k, cb);
        if (!ea && !eb) { if (ca == cb) continue; diff.push_back({mkConst(ca, 8), mkConst(cb, 8)}); break; }
        diff.push_back({ea ? ea : mkConst(ca, 8), eb ? eb : mkConst(cb, 8)});
    }
    for (size_t i = diff.size(); i-- > 0;) {
        E p = diff[i].first, q = diff[i].second;
        r = mkIte(mkEq(p, q), r, mkIte(mkBin(K_ULT, p, q), mkConst((u128)-1, 32), mkConst(1, 32)));
    }
    return r;
}

static void registerNatives() {
    auto reg = [&](std::initializer_list<const char *> names, std::function<bool(std::vector<Val> &, Val &, DI &)> fn) {
        for (auto n : names) { nativeIdx[n] = natives.size(); natives.push_back({n, fn}); }
    };
    auto ret0 = [](std::vector<Val> &, Val &r, DI &d) { r = Val(0, d.w && d.w <= 64 ? d.w : 64); return true; };
    // --- harness interface
    reg({"sx_u64", "sx_u32", "sx_u16", "sx_u8"}, nullptr);
    for (auto &p : {std::make_pair("sx_u64", 64u), std::make_pair("sx_u32", 32u), std::make_pair("sx_u16", 16u), std::make_pair("sx_u8", 8u)}) {
        unsigned w = p.second;
        natives[nativeIdx[p.first]].fn = [w](std::vector<Val> &a, Val &r, DI &) { r = fromE(symInput(cstr(a[0].c), w, 0, maskOf(w))); return true; };
    }
    reg({"sx_range"}, [](std::vector<Val> &a, Val &r, DI &) {
        uint64_t lo = concretize(a[1], "range"), hi = concretize(a[2], "range");
        if (lo > hi) throw PathEnd{"assume", "empty range"};
        unsigned w = 1;
        while (w < 64 && (hi >> w)) w++;
        r = fromE(mkZExt(symInput(cstr(a[0].c), w, lo, hi), 64)); return true; });
    reg({"sx_assume"}, [](std::vector<Val> &a, Val &, DI &) {
        Val c = a[0];
        E b = c.w == 1 ? toE(c) : mkNot(mkEq(toE(c), mkConst(0, c.w)));
        if (isTrue(b)) return true;
        if (isFalse(b)) throw PathEnd{"assume", ""};
        if (!evalE(b, *S->model)) {
            ModelP m; Res q = feasible(b, &m);
            if (q == R_UNSAT) throw PathEnd{"assume", ""};
            if (q == R_UNKNOWN) throw PathEnd{"incomplete", "solver unknown: assume"};
            S->model = m;
        }
        addPC(*S, b);
        return true; });
    reg({"sx_assert"}, [](std::vector<Val> &a, Val &, DI &) {
        std::string label = cstr(a[1].c);
        Val c = a[0];
        E b = c.w == 1 ? toE(c) : mkNot(mkEq(toE(c), mkConst(0, c.w)));
        AssertInfo &ai = asserts[label];
        ai.checked++;
        if (isTrue(b)) { ai.constTrue++; return true; }
        if (S->pcIds.count(b->id)) { ai.proved++; return true; }
        ModelP m; Res q = R_SAT;
        if (!evalE(b, *S->model)) m = S->model; else q = feasible(mkNot(b), &m);
        if (q == R_UNSAT) { ai.proved++; return true; }
        if (q == R_UNKNOWN) { ai.unknown++; incomplete("solver unknown: assertion " + label); addPC(*S, b); return true; }
        ai.failed++;
        recordViolation("assert", label, "assertion '" + label + "' fails", m);
        // go on with the inputs for which it holds
        ModelP m2;
        if (evalE(b, *S->model)) m2 = S->model;
        else { Res q2 = isFalse(b) ? R_UNSAT : feasible(b, &m2); if (q2 != R_SAT) throw PathEnd{"assert-failed", ""}; }
        S->model = m2;
        addPC(*S, b);
        return true; });
    reg({"sx_reach"}, [](std::vector<Val> &a, Val &, DI &) { std::string l = cstr(a[0].c); if (std::find(S->reached.begin(), S->reached.end(), l) == S->reached.end()) S->reached.push_back(l); return true; });
    reg({"sx_obs"}, [](std::vector<Val> &a, Val &, DI &) { S->obs.push_back(a[0]); return true; });
    reg({"sx_param"}, [](std::vector<Val> &a, Val &r, DI &) { auto it = params.find(cstr(a[0].c)); r = it == params.end() ? a[1] : Val((uint64_t)it->second, 64); return true; });
    reg({"sx_concretize"}, [](std::vector<Val> &a, Val &r, DI &) { r = Val(concretize(a[0], "requested"), 64); return true; });
    reg({"sx_symbolic_engine"}, [](std::vector<Val> &, Val &r, DI &) { r = Val(1, 32); return true; });
    reg({"sx_is_symbolic"}, [](std::vector<Val> &a, Val &r, DI &) { r = Val(a[0].e ? 1 : 0, 32); return true; });
    reg({"sx_stop"}, [](std::vector<Val> &, Val &, DI &) -> bool { throw PathEnd{"done", ""}; });
    reg({"sx_debug"}, [](std::vector<Val> &a, Val &, DI &) { if (verbose) fprintf(stderr, "DEBUG %s %s\n", cstr(a[0].c).c_str(), toStr(toE(a[1]), 8).c_str()); return true; });
    // cooperative threads: the harness runtime schedules, the engine only switches stacks
    reg({"sx_thread_create"}, [](std::vector<Val> &a, Val &r, DI &) {
        uint64_t fa = concretize(a[0], "thread");
        auto it = slotFunc.find((uint32_t)(fa >> SLOT_BITS));
        if (it == slotFunc.end()) memErr("wild-call", "thread function");
        S->th.emplace_back();
        pushFrame(S->th.back(), it->second, {a[1]}, true);
        r = Val(S->th.size() - 1, 32); return true; });
    reg({"sx_thread_switch"}, [](std::vector<Val> &a, Val &, DI &d) -> bool {
        uint64_t to = concretize(a[0], "thread switch");
        Frame &g = S->th[S->cur].st.back();
        if (d.opc == Instruction::Invoke) jump(g, d.succ[0]); else g.idx++;
        if (to >= S->th.size() || S->th[to].st.empty()) throw PathEnd{"incomplete", "switch to a finished thread"};
        S->cur = (unsigned)to;
        return false; });
    // --- allocation
    reg({"malloc"}, [](std::vector<Val> &a, Val &r, DI &) { r = Val(doMalloc(a[0], "malloc", 0xAA), 64); return true; });
    reg({"_Znwm", "_ZnwmRKSt9nothrow_t", "_ZnwmSt11align_val_t"}, [](std::vector<Val> &a, Val &r, DI &) { r = Val(doMalloc(a[0], "new", 0xAA), 64); return true; });
    reg({"_Znam", "_ZnamRKSt9nothrow_t", "_ZnamSt11align_val_t"}, [](std::vector<Val> &a, Val &r, DI &) { r = Val(doMalloc(a[0], "new[]", 0xAA), 64); return true; });
    reg({"calloc"}, [](std::vector<Val> &a, Val &r, DI &) { uint64_t n = concretize(a[0], "calloc"), m = concretize(a[1], "calloc"); r = Val(doMalloc(Val(n * m, 64), "calloc", 0), 64); return true; });
    reg({"realloc"}, [](std::vector<Val> &a, Val &r, DI &) {
        uint64_t p = concretize(a[0], "realloc"), n = concretize(a[1], "realloc");
        uint64_t q = doMalloc(Val(n, 64), "realloc", 0xAA);
        if (p) { Obj *o = findObj(*S, p); if (!o || o->freed || o->base != p) memErr("bad-free", "realloc"); copyMem(q, p, std::min(o->size, n)); doFree(Val(p, 64), "realloc"); }
        r = Val(q, 64); return true; });
    reg({"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"},
        [](std::vector<Val> &a, Val &, DI &) { doFree(a[0], "free"); return true; });
    reg({"posix_memalign"}, [](std::vector<Val> &a, Val &r, DI &) { uint64_t n = concretize(a[2], "memalign"); uint64_t q = doMalloc(Val(n, 64), "posix_memalign", 0xAA); storeMem(a[0], 8, Val(q, 64)); r = Val(0, 32); return true; });
    // --- memory and strings
    reg({"memcpy", "memmove"}, [](std::vector<Val> &a, Val &r, DI &) { uint64_t n = concretize(a[2], "memcpy size"), d = concretize(a[0], "memcpy dst"), s = concretize(a[1], "memcpy src"); copyMem(d, s, n); r = Val(d, 64); return true; });
    reg({"memset"}, [](std::vector<Val> &a, Val &r, DI &) { uint64_t n = concretize(a[2], "memset size"), d = concretize(a[0], "memset"); Val b = a[1].e ? fromE(mkExtract(a[1].e, 0, 8)) : Val(a[1].c, 8); setMem(d, b, n); r = Val(d, 64); return true; });
    reg({"memcmp", "bcmp"}, [](std::vector<Val> &a, Val &r, DI &) { uint64_t n = concretize(a[2], "memcmp size"), p = concretize(a[0], "memcmp"), q = concretize(a[1], "memcmp"); r = fromE(cmpMem(p, q, n)); return true; });
    // --- exceptions
    reg({"__cxa_allocate_exception"}, [](std::vector<Val> &a, Val &r, DI &) { r = Val(allocObj(*S, std::max<uint64_t>(concretize(a[0], "exception size"), 8), O_HEAP, 0, "exception"), 64); return true; });
    reg({"__cxa_free_exception"}, ret0);
    reg({"__cxa_throw"}, [](std::vector<Val> &a, Val &, DI &) -> bool { S->excTI[a[0].c] = a[1].c; raise(a[0].c, a[1].c); return false; });
    reg({"__cxa_begin_catch"}, [](std::vector<Val> &a, Val &r, DI &) { uint64_t o = a[0].c; S->th[S->cur].caught.push_back({o, S->excTI[o]}); r = a[0]; return true; });
    reg({"__cxa_get_exception_ptr"}, [](std::vector<Val> &a, Val &r, DI &) { r = a[0]; return true; });
    reg({"__cxa_end_catch"}, [](std::vector<Val> &, Val &, DI &) { auto &c = S->th[S->cur].caught; if (!c.empty()) c.pop_back(); return true; });
    reg({"__cxa_rethrow"}, [](std::vector<Val> &, Val &, DI &) -> bool { auto &c = S->th[S->cur].caught; if (c.empty()) memErr("terminate", "rethrow without exception"); Exc x = c.back(); raise(x.obj, x.ti); return false; });
    reg({"_ZSt9terminatev", "__clang_call_terminate", "__cxa_pure_virtual", "__cxa_call_unexpected"}, [](std::vector<Val> &, Val &, DI &) -> bool { memErr("terminate", "std::terminate"); });
    reg({"abort"}, [](std::vector<Val> &, Val &, DI &) -> bool { memErr("abort", "abort()"); });
    reg({"__assert_fail"}, [](std::vector<Val> &a, Val &, DI &) -> bool { memErr("assert-macro", cstr(a[0].c)); });
    reg({"exit", "_exit", "_Exit"}, [](std::vector<Val> &, Val &, DI &) -> bool { memErr("exit", "exit()"); });
    reg({"__dynamic_cast"}, [](std::vector<Val> &a, Val &r, DI &) {
        uint64_t p = concretize(a[0], "dynamic_cast");
        if (!p) { r = Val(0, 64); return true; }
        uint64_t vt = loadMem(Val(p, 64), 8, 64).c;
        uint64_t ti = loadMem(Val(vt - 8, 64), 8, 64).c; int64_t tp = (int64_t)loadMem(Val(vt - 16, 64), 8, 64).c;
        int64_t o = baseOffset(gvAt(ti), gvAt(a[2].c));
        r = Val(o < 0 ? 0 : p + tp + o, 64); return true; });
    reg({"__cxa_atexit", "__cxa_thread_atexit", "atexit"}, ret0);
    reg({"__cxa_guard_acquire"}, [](std::vector<Val> &a, Val &r, DI &) { Val v = loadMem(a[0], 1, 8); r = Val(v.c ? 0 : 1, 32); return true; });
    reg({"__cxa_guard_release"}, [](std::vector<Val> &a, Val &, DI &) { storeMem(a[0], 1, Val(1, 8)); return true; });
    reg({"__cxa_guard_abort"}, ret0);
    // --- output and clocks: no effect
    reg({"printf", "puts", "putchar", "fprintf", "vfprintf", "vprintf", "fputs", "fputc", "fflush", "perror", "fwrite_stdout", "usleep", "sleep", "sched_yield", "nanosleep", "srand", "time", "clock", "gettimeofday", "clock_gettime", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"}, ret0);
    reg({"_ZSt18uncaught_exceptionv"}, ret0);
    reg({"_ZSt19uncaught_exceptionsv"}, ret0);
    for (const char *n : {"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutex_trylock", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy"}) reg({n}, ret0);
    reg({"pthread_self"}, [](std::vector<Val> &, Val &r, DI &) { r = Val(1, 64); return true; });
    // --- math on concrete arguments
    auto m1 = [&](const char *n, double (*fp)(double)) {
        reg({n}, [fp](std::vector<Val> &a, Val &r, DI &) {
            if (a[0].e) throw PathEnd{"incomplete", "symbolic argument of a math function"};
            double x = fp(bitsdN(a[0].c)); uint64_t u; memcpy(&u, &x, 8); r = Val(u, 64); return true; });
    };
    m1("sin", std::sin); m1("cos", std::cos); m1("exp", std::exp); m1("log", std::log); m1("log2", std::log2); m1("log10", std::log10); m1("sqrt", std::sqrt); m1("floor", std::floor); m1("ceil", std::ceil); m1("round", std::round); m1("tanh", std::tanh); m1("log1p", std::log1p); m1("fabs", std::fabs); m1("atan", std::atan); m1("tan", std::tan);
    auto m1f = [&](const char *n, float (*fp)(float)) {
        reg({n}, [fp](std::vector<Val> &a, Val &r, DI &) {
            if (a[0].e) throw PathEnd{"incomplete", "symbolic argument of a math function"};
            float x; uint32_t u = (uint32_t)a[0].c; memcpy(&x, &u, 4); x = fp(x); memcpy(&u, &x, 4); r = Val(u, 32); return true; });
    };
    m1f("sqrtf", sqrtf); m1f("floorf", floorf); m1f("ceilf", ceilf); m1f("logf", logf); m1f("expf", expf); m1f("sinf", sinf); m1f("cosf", cosf); m1f("roundf", roundf); m1f("tanhf", tanhf);
    reg({"pow"}, [](std::vector<Val> &a, Val &r, DI &) {
        if (a[0].e || a[1].e) throw PathEnd{"incomplete", "symbolic argument of a math function"};
        double x = std::pow(bitsdN(a[0].c), bitsdN(a[1].c)); uint64_t u; memcpy(&u, &x, 8); r = Val(u, 64); return true; });
    // --- formatting of numbers (the arguments are made concrete)
    auto fmt = [](uint64_t buf, uint64_t n, uint64_t f, std::vector<Val> va) -> int {
        std::string fs = cstr(f), out;
        size_t ai = 0;
        for (size_t i = 0; i < fs.size(); ++i) {
            if (fs[i] != '%') { out += fs[i]; continue; }
            std::string spec = "%"; ++i;
            while (i < fs.size() && !isalpha((unsigned char)fs[i]) && fs[i] != '%') {
                if (fs[i] == '*') { spec += std::to_string((int)va[ai++].c); ++i; continue; }
                spec += fs[i++];
            }
            int l = 0;
            while (i < fs.size() && (fs[i] == 'l' || fs[i] == 'h' || fs[i] == 'z' || fs[i] == 'j' || fs[i] == 'L')) { if (fs[i] != 'h') l++; ++i; }
            char c = fs[i], tmp[512];
            if (c == '%') { out += '%'; continue; }
            if (ai >= va.size()) throw PathEnd{"incomplete", "format arguments"};
            Val &v = va[ai++];
            if (c == 's') snprintf(tmp, sizeof tmp, (spec + "s").c_str(), cstr(v.c).c_str());
            else if (strchr("fgeEG", c)) snprintf(tmp, sizeof tmp, (spec + c).c_str(), bitsdN(v.c));
            else if (c == 'c') snprintf(tmp, sizeof tmp, (spec + "c").c_str(), (int)v.c);
            else if (strchr("di", c)) snprintf(tmp, sizeof tmp, (spec + "lld").c_str(), l ? (long long)v.c : (long long)(int)v.c);
            else snprintf(tmp, sizeof tmp, (spec + "ll" + c).c_str(), l ? (unsigned long long)v.c : (unsigned long long)(unsigned)v.c);
            out += tmp;
        }
        if (n) {
            for (size_t i = 0; i <= out.size() && i < n; ++i) storeMem(Val(buf + i, 64), 1, Val(i + 1 == n || i == out.size() ? 0 : (uint8_t)out[i], 8));
        }
        return (int)out.size();
    };
    reg({"snprintf"}, [fmt](std::vector<Val> &a, Val &r, DI &) {
        for (auto &v : a) if (v.e) v = Val(concretize(v, "format"), v.w);
        r = Val((uint32_t)fmt(a[0].c, a[1].c, a[2].c, {a.begin() + 3, a.end()}), 32); return true; });
    reg({"sprintf"}, [fmt](std::vector<Val> &a, Val &r, DI &) {
        for (auto &v : a) if (v.e) v = Val(concretize(v, "format"), v.w);
        r = Val((uint32_t)fmt(a[0].c, 1 << 20, a[1].c, {a.begin() + 2, a.end()}), 32); return true; });
    reg({"vsnprintf"}, [fmt](std::vector<Val> &a, Val &r, DI &) {
        for (auto &v : a) if (v.e) v = Val(concretize(v, "format"), v.w);
        uint64_t va = a[3].c;
        uint64_t go = loadMem(Val(va, 64), 4, 32).c, area = loadMem(Val(va + 8, 64), 8, 64).c;
        std::vector<Val> l;
        (void)go;
        Obj *o = findObj(*S, area);
        for (uint64_t x = area; o && x + 8 <= o->base + o->size; x += 8) { Val v = loadMem(Val(x, 64), 8, 64); if (v.e) v = Val(concretize(v, "format"), 64); l.push_back(v); }
        r = Val((uint32_t)fmt(a[0].c, a[1].c, a[2].c, l), 32); return true; });
    reg({"strtod"}, [](std::vector<Val> &a, Val &r, DI &) {
        uint64_t p = concretize(a[0], "strtod"); std::string s = cstr(p); char *e; double d = strtod(s.c_str(), &e);
        uint64_t ep = concretize(a[1], "strtod"); if (ep) storeMem(Val(ep, 64), 8, Val(p + (e - s.c_str()), 64));
        uint64_t u; memcpy(&u, &d, 8); r = Val(u, 64); return true; });
    reg({"rand"}, [](std::vector<Val> &, Val &r, DI &) { r = fromE(mkExtract(symInput("rand", 64, 0, 0x7fffffff), 0, 32)); return true; });
    reg({"__errno_location"}, [](std::vector<Val> &, Val &r, DI &) { static uint64_t a = 0; (void)a; auto *g = M->getGlobalVariable("sx_errno"); r = Val(g ? gaddr[g] : 0, 64); return true; });
}
