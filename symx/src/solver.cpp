#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
SolverStats g_sstats;
static Z3_context ctx;
static Z3_solver sol, solFp, solOne;
static Z3_sort bvs[129];
static Z3_sort fp32, fp64;
static Z3_ast rne, rtz;
static std::string dumpDir; static double dumpMin = getenv("SYMX_DUMPMIN") ? atof(getenv("SYMX_DUMPMIN")) : 2.0;

static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

void solverInit(unsigned rlimit, const char *dd) {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(ctx, onErr);
    for (unsigned i = 1; i <= 128; ++i) { bvs[i] = Z3_mk_bv_sort(ctx, i); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, bvs[i])); }
    fp32 = Z3_mk_fpa_sort_single(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp32));
    fp64 = Z3_mk_fpa_sort_double(ctx); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, fp64));
    rne = Z3_mk_fpa_rne(ctx); Z3_inc_ref(ctx, rne);
    rtz = Z3_mk_fpa_rtz(ctx); Z3_inc_ref(ctx, rtz);
    sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, sol);
    solOne = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, solOne);
    solFp = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BVFP"));
    Z3_solver_inc_ref(ctx, solFp);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
    if (const char *tp = getenv("SYMX_SATP")) { // "name=val,name=val"
        std::string t = tp; size_t i = 0;
        while (i < t.size()) { size_t j = t.find(',', i); if (j == std::string::npos) j = t.size(); std::string kv = t.substr(i, j - i); size_t q = kv.find('='); std::string k = kv.substr(0, q), v = kv.substr(q + 1);
            if (v == "true" || v == "false") Z3_params_set_bool(ctx, p, Z3_mk_string_symbol(ctx, k.c_str()), v == "true"); else Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.c_str()), atoi(v.c_str()));
            i = j + 1; }
    }
    Z3_solver_set_params(ctx, sol, p);
    Z3_solver_set_params(ctx, solOne, p);
    Z3_solver_set_params(ctx, solFp, p);
    if (dd) dumpDir = dd;
}

static Z3_ast P(Z3_ast a) { Z3_inc_ref(ctx, a); return a; } // pinned for the life of the process

static Z3_ast low(E e);
static Z3_ast asBool(E e) { // 1-bit term as Bool
    switch (e->k) {
    case K_CONST: return e->v ? P(Z3_mk_true(ctx)) : P(Z3_mk_false(ctx));
    case K_EQ: return e->a->w == 1 ? P(Z3_mk_iff(ctx, asBool(e->a), asBool(e->b))) : P(Z3_mk_eq(ctx, low(e->a), low(e->b)));
    case K_ULT: return P(Z3_mk_bvult(ctx, low(e->a), low(e->b)));
    case K_ULE: return P(Z3_mk_bvule(ctx, low(e->a), low(e->b)));
    case K_SLT: return P(Z3_mk_bvslt(ctx, low(e->a), low(e->b)));
    case K_SLE: return P(Z3_mk_bvsle(ctx, low(e->a), low(e->b)));
    default: return P(Z3_mk_eq(ctx, low(e), P(Z3_mk_unsigned_int(ctx, 1, bvs[1]))));
    }
}
static Z3_ast toFp(E e) { return P(Z3_mk_fpa_to_fp_bv(ctx, low(e), e->w == 64 ? fp64 : fp32)); }
static Z3_ast b2bv(Z3_ast b) { return P(Z3_mk_ite(ctx, b, P(Z3_mk_unsigned_int(ctx, 1, bvs[1])), P(Z3_mk_unsigned_int(ctx, 0, bvs[1])))); }
static bool hasFp(E e) { // conservative: computed through a per-expression flag map
    static std::unordered_map<uint32_t, bool> memo;
    if (e->k >= K_FADD) return true;
    if (!e->a) return false;
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    bool r = hasFp(e->a) || (e->b && hasFp(e->b)) || (e->c && hasFp(e->c));
    memo[e->id] = r;
    return r;
}

static Z3_ast low(E e) {
    if (e->z3) return (Z3_ast)e->z3;
    Z3_ast r;
    switch (e->k) {
    case K_CONST: r = P(Z3_mk_numeral(ctx, u128str(e->v).c_str(), bvs[e->w])); break;
    case K_SYM: r = P(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, (g_syms[e->off].name + "#" + std::to_string(e->off)).c_str()), bvs[e->w])); break;
    case K_ADD: r = P(Z3_mk_bvadd(ctx, low(e->a), low(e->b))); break;
    case K_SUB: r = P(Z3_mk_bvsub(ctx, low(e->a), low(e->b))); break;
    case K_MUL: r = P(Z3_mk_bvmul(ctx, low(e->a), low(e->b))); break;
    case K_UDIV: r = P(Z3_mk_bvudiv(ctx, low(e->a), low(e->b))); break;
    case K_SDIV: r = P(Z3_mk_bvsdiv(ctx, low(e->a), low(e->b))); break;
    case K_UREM: r = P(Z3_mk_bvurem(ctx, low(e->a), low(e->b))); break;
    case K_SREM: r = P(Z3_mk_bvsrem(ctx, low(e->a), low(e->b))); break;
    case K_AND: r = P(Z3_mk_bvand(ctx, low(e->a), low(e->b))); break;
    case K_OR: r = P(Z3_mk_bvor(ctx, low(e->a), low(e->b))); break;
    case K_XOR: r = (isC(e->b) && e->w == 1) ? P(Z3_mk_bvnot(ctx, low(e->a))) : P(Z3_mk_bvxor(ctx, low(e->a), low(e->b))); break;
    case K_SHL: r = P(Z3_mk_bvshl(ctx, low(e->a), low(e->b))); break;
    case K_LSHR: r = P(Z3_mk_bvlshr(ctx, low(e->a), low(e->b))); break;
    case K_ASHR: r = P(Z3_mk_bvashr(ctx, low(e->a), low(e->b))); break;
    case K_CONCAT: r = P(Z3_mk_concat(ctx, low(e->a), low(e->b))); break;
    case K_EXTRACT: r = P(Z3_mk_extract(ctx, e->off + e->w - 1, e->off, low(e->a))); break;
    case K_ZEXT: r = P(Z3_mk_zero_ext(ctx, e->w - e->a->w, low(e->a))); break;
    case K_SEXT: r = P(Z3_mk_sign_ext(ctx, e->w - e->a->w, low(e->a))); break;
    case K_ITE: r = P(Z3_mk_ite(ctx, asBool(e->a), low(e->b), low(e->c))); break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = b2bv(asBool(e)); break;
    case K_FADD: r = P(Z3_mk_fpa_to_ieee_bv(ctx, P(Z3_mk_fpa_add(ctx, rne, toFp(e->a), toFp(e->b))))); break;
    case K_FSUB: r = P(Z3_mk_fpa_to_ieee_bv(ctx, P(Z3_mk_fpa_sub(ctx, rne, toFp(e->a), toFp(e->b))))); break;
    case K_FMUL: r = P(Z3_mk_fpa_to_ieee_bv(ctx, P(Z3_mk_fpa_mul(ctx, rne, toFp(e->a), toFp(e->b))))); break;
    case K_FDIV: r = P(Z3_mk_fpa_to_ieee_bv(ctx, P(Z3_mk_fpa_div(ctx, rne, toFp(e->a), toFp(e->b))))); break;
    case K_FOEQ: r = b2bv(P(Z3_mk_fpa_eq(ctx, toFp(e->a), toFp(e->b)))); break;
    case K_FOLT: r = b2bv(P(Z3_mk_fpa_lt(ctx, toFp(e->a), toFp(e->b)))); break;
    case K_FOLE: r = b2bv(P(Z3_mk_fpa_leq(ctx, toFp(e->a), toFp(e->b)))); break;
    case K_FUNO: { Z3_ast o[2] = {P(Z3_mk_fpa_is_nan(ctx, toFp(e->a))), P(Z3_mk_fpa_is_nan(ctx, toFp(e->b)))}; r = b2bv(P(Z3_mk_or(ctx, 2, o))); break; }
    case K_FPCAST: r = P(Z3_mk_fpa_to_ieee_bv(ctx, P(Z3_mk_fpa_to_fp_float(ctx, rne, toFp(e->a), e->w == 64 ? fp64 : fp32)))); break;
    case K_UITOFP: r = P(Z3_mk_fpa_to_ieee_bv(ctx, P(Z3_mk_fpa_to_fp_unsigned(ctx, rne, low(e->a), e->w == 64 ? fp64 : fp32)))); break;
    case K_SITOFP: r = P(Z3_mk_fpa_to_ieee_bv(ctx, P(Z3_mk_fpa_to_fp_signed(ctx, rne, low(e->a), e->w == 64 ? fp64 : fp32)))); break;
    case K_FPTOUI: r = P(Z3_mk_fpa_to_ubv(ctx, rtz, toFp(e->a), e->w)); break;
    case K_FPTOSI: r = P(Z3_mk_fpa_to_sbv(ctx, rtz, toFp(e->a), e->w)); break;
    default: abort();
    }
    Z3_inc_ref(ctx, r);
    e->z3 = r;
    return r;
}

static void assertRange(Z3_solver s, uint32_t id) {
    SymInfo &si = g_syms[id];
    if (si.lo != 0) Z3_solver_assert(ctx, s, P(Z3_mk_bvuge(ctx, low(si.e), low(mkConst(si.lo, si.w)))));
    if (si.hi != maskOf(si.w)) Z3_solver_assert(ctx, s, P(Z3_mk_bvule(ctx, low(si.e), low(mkConst(si.hi, si.w)))));
}
namespace {
struct VH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u128>> m; };
std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;
}

Res solve(const std::vector<E> &pc, E cond, const ModelP &base, ModelP *out) {
    if (isFalse(cond)) return R_UNSAT;
    if (isTrue(cond)) { if (out) *out = base; return R_SAT; }
    // independence slicing
    std::vector<uint32_t> S = support(cond);
    std::vector<E> rel{cond};
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) {
            auto &s = support(pc[i]);
            size_t x = 0, y = 0; bool hit = false;
            while (x < s.size() && y < S.size()) { if (s[x] == S[y]) { hit = true; break; } if (s[x] < S[y]) ++x; else ++y; }
            if (!hit) continue;
            used[i] = 1; rel.push_back(pc[i]);
            std::vector<uint32_t> t;
            std::set_union(S.begin(), S.end(), s.begin(), s.end(), std::back_inserter(t));
            if (t.size() != S.size()) { S.swap(t); ch = true; }
        }
    }
    std::vector<uint32_t> key;
    for (E e : rel) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if (it != cache.end()) {
        g_sstats.cacheHits++;
        if (it->second.r == R_SAT && out) {
            ModelP m = newModel(base.get());
            for (auto &p : it->second.m) { if (m->vals.size() <= p.first) m->vals.resize(g_syms.size()); m->vals[p.first] = p.second; }
            *out = m;
        }
        return it->second.r;
    }
    // a recent model may do
    static std::vector<ModelP> ring;
    static size_t ringPos = 0;
    for (size_t i = 0; i < ring.size(); ++i) {
        ModelP &m = ring[(ringPos + ring.size() - 1 - i) % ring.size()];
        bool ok = true;
        for (uint32_t id : S) if (id >= m->vals.size() || m->vals[id] < g_syms[id].lo || m->vals[id] > g_syms[id].hi) { ok = false; break; }
        for (size_t k = 0; ok && k < rel.size(); ++k) if (!evalE(rel[k], *m)) ok = false;
        if (!ok) continue;
        g_sstats.cacheHits++;
        CacheEnt ce; ce.r = R_SAT;
        for (uint32_t id : S) ce.m.push_back({id, m->vals[id]});
        if (out) {
            ModelP nm = newModel(base.get());
            if (nm->vals.size() < g_syms.size()) nm->vals.resize(g_syms.size());
            for (auto &p : ce.m) nm->vals[p.first] = p.second;
            *out = nm;
        }
        cache.emplace(std::move(key), ce);
        return R_SAT;
    }
    bool fp = false;
    for (E e : rel) if (hasFp(e)) fp = true;
    Z3_solver s = fp ? solFp : sol;
    auto t0 = std::chrono::steady_clock::now();
    Z3_lbool r;
    // two ways to ask: one incremental solver, or a fresh one per query; whichever has been faster lately
    static double avg[2] = {0, 0};
    static unsigned asked = 0;
    int mode = avg[1] < avg[0] ? 1 : 0;
    if (!fp && ++asked % 24 == 0) mode = 1 - mode;
    if (!fp && mode == 1) s = solOne;
    if (fp || mode == 1) {
        Z3_solver_reset(ctx, s);
        for (E e : rel) Z3_solver_assert(ctx, s, asBool(e));
        for (uint32_t id : S) assertRange(s, id);
        r = Z3_solver_check(ctx, s);
    } else {
        // incremental: every constraint is asserted once behind a literal, a query is a set of literals
        static std::unordered_map<uint32_t, Z3_ast> lits;
        static std::vector<char> ranged;
        static unsigned asserted = 0;
        if (asserted > 800) { Z3_solver_reset(ctx, s); lits.clear(); ranged.clear(); asserted = 0; }
        for (uint32_t id : S) {
            if (ranged.size() <= id) ranged.resize(g_syms.size());
            if (!ranged[id]) { ranged[id] = 1; assertRange(s, id); }
        }
        std::vector<Z3_ast> as;
        for (E e : rel) {
            Z3_ast &l = lits[e->id];
            if (!l) {
                asserted++;
                l = P(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("!c" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(ctx)));
                Z3_solver_assert(ctx, s, P(Z3_mk_implies(ctx, l, asBool(e))));
            }
            as.push_back(l);
        }
        r = Z3_solver_check_assumptions(ctx, s, as.size(), as.data());
    }
    CacheEnt ce;
    if (r == Z3_L_TRUE) {
        ce.r = R_SAT;
        Z3_model zm = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, zm);
        for (uint32_t id : S) {
            Z3_ast v;
            if (!Z3_model_eval(ctx, zm, low(g_syms[id].e), true, &v)) abort();
            Z3_inc_ref(ctx, v);
            u128 val = 0;
            if (g_syms[id].w <= 64) { uint64_t u; if (!Z3_get_numeral_uint64(ctx, v, &u)) abort(); val = u; }
            else { const char *str = Z3_get_numeral_string(ctx, v); for (const char *p = str; *p; ++p) val = val * 10 + (*p - '0'); }
            Z3_dec_ref(ctx, v);
            ce.m.push_back({id, val});
        }
        Z3_model_dec_ref(ctx, zm);
    } else ce.r = r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!fp) avg[mode] += (dt - avg[mode]) * 0.15;
    g_sstats.queries++;
    g_sstats.secs += dt;
    if (dt > g_sstats.maxq) g_sstats.maxq = dt;
    if (ce.r == R_SAT) g_sstats.sat++; else if (ce.r == R_UNSAT) g_sstats.unsat++; else g_sstats.unknown++;
    if (!dumpDir.empty() && dt > dumpMin) {
        static int n = 0;
        FILE *f = fopen((dumpDir + "/q" + std::to_string(n++) + ".smt2").c_str(), "w");
        if (f) { fprintf(f, "; %.2fs\n%s", dt, Z3_solver_to_string(ctx, s)); if (s == sol) for (E e : rel) fprintf(f, "(assert !c%u) ; %s\n", e->id, toStr(e, 12).c_str()); fprintf(f, "(check-sat)\n"); fclose(f); }
    }
    if (ce.r == R_SAT) {
        // the model must satisfy the query under our own evaluator (checks the lowering to Z3)
        ModelP m = newModel(base.get());
        if (m->vals.size() < g_syms.size()) m->vals.resize(g_syms.size());
        for (auto &p : ce.m) m->vals[p.first] = p.second;
        for (E e : rel) if (!evalE(e, *m)) { fprintf(stderr, "symx: solver model does not satisfy %s\n", toStr(e).c_str()); ce.r = R_UNKNOWN; g_sstats.unknown++; break; }
        if (ce.r == R_SAT && out) *out = m;
        if (ce.r == R_SAT) { if (ring.size() < 24) ring.push_back(m); else ring[ringPos++ % 24] = m; }
    }
    cache.emplace(std::move(key), ce);
    return ce.r;
}
