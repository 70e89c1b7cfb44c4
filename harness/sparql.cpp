// SPARQL SELECT queries from text to rows, against a direct evaluation of the algebra.
#include "memdb.h"
#include <cts/parser/SPARQLLexer.hpp>
#include <cts/parser/SPARQLParser.hpp>
#include <cts/semana/SemanticAnalysis.hpp>
#include <cts/plangen/PlanGen.hpp>
#include <cts/codegen/CodeGen.hpp>
#include <cts/infra/QueryGraph.hpp>
#include <rts/runtime/QueryDict.hpp>
#include <sstream>
#include <map>
#include <unordered_set>
#include <trident/utils/json.h>
#define private public
#include <rts/operator/ResultsPrinter.hpp>
#undef private
#include <map>
#include <set>
#include <memory>
// ---- queries as trees: rendered to text for the code, evaluated here for the reference
typedef std::string S;
static const uint64_t U = UINT64_MAX;
struct Pat; typedef std::shared_ptr<Pat> P;
struct Pat {
    enum Kind { Triple, Group, Opt, Union, Minus, FEq, FNe, FBound, FNotBound, FOr, FAnd, FIn, FNotIn, FNotExists, FExists, Values, Sub, Bind } k;
    std::vector<S> a; std::vector<P> c; bool distinct; int limit, offset;
};
static P mk(Pat::Kind k, std::vector<S> a, std::vector<P> c = {}) { P p = std::make_shared<Pat>(); p->k = k; p->a = a; p->c = c; p->distinct = false; p->limit = p->offset = -1; return p; }
static P T(S s, S p, S o) { return mk(Pat::Triple, {s, p, o}); }
static P G(std::vector<P> c) { return mk(Pat::Group, {}, c); }
static P Opt(std::vector<P> c) { return mk(Pat::Opt, {}, {G(c)}); }
static P Uni(std::vector<P> c) { return mk(Pat::Union, {}, c); }
static P Min(std::vector<P> c) { return mk(Pat::Minus, {}, {G(c)}); }
static P Eq(S a, S b) { return mk(Pat::FEq, {a, b}); }
static P Ne(S a, S b) { return mk(Pat::FNe, {a, b}); }
static P Bound(S a) { return mk(Pat::FBound, {a}); }
static P NotBound(S a) { return mk(Pat::FNotBound, {a}); }
static P Or(P a, P b) { return mk(Pat::FOr, {}, {a, b}); }
static P And(P a, P b) { return mk(Pat::FAnd, {}, {a, b}); }
static P In(S a, std::vector<S> l) { l.insert(l.begin(), a); return mk(Pat::FIn, l); }
static P NotIn(S a, std::vector<S> l) { l.insert(l.begin(), a); return mk(Pat::FNotIn, l); }
static P NotEx(std::vector<P> c) { return mk(Pat::FNotExists, {}, {G(c)}); }
static P Val(std::vector<S> vars, std::vector<S> vals) { P p = mk(Pat::Values, vars); p->c.push_back(mk(Pat::Group, vals)); return p; }
static P Sub(std::vector<S> vars, std::vector<P> c, bool distinct = false) { P p = mk(Pat::Sub, vars, {G(c)}); p->distinct = distinct; return p; }
static P SubL(int limit, int offset, std::vector<S> vars, std::vector<P> c, bool distinct = false) { P p = Sub(vars, c, distinct); p->limit = limit; p->offset = offset; return p; }
static S term(const S &t) { return t[0] == '?' ? t : "<" + t + ">"; }
static bool isFilter(const P &p) { return p->k >= Pat::FEq && p->k <= Pat::FExists; }
static S expr(const P &p);
static S text(const P &p) {
    switch (p->k) {
        case Pat::Triple: return term(p->a[0]) + " " + term(p->a[1]) + " " + term(p->a[2]) + " . ";
        case Pat::Group: { S r = "{ "; for (auto &x : p->c) r += text(x); return r + "} "; }
        case Pat::Opt: return "OPTIONAL " + text(p->c[0]);
        case Pat::Union: { S r; for (size_t i = 0; i < p->c.size(); i++) r += (i ? "UNION " : "") + text(p->c[i]); return r; }
        case Pat::Minus: return "MINUS " + text(p->c[0]);
        case Pat::Values: {
            S r = "VALUES ( "; for (auto &v : p->a) r += v + " "; r += ") { ";
            size_t w = p->a.size(); auto &l = p->c[0]->a;
            for (size_t i = 0; i < l.size(); i += w) { r += "( "; for (size_t k = 0; k < w; k++) r += term(l[i + k]) + " "; r += ") "; }
            return r + "} ";
        }
        case Pat::Sub: { S r = "{ SELECT "; if (p->distinct) r += "DISTINCT "; for (auto &v : p->a) r += v + " "; r += "WHERE " + text(p->c[0]); if (p->limit >= 0) r += "LIMIT " + std::to_string(p->limit) + " "; if (p->offset > 0) r += "OFFSET " + std::to_string(p->offset) + " "; return r + "} "; }
        case Pat::FNotExists: return "FILTER NOT EXISTS " + text(p->c[0]);
        default: return "FILTER ( " + expr(p) + ") ";
    }
}
static S expr(const P &p) {
    switch (p->k) {
        case Pat::FEq: return term(p->a[0]) + " = " + term(p->a[1]) + " ";
        case Pat::FNe: return term(p->a[0]) + " != " + term(p->a[1]) + " ";
        case Pat::FBound: return "bound( " + p->a[0] + " ) ";
        case Pat::FNotBound: return "!bound( " + p->a[0] + " ) ";
        case Pat::FOr: return "( " + expr(p->c[0]) + "|| " + expr(p->c[1]) + ") ";
        case Pat::FAnd: return "( " + expr(p->c[0]) + "&& " + expr(p->c[1]) + ") ";
        case Pat::FIn: case Pat::FNotIn: { S r = p->a[0] + (p->k == Pat::FIn ? " IN ( " : " NOT IN ( "); for (size_t i = 1; i < p->a.size(); i++) r += (i > 1 ? ", " : "") + term(p->a[i]) + " "; return r + ") "; }
        default: return "";
    }
}
// ---- reference
struct SolRow { uint64_t c; std::map<S, uint64_t> v; }; // c: 0 or 1, whether the row is there; which variables are bound is fixed
typedef std::vector<SolRow> Rows;
static MemDB *db;
static uint64_t idOf(const S &t) { uint64_t id = 0; if (!db->lookup(t, ::Type::URI, 0, id)) return U - 5; return id; }
static uint64_t compat(const SolRow &a, const SolRow &b, bool *shared = 0) {
    uint64_t r = 1;
    if (shared) *shared = false;
    for (auto &x : a.v) { auto y = b.v.find(x.first); if (y != b.v.end()) { r &= (uint64_t)(x.second == y->second); if (shared) *shared = true; } }
    return r;
}
static SolRow merge(const SolRow &a, const SolRow &b, uint64_t c) { SolRow r = a; for (auto &x : b.v) r.v.insert(x); r.c = c; return r; }
static bool dead(uint64_t c) { return !sx_is_symbolic(c) && !c; }
static Rows join(const Rows &a, const Rows &b) { Rows r; for (auto &x : a) for (auto &y : b) { uint64_t c = x.c & y.c & compat(x, y); if (!dead(c)) r.push_back(merge(x, y, c)); } return r; }
static Rows eval(const P &p);
struct Tri { uint64_t t, f; }; // true, false; neither: error
static Tri judge(const P &p, const SolRow &r) {
    Tri x{0, 0};
    switch (p->k) {
        case Pat::FEq: case Pat::FNe: {
            uint64_t v[2]; for (int i = 0; i < 2; i++) if (p->a[i][0] == '?') { auto y = r.v.find(p->a[i]); if (y == r.v.end()) return x; v[i] = y->second; } else v[i] = idOf(p->a[i]);
            uint64_t e = v[0] == v[1]; x.t = e; x.f = 1 - e; if (p->k == Pat::FNe) std::swap(x.t, x.f); return x;
        }
        case Pat::FBound: case Pat::FNotBound: { uint64_t b = r.v.count(p->a[0]); x.t = b; x.f = 1 - b; if (p->k == Pat::FNotBound) std::swap(x.t, x.f); return x; }
        case Pat::FIn: case Pat::FNotIn: {
            auto y = r.v.find(p->a[0]); if (y == r.v.end()) return x;
            for (size_t i = 1; i < p->a.size(); i++) x.t |= (uint64_t)(y->second == idOf(p->a[i]));
            x.f = 1 - x.t; if (p->k == Pat::FNotIn) std::swap(x.t, x.f); return x;
        }
        case Pat::FOr: { Tri a = judge(p->c[0], r), b = judge(p->c[1], r); x.t = a.t | b.t; x.f = a.f & b.f; return x; }
        case Pat::FAnd: { Tri a = judge(p->c[0], r), b = judge(p->c[1], r); x.t = a.t & b.t; x.f = a.f | b.f; return x; }
        case Pat::FNotExists: { uint64_t any = 0; for (auto &y : eval(p->c[0])) any |= y.c & compat(r, y); x.t = 1 - any; x.f = any; return x; }
        default: return x;
    }
}
static Rows dedup(const Rows &a) {
    Rows r;
    for (auto &x : a) {
        uint64_t c = x.c;
        for (auto &y : r) { bool same = y.v.size() == x.v.size(); uint64_t e = 1; for (auto &z : x.v) { auto w = y.v.find(z.first); if (w == y.v.end()) same = false; else e &= (uint64_t)(w->second == z.second); } if (same) c &= 1 - (y.c & e); }
        SolRow n = x; n.c = c; r.push_back(n);
    }
    return r;
}
static Rows project(const Rows &a, const std::vector<S> &vars) { Rows r; for (auto &x : a) { SolRow n; n.c = x.c; for (auto &v : vars) { auto y = x.v.find(v); if (y != x.v.end()) n.v.insert(*y); } r.push_back(n); } return r; }
static Rows eval(const P &p) {
    switch (p->k) {
        case Pat::Triple: {
            Rows r;
            for (auto &t : db->spo) {
                SolRow n; n.c = 1;
                for (int k = 0; k < 3; k++) {
                    if (p->a[k][0] != '?') n.c &= (uint64_t)(t[k] == idOf(p->a[k]));
                    else { auto y = n.v.find(p->a[k]); if (y == n.v.end()) n.v[p->a[k]] = t[k]; else n.c &= (uint64_t)(y->second == t[k]); }
                }
                if (!dead(n.c)) r.push_back(n);
            }
            return r;
        }
        case Pat::Group: {
            Rows r(1); r[0].c = 1;
            for (auto &x : p->c) {
                if (isFilter(x)) continue;
                if (x->k == Pat::Opt) {
                    // filters of the optional group see the left row as well
                    P inner = std::make_shared<Pat>(*x->c[0]); std::vector<P> fs;
                    for (auto &y : x->c[0]->c) if (isFilter(y)) fs.push_back(y);
                    inner->c.erase(std::remove_if(inner->c.begin(), inner->c.end(), isFilter), inner->c.end());
                    Rows right = eval(inner), out;
                    for (auto &l : r) {
                        uint64_t none = 1;
                        for (auto &y : right) { uint64_t c = y.c & compat(l, y); SolRow m = merge(l, y, 0); for (auto &f : fs) c &= judge(f, m).t; none &= 1 - c; m.c = l.c & c; if (!dead(m.c)) out.push_back(m); }
                        SolRow m = l; m.c = l.c & none; if (!dead(m.c)) out.push_back(m);
                    }
                    r = out;
                } else if (x->k == Pat::Minus) {
                    Rows right = eval(x->c[0]);
                    for (auto &l : r) for (auto &y : right) { bool sh; uint64_t c = y.c & compat(l, y, &sh); if (sh) l.c &= 1 - c; }
                } else r = join(r, eval(x));
            }
            for (auto &x : p->c) if (isFilter(x)) for (auto &l : r) l.c &= judge(x, l).t;
            return r;
        }
        case Pat::Union: { Rows r; for (auto &x : p->c) for (auto &y : eval(x)) r.push_back(y); return r; }
        case Pat::Values: { Rows r; size_t w = p->a.size(); auto &l = p->c[0]->a; for (size_t i = 0; i < l.size(); i += w) { SolRow n; n.c = 1; for (size_t k = 0; k < w; k++) n.v[p->a[k]] = idOf(l[i + k]); r.push_back(n); } return r; }
        case Pat::Sub: { Rows r = project(eval(p->c[0]), p->a); return p->distinct ? dedup(r) : r; }
        default: return Rows();
    }
}
struct Q { P where; std::vector<S> vars; bool distinct; int limit, offset; };
static Q q(std::vector<S> vars, std::vector<P> c, bool distinct = false) { return Q{G(c), vars, distinct, -1, -1}; }
#include "sparql_queries.h"
// ---- the code
static uint64_t unb(const SolRow &r, const S &v) { auto y = r.v.find(v); return y == r.v.end() ? U : y->second; }
static void runQuery(MemDB &d, DBLayer &l) {
    Q qu = query(sx_param("q", 0));
    S txt = S("SELECT ") + (qu.distinct ? "DISTINCT " : ""); for (auto &v : qu.vars) txt += v + " "; txt += "WHERE " + text(qu.where);
    if (qu.limit >= 0) txt += "LIMIT " + std::to_string(qu.limit) + " "; if (qu.offset >= 0) txt += "OFFSET " + std::to_string(qu.offset) + " ";
    if (!sx_symbolic_engine() && getenv("SX_TRACE")) fprintf(stderr, "%s\n", txt.c_str());
    Rows ref = project(eval(qu.where), qu.vars);
    if (qu.distinct) ref = dedup(ref);
    Bag exp; for (auto &r : ref) { Tup t; t.c = r.c; for (auto &v : qu.vars) t.v.push_back(unb(r, v)); exp.push_back(t); }
    Bag out;
    SPARQLLexer lexer(txt); SPARQLParser parser(lexer); QueryDict qd(d.nextId);
    bool parsed = true;
    try { parser.parse(false, true); } catch (const SPARQLParser::ParserException &e) { parsed = false; if (!sx_symbolic_engine()) fprintf(stderr, "parse: %s\n", e.message.c_str()); }
    SX_ASSERT(parsed, "query: a SELECT query of the supported form parses");
    if (!parsed) sx_stop();
    QueryGraph graph(parser.getVarCount());
    SemanticAnalysis(l, qd).transform(parser, graph);
    if (!graph.knownEmpty()) {
        PlanGen gen;
        Plan *plan = gen.translate(l, graph, false);
        SX_ASSERT(plan != 0, "query: a plan is found");
        if (!plan) sx_stop();
        if (!sx_symbolic_engine() && getenv("SX_TRACE")) plan->print(0);
        Runtime rt(l, NULL, &qd);
        std::unique_ptr<Operator> op(CodeGen().translate(rt, graph, plan, false));
        ResultsPrinter *pr = (ResultsPrinter*)op.get();
        SX_ASSERT(pr->output.size() == qu.vars.size(), "query: one column per selected variable");
        bool once = pr->duplicateHandling == ResultsPrinter::ReduceDuplicates;
        for (uint64_t c = pr->input->first(); c; c = pr->input->next()) {
            Tup t; t.c = once ? 1 : c; for (auto r : pr->output) t.v.push_back(r->value);
            out.push_back(t);
            if (!sx_symbolic_engine() && getenv("SX_TRACE")) { for (auto v : t.v) fprintf(stderr, "%lld ", (long long)v); fprintf(stderr, "x%llu\n", (unsigned long long)t.c); }
            SX_ASSERT(out.size() <= 200, "query: the result is finite"); if (out.size() > 200) sx_stop();
        }
    }
    for (auto &t : out) for (auto v : t.v) sx_obs(v);
    int limit = -1, offset = 0; if (qu.where->c.size() == 1 && qu.where->c[0]->k == Pat::Sub) { limit = qu.where->c[0]->limit; offset = qu.where->c[0]->offset; }
    if (limit >= 0) {
        // any choice of the right size: no row more often than in the whole result
        uint64_t total = 0, got = 0, sub = 1; for (auto &t : exp) total += t.c; for (auto &t : out) got += t.c;
        for (auto &t : out) sub &= (uint64_t)(occ(out, t.v) <= occ(exp, t.v));
        SX_ASSERT(sub, "query: a limited result only has rows of the whole result");
        uint64_t rest = total > (uint64_t)offset ? total - offset : 0;
        SX_ASSERT(got == (rest < (uint64_t)limit ? rest : (uint64_t)limit), "query: LIMIT and OFFSET give min(limit, rows - offset) rows");
    } else
    SX_ASSERT(sameBag(out, exp), "query: the rows are the solutions, each as often as the algebra says");
    sx_reach("query"); if (!out.empty()) sx_reach("rows");
    sx_stop();
}
#ifndef SPARQL_LAYER
SX_ENTRY h_sparql() {
    unsigned n = sx_param("n", 3), preds = sx_param("preds", 0), dom = sx_param("dom", 4);
    MemDB d; db = &d; d.exact = sx_param("exact", 1); d.nextId = 100; d.seed = sx_param("seed", 0);
    // a and b occur as constants in queries, p and q are predicates; the other terms have no name in a query
    d.dict = {{"a", 10}, {"b", 12}, {"p", 20}, {"q", 21}, {"t9", 9}, {"t11", 11}, {"t13", 13}, {"t14", 14}};
    for (unsigned i = 0; i < n; i++) {
        S nm = "t" + std::to_string(i);
        uint64_t s = sx_range((nm + "s").c_str(), 10 - (dom > 3), 10 - (dom > 3) + dom - 1), o = sx_range((nm + "o").c_str(), 10 - (dom > 3), 10 - (dom > 3) + dom - 1);
        d.spo.push_back(V3{s, preds >> i & 1 ? 21ull : 20ull, o});
    }
    uint64_t distinct = 1;
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) distinct &= (uint64_t)(1 - sameTup(d.spo[i], d.spo[j]));
    SX_ASSUME(distinct);
    runQuery(d, d);
}
#endif
