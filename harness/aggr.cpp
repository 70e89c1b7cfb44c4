// ORDER BY, GROUP BY and the aggregate functions.
#include "memdb.h"
#include <rts/operator/Sort.hpp>
#include <rts/operator/GroupBy.hpp>
#include <rts/operator/AggrFunctions.hpp>
#include <trident/kb/dictmgmt.h>
#include <cstring>
#include <map>
static Register R[8];
struct TextDB : public MemDB {
    bool lookupById(uint64_t id, const char *&s, const char *&e, ::Type::ID &t, unsigned &st) { for (auto &d : dict) if (d.second == id) { s = d.first.c_str(); e = s + d.first.size(); t = d.first[0] == '"' ? ::Type::Literal : ::Type::URI; st = 0; return true; } return false; }
    bool lookupById(uint64_t id, char *o, size_t &n, ::Type::ID &t, unsigned &st) { for (auto &d : dict) if (d.second == id) { n = d.first.size(); memcpy(o, d.first.c_str(), n); t = d.first[0] == '"' ? ::Type::Literal : ::Type::URI; st = 0; return true; } return false; }
};
static uint64_t nint(int64_t v) { return ((uint64_t)v & UINT64_C(0x3FFFFFFFFFFFFFFF)) | DICTMGMT_INTEGER; }
static const std::string XI = "\"^^<http://www.w3.org/2001/XMLSchema#integer>", XD = "\"^^<http://www.w3.org/2001/XMLSchema#double>", XF = "\"^^<http://www.w3.org/2001/XMLSchema#float>";
// ---- sorting: terms by rank (unbound first, then IRIs and literals by their text)
static const char *TERMS[6] = {"\"b\"", "a", "\"a\"", "ab", "\"ab\"", "b"};
SX_ENTRY h_sort() {
    unsigned n = sx_param("n", 3), cols = sx_param("cols", 1), num = sx_param("num", 0);
    for (auto &r : R) r.reset();
    TextDB db; std::map<uint64_t, int> rank;
    const int TR[6] = {0, 0, 0, 0, 0, 0}; (void)TR;
    for (int i = 0; i < 6; i++) db.dict.push_back({TERMS[i], 100 - i});
    auto key = [&](int i) { std::string s = TERMS[i]; return std::make_pair(s[0] == '"' ? (int)::Type::Literal : (int)::Type::URI, s); };
    for (int i = 0; i < 6; i++) { int k = 1; for (int j = 0; j < 6; j++) if (key(j) < key(i)) k++; rank[100 - i] = k; }
    rank[UINT64_MAX] = 0;
    Bag in;
    for (unsigned i = 0; i < n; i++) {
        Tup t;
        for (unsigned c = 0; c < 2; c++) {
            std::string nm = "r" + std::to_string(i) + "_" + std::to_string(c);
            if (num && c == 0) { int64_t v = (int64_t)sx_u64(nm.c_str()); SX_ASSUME(v >= -(INT64_C(1) << 61) && v < (INT64_C(1) << 61)); t.v.push_back(nint(v)); }
            else if (c < cols) { unsigned k = sx_concretize(sx_range(nm.c_str(), 0, sx_param("dom", 6) - 1)); t.v.push_back(k == 5 ? UINT64_MAX : 100 - k); }
            else t.v.push_back(sx_u64(nm.c_str()));
        }
        t.c = sx_range(("c" + std::to_string(i)).c_str(), 1, 3); in.push_back(t);
    }
    std::vector<std::pair<Register*, bool>> ord; bool d0 = sx_param("d0", 0), d1 = sx_param("d1", 0);
    if (sx_param("count", 0)) ord.push_back({nullptr, d0}); else ord.push_back({&R[0], d0});
    if (cols > 1) ord.push_back({&R[1], d1});
    Sort s(db, new Src(in, {&R[0], &R[1]}), {&R[0], &R[1]}, ord, 1);
    Bag out = drain(s, {&R[0], &R[1]}, n);
    SX_ASSERT(sameBag(in, out), "order by: keeps the rows and their multiplicities");
    for (size_t i = 1; i < out.size(); i++) {
        Tup &a = out[i - 1], &b = out[i]; uint64_t lt, eq;
        if (sx_param("count", 0)) { lt = d0 ? a.c > b.c : a.c < b.c; eq = a.c == b.c; }
        else if (num) { int64_t x = (int64_t)(a.v[0] << 2) >> 2, y = (int64_t)(b.v[0] << 2) >> 2; lt = d0 ? x > y : x < y; eq = x == y; }
        else { int x = rank[a.v[0]], y = rank[b.v[0]]; lt = d0 ? x > y : x < y; eq = x == y; }
        uint64_t ok1 = 1;
        if (cols > 1) { int x = rank[b.v[1]], y = rank[a.v[1]]; ok1 = d1 ? y >= x : y <= x; }
        SX_ASSERT(lt | (eq & ok1), "order by: every row comes no later than the next one");
    }
    for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
    sx_reach("sorted"); sx_stop();
}
// ---- aggregates
enum { NUMID, TEXTINT, TEXTDBL, UNBOUND, TERM };
static const double DV[3] = {2.5, -0.5, 4}; static const char *DS[3] = {"2.5", "-0.5", "4.0"};
static const int64_t IV[3] = {7, -3, 2}; static const char *IS[3] = {"7", "-3", "2"};
struct Val { uint64_t id; bool bound, num, dbl; int64_t i; double d; };
SX_ENTRY h_aggregate() {
    typedef AggregateHandler A;
    unsigned n = sx_param("n", 3), kinds = sx_param("kinds", 1), func = sx_param("func", A::COUNT), func2 = sx_param("func2", 99); bool grouped = sx_param("grouped", 1), distinct = sx_param("distinct", 0), keyagg = sx_param("keyagg", 0);
    int64_t span = sx_param("span", 1000);
    for (auto &r : R) r.reset();
    TextDB db;
    for (int i = 0; i < 3; i++) { db.dict.push_back({std::string("\"") + IS[i] + XI, 50 + (uint64_t)i}); db.dict.push_back({std::string("\"") + DS[i] + (i == 1 ? XF : XD), 60 + (uint64_t)i}); }
    db.dict.push_back({"a", 70}); db.dict.push_back({"b", 71});
    // columns: 0 key, 1 value, 2 another one
    Bag in; std::vector<Val> vals; std::vector<uint64_t> keys;
    for (unsigned i = 0; i < n; i++) {
        std::string nm = "r" + std::to_string(i); Val v; v.bound = v.num = true; v.dbl = false; v.i = 0; v.d = 0;
        std::vector<int> ks; for (int k = 0; k < 5; k++) if (kinds >> k & 1) ks.push_back(k);
        int k = ks[sx_concretize(sx_range((nm + "kind").c_str(), 0, ks.size() - 1))];
        if (k == NUMID) { uint64_t x = sx_range((nm + "v").c_str(), 0, 2 * span); if (func == A::AVG || func2 == A::AVG) x = sx_concretize(x); v.i = (int64_t)x - span; v.id = nint(v.i); }
        else if (k == TEXTINT) { unsigned x = sx_concretize(sx_range((nm + "t").c_str(), 0, 2)); v.i = IV[x]; v.id = 50 + x; }
        else if (k == TEXTDBL) { unsigned x = sx_concretize(sx_range((nm + "d").c_str(), 0, 2)); v.d = DV[x]; v.dbl = true; v.id = 60 + x; }
        else if (k == UNBOUND) { v.bound = v.num = false; v.id = UINT64_MAX; }
        else { v.num = false; v.id = 70 + sx_concretize(sx_range((nm + "s").c_str(), 0, 1)); }
        uint64_t key = grouped ? 70 + sx_concretize(sx_range((nm + "k").c_str(), 0, 1)) : 70;
        if (keyagg) key = v.id;
        Tup t; t.v = {key, v.id, i + 200u}; t.c = sx_range((nm + "c").c_str(), 1, sx_param("maxc", 3)); if (func != A::COUNT && func != A::MIN && func != A::MAX || func2 != 99) t.c = sx_concretize(t.c); in.push_back(t); vals.push_back(v);
    }
    A h(10); std::vector<unsigned> sig{keyagg ? 0u : 1u};
    unsigned o1 = h.getNewOrExistingVar((A::FUNC)func, sig), o2 = 0; h.setDistinct((A::FUNC)func, distinct);
    if (func2 != 99) o2 = h.getNewOrExistingVar((A::FUNC)func2, sig);
    std::map<unsigned, Register*> b{{0, &R[0]}, {1, &R[1]}, {2, &R[2]}};
    std::vector<unsigned> g; if (grouped) g.push_back(0);
    GroupBy *gb = new GroupBy(new Src(in, {&R[0], &R[1], &R[2]}), b, g, false, 1);
    b[o1] = &R[3]; if (func2 != 99) b[o2] = &R[4];
    AggrFunctions ag(db, gb, b, h, g, 1);
    Bag out = drain(ag, {&R[0], &R[3], &R[4]}, n + 1);
    // reference
    auto value = [&](unsigned fn, bool dist, const std::vector<unsigned> &rows) -> uint64_t {
        int64_t cnt = 0, si = 0; double sd = 0; bool anyD = false, any = false, bestD = false; int64_t bi = 0; double bd = 0;
        for (size_t x = 0; x < rows.size(); x++) {
            Val &v = vals[rows[x]]; if (!v.bound) continue;
            int64_t c = in[rows[x]].c;
            if (dist) { uint64_t dup = 0; for (size_t y = 0; y < x; y++) dup |= (uint64_t)(vals[rows[y]].id == v.id); c = 1 - dup; }
            cnt += c; si += c * v.i; if (v.dbl) { sd += c * v.d; anyD = true; }
            double me = v.dbl ? v.d : (double)v.i, best = bestD ? bd : (double)bi;
            if (!any || (fn == A::MIN ? (v.dbl || bestD ? me < best : v.i < bi) : (v.dbl || bestD ? me > best : v.i > bi))) { bestD = v.dbl; bi = v.i; bd = v.d; }
            any = true;
        }
        if (fn == A::COUNT) return nint(cnt);
        if (fn == A::SUM) return anyD ? DictMgmt::fromFloat((float)(sd + si)) : nint(si);
        if (fn == A::AVG) { if (!any) return nint(0); double s = sd + si; if (!anyD && !(si % cnt)) return nint(si / cnt); return DictMgmt::fromFloat((float)(s / cnt)); }
        if (!any) return UINT64_MAX;
        return bestD ? DictMgmt::fromFloat((float)bd) : nint(bi);
    };
    std::map<uint64_t, std::vector<unsigned>> groups; // (keys are concrete)
    for (unsigned i = 0; i < n; i++) groups[sx_concretize(in[i].v[0])].push_back(i);
    if (!grouped && !n) groups[70];
    SX_ASSERT(out.size() == groups.size(), "aggregate: one row for every group, one for all rows without GROUP BY");
    for (auto &t : out) {
        SX_ASSERT(t.c == 1, "aggregate: a group comes once");
        auto it = groups.find(grouped ? t.v[0] : 70); SX_ASSERT(it != groups.end(), "aggregate: a group has a key of the input"); if (it == groups.end()) sx_stop();
        SX_ASSERT(t.v[1] == value(func, distinct, it->second), "aggregate: COUNT, SUM, MIN, MAX and AVG are those of the bound values of the group");
        if (func2 != 99) SX_ASSERT(t.v[2] == value(func2, false, it->second), "aggregate: two functions over a variable are independent");
        groups.erase(it);
    }
    for (auto &t : out) { sx_obs(t.v[1]); }
    sx_reach("aggregated"); if (out.size() > 1) sx_reach("several groups"); sx_stop();
}
