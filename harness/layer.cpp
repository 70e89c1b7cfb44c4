// The layer between the query engine and the stored indices: scans, lookups and whole queries over a knowledge base on disk.
#define SPARQL_LAYER
#include "kbq.h"
#include <layers/TridentLayer.hpp>
#include "sparql.cpp"
// The dictionary of the knowledge base is a property of its own; here names come from a list.
struct Named : public TridentLayer {
    MemDB &m; Named(KB &kb, MemDB &m) : TridentLayer(kb), m(m) {}
    bool lookup(const std::string &t, ::Type::ID y, unsigned s, uint64_t &id) { return m.lookup(t, y, s, id); }
    bool lookupById(uint64_t id, const char *&s, const char *&e, ::Type::ID &t, unsigned &st) { return m.lookupById(id, s, e, t, st); }
    bool lookupById(uint64_t id, char *o, size_t &n, ::Type::ID &t, unsigned &st) { return m.lookupById(id, o, n, t, st); }
    uint64_t getNextId() { return m.nextId; }
};
struct Chosen { MemDB d; Trs t; };
// subjects and objects from nodes, predicates p and q
static void choose(Chosen &c, unsigned n, std::vector<uint64_t> nodes) {
    c.d.exact = true; c.d.nextId = 100; c.d.seed = 0; unsigned k = nodes.size(), tot = 2 * k * k; uint64_t last = 0;
    c.d.dict = {{"a", 10}, {"b", 12}, {"p", 20}, {"q", 21}, {"t9", 9}, {"t11", 11}, {"t13", 13}, {"t14", 14}};
    for (unsigned i = 0; i < n; i++) {
        uint64_t x = i == 0 && sx_param("t0", 999) != 999 ? sx_param("t0", 0) : sx_concretize(sx_range(("t" + std::to_string(i)).c_str(), i ? last + 1 : 0, tot - 1 - (n - 1 - i)));
        last = x; if (x + 1 > tot - 1 && i + 1 < n) sx_assume(0);
        c.t.push_back(Tr{{nodes[x / k % k], 20 + x / k / k, nodes[x % k]}}); c.d.spo.push_back(V3{c.t[i][0], c.t[i][1], c.t[i][2]});
    }
}
SX_ENTRY h_layer_sparql() {
    Chosen c; choose(c, sx_param("n", 3), {10, 12}); KBOpt o = options(); std::string dir = std::string(sx_tmp()) + "/kb";
    buildKB(dir, c.t, o);
    Opened op(dir, o, false); Named l(op.kb, c.d);
    if (sx_param("nobif", 0)) l.disableBifocalSampling();
    db = &c.d; runQuery(c.d, l);
}
static const DBLayer::DataOrder ORDERS[12] = {DBLayer::Order_Subject_Predicate_Object, DBLayer::Order_Subject_Object_Predicate, DBLayer::Order_Object_Predicate_Subject, DBLayer::Order_Object_Subject_Predicate, DBLayer::Order_Predicate_Subject_Object, DBLayer::Order_Predicate_Object_Subject, DBLayer::Order_No_Order_SPO, DBLayer::Order_No_Order_SOP, DBLayer::Order_No_Order_OPS, DBLayer::Order_No_Order_OSP, DBLayer::Order_No_Order_POS, DBLayer::Order_No_Order_PSO};
// one scan against the rows it should give: exact prefix, then grouped
static void checkScan(DBLayer &l, const Trs &t, int o, int nb, const uint64_t *b, int agg) {
    const int *P = PERM[o]; int w = 3 - agg;
    std::vector<V3> rows; for (auto &x : t) { V3 v{x[P[0]], x[P[1]], x[P[2]]}; bool ok = true; for (int i = 0; i < nb; i++) if (v[i] != b[i]) ok = false; if (ok) { v.resize(w); rows.push_back(v); } }
    std::sort(rows.begin(), rows.end());
    std::vector<V3> want; std::vector<uint64_t> cnt; for (auto &v : rows) if (agg && !want.empty() && want.back() == v) cnt.back()++; else { want.push_back(v); cnt.push_back(1); }
    std::unique_ptr<DBLayer::Scan> s = l.getScan(ORDERS[o], agg == 0 ? DBLayer::AGGR_NO : agg == 1 ? DBLayer::AGGR_SKIP_LAST : DBLayer::AGGR_SKIP_2LAST, nullptr);
    for (int again = 0; again < 2; again++) {
        bool at;
        if (agg == 2) at = nb ? s->first(b[0], true) : s->first();
        else if (agg == 1) at = nb ? s->first(b[0], true, b[1], nb > 1) : s->first();
        else at = nb == 0 ? s->first() : nb == 1 ? s->first(b[0], true) : nb == 2 ? s->first(b[0], true, b[1], true) : s->first(b[0], true, b[1], true, b[2], true);
        size_t i = 0;
        for (; at; at = s->next()) {
            SX_ASSERT(i < want.size(), "scan: no row that is not asked for"); if (i >= want.size()) return;
            SX_ASSERT(s->getValue1() == want[i][0], "scan: rows in order"); 
            if (w > 1) SX_ASSERT(s->getValue2() == want[i][1], "scan: rows in order");
            if (w > 2) SX_ASSERT(s->getValue3() == want[i][2], "scan: rows in order");
            if (agg) SX_ASSERT(s->getCount() == cnt[i], "scan: every row counts the triples it stands for");
            i++;
        }
        SX_ASSERT(i == want.size(), "scan: every row that is asked for");
        if (i > 1) sx_reach("several rows");
        if (at) break;
    }
}
SX_ENTRY h_layer_scan() {
    Chosen c; choose(c, sx_param("n", 3), {10, 12}); KBOpt ko = options(); std::string dir = std::string(sx_tmp()) + "/kb";
    buildKB(dir, c.t, ko); Opened op(dir, ko, false); TridentLayer l(op.kb);
    std::vector<uint64_t> ids = {10, 12, 20, 21, 11};
    SX_ASSERT(l.getCardinality() == c.t.size(), "layer: the number of triples");
    for (int o = 0; o < 12; o++) {
        if (o >= 6 && sx_param("half", 0)) break;
        checkScan(l, c.t, o, 0, 0, 0); checkScan(l, c.t, o, 0, 0, 1); checkScan(l, c.t, o, 0, 0, 2);
        for (auto x : ids) { uint64_t b[3] = {x, 0, 0}; checkScan(l, c.t, o, 1, b, 0); checkScan(l, c.t, o, 1, b, 1); checkScan(l, c.t, o, 1, b, 2);
            for (auto y : ids) { b[1] = y; if ((x >= 20) + (y >= 20) > 1) continue; checkScan(l, c.t, o, 2, b, 0); if (o < 6) checkScan(l, c.t, o, 2, b, 1); } }
    }
    for (auto &x : c.t) for (int o = 0; o < 6; o++) { uint64_t b[3] = {x[PERM[o][0]], x[PERM[o][1]], x[PERM[o][2]]}; checkScan(l, c.t, o, 3, b, 0); b[2] = 11; checkScan(l, c.t, o, 3, b, 0); }
    for (auto s : {UINT64_MAX, UINT64_C(10), UINT64_C(12)}) for (auto p : {UINT64_MAX, UINT64_C(20), UINT64_C(21)}) for (auto o : {UINT64_MAX, UINT64_C(10), UINT64_C(12)}) {
        uint64_t k = 0; for (auto &x : c.t) k += (s == UINT64_MAX || s == x[0]) && (p == UINT64_MAX || p == x[1]) && (o == UINT64_MAX || o == x[2]);
        SX_ASSERT(l.getCardinality(s, p, o) == k, "layer: the cardinality of a pattern is the number of its matches");
    }
    sx_reach("scans"); sx_stop();
}
