// Index scans of the SPARQL runtime over an arbitrary database layer; value domains; the temporary dictionary.
#include "memdb.h"
#include <rts/operator/IndexScan.hpp>
#include <rts/operator/AggregatedIndexScan.hpp>
#include <rts/operator/FullyAggregatedIndexScan.hpp>
#include <rts/runtime/DomainDescription.hpp>
#include <rts/runtime/TemporaryDictionary.hpp>
#include <algorithm>
static Register Rg[3], M[3];
static void scan(int kind) { // 0 all three columns, 1 two columns with counts, 2 one column with counts
    unsigned n = sx_param("n", 2), order = sx_param("order", 0); unsigned mask = sx_param("bound", 0);
    MemDB db; db.exact = sx_param("exact", 1); db.nextId = 0;
    for (unsigned i = 0; i < n; i++) {
        V3 t;
        for (int k = 0; k < 3; k++) t.push_back(sx_range((std::string("t") + std::to_string(i) + std::to_string(k)).c_str(), 0, UINT64_MAX - 1));
        db.spo.push_back(t);
    }
    uint64_t distinct = 1;
    for (unsigned i = 0; i < n; i++) for (unsigned j = 0; j < i; j++) distinct &= (uint64_t)(1 - sameTup(db.spo[i], db.spo[j]));
    SX_ASSUME(distinct);
    for (auto &r : Rg) r.reset();
    bool b[3]; uint64_t bv[3];
    for (int k = 0; k < 3; k++) { b[k] = mask >> k & 1; bv[k] = 0; if (b[k]) { bv[k] = sx_range((std::string("b") + std::to_string(k)).c_str(), 0, UINT64_MAX - 1); Rg[k].value = bv[k]; } }
    int w = 3 - kind; bool used[3] = {false, false, false};
    for (int i = 0; i < w; i++) used[PERM[order][i]] = true;
    Register *s = used[0] ? &Rg[0] : 0, *p = used[1] ? &Rg[1] : 0, *o = used[2] ? &Rg[2] : 0;
    std::unique_ptr<Operator> op;
    DBLayer::DataOrder od = (DBLayer::DataOrder)order;
    if (kind == 0) op.reset(IndexScan::create(db, od, s, b[0], p, b[1], o, b[2], 1));
    else if (kind == 1) op.reset(AggregatedIndexScan::create(db, od, s, b[0] && s, p, b[1] && p, o, b[2] && o, 1));
    else op.reset(FullyAggregatedIndexScan::create(db, od, s, b[0] && s, p, b[1] && p, o, b[2] && o, 1));
    std::vector<Register*> outr; for (int i = 0; i < w; i++) outr.push_back(&Rg[PERM[order][i]]);
    Bag ref;
    for (auto &t : db.spo) {
        uint64_t m = 1; Tup x;
        for (int i = 0; i < w; i++) { int c = PERM[order][i]; if (b[c]) m &= (uint64_t)(t[c] == bv[c]); x.v.push_back(t[c]); }
        x.c = m; ref.push_back(x);
    }
    for (int round = 0; round < 2; round++) {
        for (int k = 0; k < 3; k++) if (b[k]) Rg[k].value = bv[k];
        Bag out = drain(*op, outr, n);
        SX_ASSERT(sameBag(out, ref), round ? "index scan: starting again yields the same triples" : "index scan: yields exactly the stored triples that match the bound values, in every order");
        uint64_t ord = 1;
        for (size_t i = 1; i < out.size(); i++) { uint64_t lt = 0, eq = 1; for (int k = 0; k < w; k++) { lt |= eq & (uint64_t)(out[i - 1].v[k] < out[i].v[k]); eq &= (uint64_t)(out[i - 1].v[k] == out[i].v[k]); } ord &= lt; }
        SX_ASSERT(ord, "index scan: the rows come in the asked order, without repetition");
        SX_ASSERT(op->getObservedOutputCardinality() == (double)total(out), "index scan: reports the number of rows it produced");
        sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
        if (out.size()) sx_reach("rows");
    }
}
SX_ENTRY h_index_scan() { scan(0); }
SX_ENTRY h_aggregated_scan() { scan(1); }
SX_ENTRY h_fully_aggregated_scan() { scan(2); }

// with a domain on the column, values come from a few filter positions (the high part stays symbolic)
static uint64_t val(const std::string &nm, bool pooled) {
    if (!pooled) return sx_u64(nm.c_str());
    static const uint64_t LO[4] = {0, 62, 64, 8191};
    return (sx_range((nm + "h").c_str(), 0, 3) << 13) + LO[sx_concretize(sx_range((nm + "l").c_str(), 0, 3))];
}
// A scan's skip hint never steps over a triple that can still contribute.
SX_ENTRY h_scan_hint() {
    unsigned mask = sx_param("bound", 0), merge = sx_param("merge", 1), dom = sx_param("dom", 0), kind = sx_param("kind", 0);
    MemDB db; db.exact = true; db.nextId = 0;
    PotentialDomainDescription d;
    uint64_t dv[2] = {0, 0};
    if (dom) { ObservedDomainDescription od; for (int i = 0; i < 2; i++) { dv[i] = (sx_range(i ? "dhi1" : "dhi0", 0, 1) << 13) + sx_concretize(sx_range(i ? "dlo1" : "dlo0", 0, 2)) * 63; od.add(dv[i]); } d.restrictTo(od); }
    for (auto &r : Rg) r.reset();
    for (auto &r : M) r.reset();
    int w = 3 - kind;
    bool b[3];
    for (int k = 0; k < 3; k++) { b[k] = (mask >> k & 1) && k < w; if (b[k]) Rg[k].value = val(std::string("b") + std::to_string(k), dom >> k & 1); if (dom >> k & 1) Rg[k].domain = &d; }
    std::unique_ptr<Operator> op;
    lastHint = 0;
    if (kind == 0) op.reset(IndexScan::create(db, DBLayer::Order_Subject_Predicate_Object, &Rg[0], b[0], &Rg[1], b[1], &Rg[2], b[2], 1));
    else if (kind == 1) op.reset(AggregatedIndexScan::create(db, DBLayer::Order_Subject_Predicate_Object, &Rg[0], b[0], &Rg[1], b[1], 0, false, 1));
    else op.reset(FullyAggregatedIndexScan::create(db, DBLayer::Order_Subject_Predicate_Object, &Rg[0], b[0], 0, false, 0, false, 1));
    for (int k = 0; k < 3; k++) if (merge >> k & 1) { M[k].value = val(std::string("m") + std::to_string(k), dom >> k & 1); op->addMergeHint(&M[k], &Rg[k]); }
    uint64_t in[3], out[3], t[3];
    for (int k = 0; k < 3; k++) { in[k] = k < w ? val(std::string("in") + std::to_string(k), dom >> k & 1) : 0; out[k] = in[k]; }
    if (kind == 0) lastHint->next(out[0], out[1], out[2]); else if (kind == 1) lastHint->next(out[0], out[1]); else lastHint->next(out[0]);
    auto less = [&](uint64_t *x, uint64_t *y) -> uint64_t { uint64_t lt = 0, eq = 1; for (int k = 0; k < w; k++) { lt |= eq & (uint64_t)(x[k] < y[k]); eq &= (uint64_t)(x[k] == y[k]); } return lt; };
    uint64_t need = 1;
    for (int k = 0; k < w; k++) {
        if (dom >> k & 1) t[k] = dv[sx_concretize(sx_range((std::string("td") + std::to_string(k)).c_str(), 0, 1))];
        else t[k] = sx_range((std::string("t") + std::to_string(k)).c_str(), 0, UINT64_MAX - 1);
        if (b[k]) need &= (uint64_t)(t[k] == Rg[k].value);
        if (merge >> k & 1) need &= (uint64_t)(M[k].value == UINT64_MAX) | (uint64_t)(t[k] >= M[k].value);
    }
    need &= 1 - less(t, in);
    SX_ASSERT(!(need & less(t, out)), "index scan hint: never skips a triple that matches the bound values and can still join");
    SX_ASSERT(!less(out, in), "index scan hint: never moves backwards");
    sx_obs(out[0]); sx_reach("hint");
}

// domains: what was observed stays a candidate, whatever else is intersected with it
SX_ENTRY h_domain() {
    unsigned n = sx_param("n", 2);
    std::vector<uint64_t> v;
    ObservedDomainDescription o;
    for (unsigned i = 0; i < n; i++) {
        uint64_t hi = sx_range((std::string("hi") + std::to_string(i)).c_str(), 0, (1ull << 51) - 1);
        static const uint64_t LO[6] = {0, 1, 63, 64, 4096, 8191};
        uint64_t lo = LO[sx_concretize(sx_range((std::string("lo") + std::to_string(i)).c_str(), 0, 5))];
        v.push_back((hi << 13) + lo);
    }
    for (auto x : v) o.add(x);
    for (auto x : v) SX_ASSERT(o.couldQualify(x), "domain: an observed value still qualifies");
    PotentialDomainDescription p, q;
    for (auto x : v) SX_ASSERT(p.couldQualify(x), "domain: an unrestricted domain accepts every value");
    p.restrictTo(o);
    for (auto x : v) SX_ASSERT(p.couldQualify(x), "domain: restricting to the observed values keeps them");
    static const uint64_t QLO[8] = {0, 1, 2, 63, 64, 65, 4100, 8191};
    uint64_t at = (sx_range("qhi", 0, (1ull << 51) - 1) << 13) + QLO[n > 1 ? sx_param("qlo", 0) : sx_concretize(sx_range("qlo", 0, 7))];
    // the search ends: a value it reports qualifies, is not before the start, and nothing observed is stepped over
    uint64_t c = p.nextCandidate(at);
    SX_ASSERT(c >= at, "domain: the next candidate does not lie before the start");
    uint64_t skipped = 0; for (auto x : v) skipped |= (uint64_t)(x >= at) & (uint64_t)(x < c);
    SX_ASSERT(!skipped, "domain: the next candidate steps over no observed value");
    if (n) {
        ObservedDomainDescription o2; o2.add(v[0]); q.restrictTo(o2);
        p.sync(q);
        SX_ASSERT(p.couldQualify(v[0]) && q.couldQualify(v[0]), "domain: a value of both domains survives their intersection");
        if (n > 1) SX_ASSERT(p.couldQualify(v[1]) == q.couldQualify(v[1]), "domain: synchronised domains agree");
        sx_reach("values");
    }
    sx_obs(c);
}

// dictionary extension of one query
SX_ENTRY h_temp_dict() {
    unsigned k = sx_param("k", 4);
    MemDB db; db.exact = true; { static const uint64_t NX[3] = {3, 0xFFFFFFFFull, 1ull << 40}; db.nextId = NX[sx_concretize(sx_range("next", 0, 2))]; }
    db.dict.push_back(std::make_pair(std::string("a"), 1)); db.dict.push_back(std::make_pair(std::string("bb"), 2));
    TemporaryDictionary td(db);
    struct E { std::string s; ::Type::ID t; unsigned st; uint64_t id; };
    std::vector<E> seen;
    static const char *S[4] = {"a", "bb", "c", ""};
    for (unsigned i = 0; i < k; i++) {
        unsigned w = i == 0 ? sx_param("w0", 2) : sx_concretize(sx_range((std::string("w") + std::to_string(i)).c_str(), 0, 3));
        ::Type::ID t = (::Type::ID)(sx_concretize(sx_range((std::string("ty") + std::to_string(i)).c_str(), 0, 1)) * 2);
        unsigned st = sx_concretize(sx_range((std::string("st") + std::to_string(i)).c_str(), 0, 1));
        uint64_t id = 77;
        SX_ASSERT(td.lookup(S[w], t, st, id), "query dictionary: every text gets an id");
        if (w < 2) SX_ASSERT(id == w + 1, "query dictionary: a stored text keeps its id");
        else SX_ASSERT(id >= db.nextId, "query dictionary: a new text gets an id no stored term has");
        for (auto &e : seen) if (w >= 2 && e.id >= 3) SX_ASSERT((e.id == id) == (e.s == S[w] && e.t == t && e.st == st), "query dictionary: two new literals share an id exactly when they are equal");
        seen.push_back(E{S[w], t, st, id});
    }
    for (auto &e : seen) {
        const char *s, *x; ::Type::ID t; unsigned st;
        SX_ASSERT(td.lookupById(e.id, s, x, t, st), "query dictionary: an id it gave out resolves");
        SX_ASSERT(std::string(s, x) == e.s, "query dictionary: an id resolves to the text it was given for");
        if (e.id >= db.nextId) SX_ASSERT(t == e.t && st == e.st, "query dictionary: an id resolves to the type it was given for");
        sx_obs(e.id); sxObsStr(std::string(s, x));
    }
    uint64_t other = sx_range("base", 0, 1) ? db.nextId + sx_concretize(sx_range("o", 0, k + 1)) : sx_range("low", 0, 2);
    bool known = other == 1 || other == 2; for (auto &e : seen) if (e.id == other) known = true;
    const char *s, *x; ::Type::ID t; unsigned st;
    SX_ASSERT(td.lookupById(other, s, x, t, st) == known, "query dictionary: an id nobody gave out does not resolve");
    sx_reach("dictionary");
}
