// Relational operators of the SPARQL runtime against bag semantics.
#include "bag.h"
#include <rts/operator/MergeJoin.hpp>
#include <rts/operator/HashJoin.hpp>
#include <rts/operator/CartProd.hpp>
#include <rts/operator/MergeUnion.hpp>
#include <rts/operator/Union.hpp>
#include <rts/operator/Minus.hpp>
#include <rts/operator/GroupBy.hpp>
#include <rts/operator/HashGroupify.hpp>
#include <rts/operator/DuplLimit.hpp>
#include <rts/operator/ValuesScan.hpp>
#include <rts/operator/Filter.hpp>
#include <rts/operator/NestedLoopFilter.hpp>
#include <rts/operator/NestedLoopJoin.hpp>
#include <rts/operator/Assignment.hpp>
#include <rts/operator/EmptyScan.hpp>
#include <rts/operator/SingletonScan.hpp>
#include <rts/runtime/DomainDescription.hpp>
#include <map>
typedef std::vector<Register*> Regs;
static const uint64_t HI = UINT64_MAX - 1; // every id but the unbound marker
static Register R[12];
static void resetRegs() { for (auto &r : R) r.reset(); }

// reference of a join on column 0; output = left columns ++ right columns
static Bag refJoin(const Bag &l, const Bag &r, bool lo, bool ro) {
    Bag o;
    for (auto &a : l) { bool m = false; for (auto &b : r) if (a.v[0] == b.v[0]) { Tup t; t.v = a.v; t.v.insert(t.v.end(), b.v.begin(), b.v.end()); t.c = a.c * b.c; o.push_back(t); m = true; }
        if (!m && ro) { Tup t; t.v = a.v; t.v.resize(a.v.size() + 2, UINT64_MAX); t.c = a.c; o.push_back(t); } }
    if (lo) for (auto &b : r) { bool m = false; for (auto &a : l) if (a.v[0] == b.v[0]) m = true;
        if (!m) { Tup t; t.v.resize(2, UINT64_MAX); t.v.insert(t.v.end(), b.v.begin(), b.v.end()); t.c = b.c; o.push_back(t); } }
    return o;
}
static void mergeJoin(bool lo, bool ro) {
    unsigned nl = sx_param("nl", 3), nr = sx_param("nr", 3);
    resetRegs();
    Operator::disableSkipping = sx_param("noskip", 0);
    uint64_t hi = sx_param("hi", HI);
    Bag l = symBag("l", nl, 2, hi, 0, sx_param("maxc", 2)), r = symBag("r", nr, 2, hi, 0, sx_param("maxc", 2));
    Regs lt{&R[1]}, rt{&R[3]};
    MergeJoin j(new Src(l, {&R[0], &R[1]}), &R[0], lt, new Src(r, {&R[2], &R[3]}), &R[2], rt, lo, ro, 1);
    Bag out = drain(j, {&R[0], &R[1], &R[2], &R[3]}, nl * nr + nl + nr);
    Bag ref = refJoin(l, r, lo, ro);
    SX_ASSERT(sameBag(out, ref), lo || ro ? "merge join: an optional join yields every match and every unmatched mandatory row once" : "merge join: yields exactly the pairs of rows that agree on the join value, with their multiplicities");
    uint64_t ord = 1;
    if (!lo && !ro) for (size_t i = 1; i < out.size(); i++) ord &= (uint64_t)(out[i - 1].v[0] <= out[i].v[0]);
    SX_ASSERT(ord, "merge join: the result is sorted by the join value");
    SX_ASSERT(j.getObservedOutputCardinality() == (double)total(out), "merge join: reports the number of rows it produced");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
    if (out.size() > 1) sx_reach("several rows");
}
SX_ENTRY h_merge_join() { mergeJoin(false, false); }
SX_ENTRY h_merge_join_ro() { mergeJoin(false, true); }
SX_ENTRY h_merge_join_lo() { mergeJoin(true, false); }

// hash join: keys come from a list that collides in one or both of the tables
static const uint64_t KEYS[6] = {5, 5 + 1024, 5 + 8192 * 1024, 5 + 16384 * 1024, 700, 5 + (1ull << 24)};
static Bag keyBag(const char *nm, unsigned n, unsigned nk, uint64_t hi, unsigned maxc) {
    Bag b;
    for (unsigned i = 0; i < n; i++) {
        Tup t;
        t.v.push_back(KEYS[sx_concretize(sx_range((std::string(nm) + "k" + std::to_string(i)).c_str(), 0, nk - 1))]);
        t.v.push_back(sx_range((std::string(nm) + "t" + std::to_string(i)).c_str(), 0, hi));
        t.c = maxc > 1 ? sx_range((std::string(nm) + "c" + std::to_string(i)).c_str(), 1, maxc) : 1;
        b.push_back(t);
    }
    return b;
}
// every column from a small pool (the operator hashes the values)
static Bag poolBag(const char *nm, unsigned n, unsigned w, unsigned nk, unsigned maxc) {
    static const uint64_t POOL[4] = {5, 6, (1ull << 40) + 5, 0};
    Bag b;
    for (unsigned i = 0; i < n; i++) {
        Tup t;
        for (unsigned k = 0; k < w; k++) t.v.push_back(POOL[sx_concretize(sx_range((std::string(nm) + std::to_string(i) + "_" + std::to_string(k)).c_str(), 0, nk - 1))]);
        t.c = maxc > 1 ? sx_range((std::string(nm) + "c" + std::to_string(i)).c_str(), 1, maxc) : 1;
        b.push_back(t);
    }
    return b;
}
static void hashJoin(bool lo, bool ro) {
    unsigned nl = sx_param("nl", 2), nr = sx_param("nr", 2), nk = sx_param("nk", 3);
    resetRegs();
    Bag l = keyBag("l", nl, nk, HI, 2), r = keyBag("r", nr, nk, HI, 2);
    HashJoin j(new Src(l, {&R[0], &R[1]}), &R[0], {&R[1]}, new Src(r, {&R[2], &R[3]}), &R[2], {&R[3]}, 1, 1, 1, lo, ro, 0);
    Bag out = drain(j, {&R[0], &R[1], &R[2], &R[3]}, nl * nr + nl + nr);
    Bag ref = refJoin(l, r, lo, ro);
    SX_ASSERT(sameBag(out, ref), lo || ro ? "hash join: an optional join yields every match and every unmatched mandatory row once" : "hash join: yields exactly the pairs of rows that agree on the join value, with their multiplicities");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
    if (out.size() > 1) sx_reach("several rows");
}
SX_ENTRY h_hash_join() { hashJoin(false, false); }
SX_ENTRY h_hash_join_ro() { hashJoin(false, true); }
SX_ENTRY h_hash_join_lo() { hashJoin(true, false); }

// what a hash join learns about its variables and tells the rest of the query
static void hashJoinDomains(bool lo, bool ro) {
    static const uint64_t TAIL[3] = {9, 9 + 37 * 64, 5000000};
    unsigned nl = sx_param("nl", 3), nr = sx_param("nr", 2), pre = sx_param("pre", 0);
    resetRegs();
    PotentialDomainDescription dk, dt; bool onKey = sx_param("onkey", 1);
    if (onKey) { R[0].domain = &dk; R[2].domain = &dk; } R[1].domain = &dt;
    Bag l, r;
    for (unsigned i = 0; i < nl; i++) { std::string s = std::to_string(i); Tup t; t.v = {KEYS[sx_concretize(sx_range(("lk" + s).c_str(), 0, 1))], TAIL[sx_concretize(sx_range(("lt" + s).c_str(), 0, 2))]}; t.c = sx_range(("lc" + s).c_str(), 1, 2); l.push_back(t); }
    for (unsigned i = 0; i < nr; i++) { std::string s = std::to_string(i); Tup t; t.v = {KEYS[sx_concretize(sx_range(("rk" + s).c_str(), 0, 1))], 100 + i}; t.c = 1; r.push_back(t); }
    if (pre & 1) { ObservedDomainDescription o; o.add(TAIL[0]); o.add(TAIL[2]); dt.restrictTo(o); } // another part of the query only has these
    if (pre & 2) { ObservedDomainDescription o; o.add(KEYS[1]); dk.restrictTo(o); }
    HashJoin j(new Src(l, {&R[0], &R[1]}), &R[0], {&R[1]}, new Src(r, {&R[2], &R[3]}), &R[2], {&R[3]}, 1, 1, 1, lo, ro, 0);
    Bag out = drain(j, {&R[0], &R[1], &R[2], &R[3]}, nl * nr + nl + nr);
    Bag ref = refJoin(l, r, lo, ro), need, got;
    auto wanted = [&](const Tup &t) { return !((pre & 1) && t.v[1] == TAIL[1]) && !((pre & 2) && t.v[0] != KEYS[1]); };
    for (auto &t : ref) if (wanted(t)) need.push_back(t);
    for (auto &t : out) if (wanted(t)) got.push_back(t);
    SX_ASSERT(sameBag(got, need), "hash join: a row that other parts of the query can still use is not dropped");
    if (!pre) SX_ASSERT(sameBag(out, ref), "hash join: yields exactly the pairs of rows that agree on the join value, with their multiplicities");
    for (auto &t : got) SX_ASSERT((!~t.v[1] || dt.couldQualify(t.v[1])) && (!onKey || !~t.v[0] || dk.couldQualify(t.v[0])), "hash join: the values it announces for a variable include every one it produces");
    if (got.size() > 1) sx_reach("several rows");
}
SX_ENTRY h_hash_join_domains() { hashJoinDomains(false, sx_param("ro", 0)); }

SX_ENTRY h_cart_prod() {
    unsigned nl = sx_param("nl", 2), nr = sx_param("nr", 2);
    bool lo = sx_param("lo", 0), ro = sx_param("ro", 0);
    resetRegs();
    Bag l = symBag("l", nl, 2, UINT64_MAX - 1, -1, 2), r = symBag("r", nr, 2, UINT64_MAX - 1, -1, 2);
    CartProd j(new Src(l, {&R[0], &R[1]}), {&R[0], &R[1]}, new Src(r, {&R[2], &R[3]}), {&R[2], &R[3]}, 1, lo, ro, 0);
    Bag out = drain(j, {&R[0], &R[1], &R[2], &R[3]}, (nl + 1) * (nr + 1));
    Bag L = l, Rr = r;
    if (L.empty() && lo) L.push_back(Tup{{UINT64_MAX, UINT64_MAX}, 1});
    if (Rr.empty() && ro) Rr.push_back(Tup{{UINT64_MAX, UINT64_MAX}, 1});
    Bag ref;
    for (auto &a : L) for (auto &b : Rr) { Tup t; t.v = a.v; t.v.insert(t.v.end(), b.v.begin(), b.v.end()); t.c = a.c * b.c; ref.push_back(t); }
    SX_ASSERT(sameBag(out, ref), "cartesian product: pairs every left row with every right row once");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
    if (nl && nr) sx_reach("product");
}
SX_ENTRY h_nested_loop_join() {
    unsigned nl = sx_param("nl", 2), nr = sx_param("nr", 2);
    resetRegs();
    Bag l = symBag("l", nl, 1, UINT64_MAX, -1, 2), r = symBag("r", nr, 1, UINT64_MAX, -1, 2);
    NestedLoopJoin j(new Src(l, {&R[0]}), new Src(r, {&R[1]}), 1);
    Bag out = drain(j, {&R[0], &R[1]}, nl * nr), ref;
    for (auto &a : l) for (auto &b : r) ref.push_back(Tup{{a.v[0], b.v[0]}, a.c * b.c});
    SX_ASSERT(sameBag(out, ref), "nested loop join: pairs every left row with every right row once");
    SX_ASSERT(j.getObservedOutputCardinality() == (double)total(out), "nested loop join: reports the number of rows it produced");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
    if (nl && nr) sx_reach("product");
}
SX_ENTRY h_merge_union() {
    unsigned nl = sx_param("nl", 2), nr = sx_param("nr", 2);
    resetRegs();
    Bag l = symBag("l", nl, 1, UINT64_MAX, 0, 3), r = symBag("r", nr, 1, UINT64_MAX, 0, 3);
    MergeUnion u(&R[4], new Src(l, {&R[0]}), &R[0], new Src(r, {&R[1]}), &R[1], 1);
    Bag out = drain(u, {&R[4]}, nl + nr), ref(l);
    ref.insert(ref.end(), r.begin(), r.end());
    SX_ASSERT(sameBag(out, ref), "merge union: yields exactly the values of both inputs with added multiplicities");
    uint64_t ord = 1;
    for (size_t i = 1; i < out.size(); i++) ord &= (uint64_t)(out[i - 1].v[0] <= out[i].v[0]);
    SX_ASSERT(ord, "merge union: the result is sorted");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); sx_obs(t.v[0]); }
    if (nl && nr) sx_reach("both inputs");
}
SX_ENTRY h_union() {
    unsigned np = sx_param("parts", 3);
    resetRegs();
    std::vector<Operator*> parts; std::vector<Regs> maps, inits; Bag ref;
    // part k binds register k and k+4 of the output (6,7) or leaves 7 unbound
    for (unsigned k = 0; k < np; k++) {
        unsigned n = sx_concretize(sx_range(("n" + std::to_string(k)).c_str(), 0, 2));
        bool both = sx_concretize(sx_range(("both" + std::to_string(k)).c_str(), 0, 1));
        Bag b = symBag(("p" + std::to_string(k)).c_str(), n, both ? 2 : 1, HI, -1, 2);
        Regs rg{&R[k]}, mp{&R[k], &R[6]}, in;
        if (both) { rg.push_back(&R[k + 3]); mp.push_back(&R[k + 3]); mp.push_back(&R[7]); } else in.push_back(&R[7]);
        parts.push_back(new Src(b, rg)); maps.push_back(mp); inits.push_back(in);
        for (auto &t : b) { Tup u = t; if (!both) u.v.push_back(UINT64_MAX); ref.push_back(u); }
    }
    Union u(parts, maps, inits, 1);
    Bag out = drain(u, {&R[6], &R[7]}, 2 * np);
    SX_ASSERT(sameBag(out, ref), "union: yields the rows of every part with the part's bindings, variables the part lacks unbound");
    SX_ASSERT(u.getObservedOutputCardinality() == (double)total(out), "union: reports the number of rows it produced");
    SX_ASSERT(u.next() == 0, "union: stays at its end");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); sx_obs(t.v[0]); sx_obs(t.v[1]); }
    if (out.size() > 2) sx_reach("several parts");
}
SX_ENTRY h_minus() {
    unsigned nl = sx_param("nl", 3), nr = sx_param("nr", 2), w = sx_param("w", 2);
    resetRegs();
    Bag l = poolBag("l", nl, w, 3, 2), r = poolBag("r", nr, w, 3, 1);
    Regs lr, rr; std::vector<std::pair<Register*, Register*>> chk;
    for (unsigned i = 0; i < w; i++) { lr.push_back(&R[i]); rr.push_back(&R[4 + i]); chk.push_back(std::make_pair(&R[i], &R[4 + i])); }
    Minus m(new Src(l, lr), new Src(r, rr), chk, 1);
    Bag out = drain(m, lr, nl), ref;
    for (auto &a : l) { Tup t = a; uint64_t hit = 0; for (auto &b : r) hit |= sameTup(a.v, b.v); t.c &= hit - 1; ref.push_back(t); }
    SX_ASSERT(sameBag(out, ref), "minus: keeps exactly the rows of the left side that no row of the right side agrees with");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
    if (out.size() && out.size() < nl) sx_reach("some rows removed");
}
SX_ENTRY h_group_by() {
    unsigned n = sx_param("n", 3); bool distinct = sx_param("distinct", 0); unsigned order = sx_param("order", 0);
    resetRegs();
    Bag b = symBag("b", n, 2, UINT64_MAX, -1, 3);
    std::map<unsigned, Register*> bind{{3, &R[0]}, {5, &R[1]}};
    std::vector<unsigned> regs = order == 0 ? std::vector<unsigned>{3, 5} : order == 1 ? std::vector<unsigned>{5, 3} : std::vector<unsigned>{5};
    GroupBy g(new Src(b, {&R[0], &R[1]}), bind, regs, distinct, 1);
    Bag out = drain(g, {&R[0], &R[1]}, n);
    uint64_t ok = 1;
    auto less = [&](const Tup &x, const Tup &y) -> uint64_t { // strictly before, by the sort fields
        if (order == 0) return (x.v[0] < y.v[0]) | ((x.v[0] == y.v[0]) & (x.v[1] < y.v[1]));
        if (order == 1) return (x.v[1] < y.v[1]) | ((x.v[1] == y.v[1]) & (x.v[0] < y.v[0]));
        return x.v[1] < y.v[1]; };
    for (size_t i = 1; i < out.size(); i++) ok &= distinct ? less(out[i - 1], out[i]) : 1 ^ less(out[i], out[i - 1]);
    SX_ASSERT(ok, distinct ? "group by: distinct rows come in strictly increasing key order" : "group by: rows come in key order");
    if (!distinct) SX_ASSERT(sameBag(out, b), "group by: keeps every row with its multiplicity");
    else {
        uint64_t all = 1;
        for (auto &x : b) { uint64_t f = 0; for (auto &y : out) f |= (1 ^ less(x, y)) & (1 ^ less(y, x)); all &= f; }
        for (auto &y : out) { uint64_t f = 0; for (auto &x : b) f |= sameTup(x.v, y.v); all &= f; all &= (uint64_t)(y.c == 1); }
        SX_ASSERT(all, "group by: distinct keeps one row of every key and nothing else");
    }
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); }
    if (out.size() > 1) sx_reach("several rows");
}
SX_ENTRY h_hash_groupify() {
    unsigned n = sx_param("n", 3), w = sx_param("w", 2), nk = sx_param("nk", 3);
    resetRegs();
    Bag b; Regs rg;
    // values that share a slot of the 64-entry table; as pairs, some share the whole hash
    static const uint64_t K[6] = {1, 65, 1 + (1ull << 33), (1ull << 49) | 3, 0, 1ull << 15};
    for (unsigned i = 0; i < n; i++) { Tup t; for (unsigned k = 0; k < w; k++) t.v.push_back(K[(sx_param("kmask", 0) ? (const unsigned[]){0, 4, 5} : (const unsigned[]){0, 1, 2, 3, 4, 5})[sx_concretize(sx_range(("k" + std::to_string(i) + "_" + std::to_string(k)).c_str(), 0, nk - 1))]]); t.c = sx_range(("c" + std::to_string(i)).c_str(), 1, 1000); b.push_back(t); }
    for (unsigned k = 0; k < w; k++) rg.push_back(&R[k]);
    HashGroupify g(new Src(b, rg), rg, 1);
    Bag out = drain(g, rg, n);
    SX_ASSERT(sameBag(out, b), "hash grouping: every group has the summed multiplicity of its rows");
    uint64_t ok = 1;
    for (size_t i = 0; i < out.size(); i++) for (size_t j = i + 1; j < out.size(); j++) ok &= 1 ^ sameTup(out[i].v, out[j].v);
    SX_ASSERT(ok, "hash grouping: no group appears twice");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); for (auto v : t.v) sx_obs(v); }
    if (out.size() > 1 && out.size() < n) sx_reach("grouped");
}
// growth of the table: many groups
SX_ENTRY h_hash_groupify_grow() {
    unsigned n = sx_param("n", 120);
    resetRegs();
    Bag b; Regs rg{&R[0]};
    uint64_t stride = sx_concretize(sx_range("stride", 0, 2)), st[3] = {1, 64, 4096 + 1};
    unsigned x = sx_concretize(sx_range("again", 0, 1)) * 57;
    for (unsigned i = 0; i < n; i++) b.push_back(Tup{{i * st[stride]}, 1});
    b.push_back(Tup{{x * st[stride]}, sx_range("extra", 1, 1u << 30)});
    HashGroupify g(new Src(b, rg), rg, 1);
    Bag out = drain(g, rg, n + 1);
    SX_ASSERT(out.size() == n, "hash grouping: groups survive the growth of the table");
    uint64_t ok = 1;
    std::vector<char> seen(n);
    for (auto &t : out) { uint64_t k = t.v[0] / st[stride]; SX_ASSERT(k < n && !seen[k], "hash grouping: no group appears twice"); if (k >= n) return; seen[k] = 1; ok &= (uint64_t)(t.c == (k == x ? 1 + b[n].c : 1)); }
    SX_ASSERT(ok, "hash grouping: every group has the summed multiplicity of its rows");
    sx_obs(out.size());
    sx_reach("grown");
}
SX_ENTRY h_dupl_limit() {
    unsigned n = sx_param("n", 2), dup = sx_param("dup", 1);
    resetRegs();
    Bag b = symBag("b", n, 1, HI, -1, 3);
    // counts decide the number of rows: one path per value
    for (auto &t : b) t.c = sx_concretize(t.c);
    uint64_t limit = sx_range("limit", 0, UINT64_MAX), offset = sx_range("offset", 0, UINT64_MAX);
    DuplLimit d(new Src(b, {&R[0]}), {&R[0]}, dup ? DuplLimit::Duplicates : DuplLimit::NoDuplicates, limit, offset);
    std::vector<uint64_t> all;
    for (auto &t : b) for (unsigned k = 0; k < (dup ? t.c : 1); k++) all.push_back(t.v[0]);
    for (unsigned round = 0; round < 2; round++) {
    uint64_t pos = offset, given = 0;
    for (uint64_t c = d.first(); c; c = d.next()) {
        SX_ASSERT(c == 1, "limit: rows come one at a time");
        SX_ASSERT(given < limit, "limit: no more rows than the limit");
        SX_ASSERT(pos < all.size(), "limit: no row beyond the input");
        if (pos >= all.size() || given >= limit) return;
        uint64_t want = all[sx_concretize(pos)];
        SX_ASSERT(R[0].value == want, "limit: the rows after the offset, in order");
        pos++; given++;
        sx_obs(R[0].value);
    }
    SX_ASSERT(given == limit || offset >= all.size() || pos == all.size(), "limit: does not stop early");
    if (round && given && offset) sx_reach("offset and rows");
    }
}
SX_ENTRY h_values_scan() {
    unsigned n = sx_param("n", 3), w = sx_param("w", 2);
    resetRegs();
    Bag b = symBag("b", n, w, UINT64_MAX, -1, 1);
    Regs rg; std::vector<uint64_t> flat;
    for (unsigned k = 0; k < w; k++) rg.push_back(&R[k]);
    for (auto &t : b) flat.insert(flat.end(), t.v.begin(), t.v.end());
    ValuesScan s(rg, flat, n);
    Bag out = drain(s, rg, n);
    SX_ASSERT(out.size() == n, "inline values: every row is produced");
    if (out.size() == n) { uint64_t ok = 1; for (unsigned i = 0; i < n; i++) ok &= sameTup(out[i].v, b[i].v); SX_ASSERT(ok, "inline values: rows are produced as written, in order"); }
    if (n) { Bag again = drain(s, rg, n); SX_ASSERT(again.size() == n && sameBag(again, b), "inline values: starting again yields the same rows"); }
    sx_obs(out.size());
    if (n) sx_reach("rows");
}
SX_ENTRY h_filter() {
    unsigned n = sx_param("n", 3), nv = sx_param("nv", 2); bool excl = sx_param("exclude", 0);
    resetRegs();
    uint64_t base = sx_concretize(sx_range("base", 0, 1)) ? (1ull << 40) : 0;
    std::vector<uint64_t> vals;
    for (unsigned i = 0; i < nv; i++) vals.push_back(base + sx_concretize(sx_range(("v" + std::to_string(i)).c_str(), 0, 3)));
    Bag b = symBag("b", n, 1, UINT64_MAX, -1, 3);
    PotentialDomainDescription dom;
    if (sx_param("domain", 0)) R[0].domain = &dom;
    Filter f(new Src(b, {&R[0]}), &R[0], vals, excl, 1);
    Bag out = drain(f, {&R[0]}, n), ref;
    for (auto &t : b) { uint64_t in = 0; for (auto v : vals) in |= (uint64_t)(v == t.v[0]); Tup u = t; if (excl) in |= (uint64_t)(t.v[0] == UINT64_MAX) | (0 - in); u.c &= (in & 1) ^ excl ? ~0ull : 0; ref.push_back(u); }
    SX_ASSERT(sameBag(out, ref), excl ? "filter: drops exactly the rows whose value is listed or missing" : "filter: keeps exactly the rows whose value is listed");
    SX_ASSERT(f.getObservedOutputCardinality() == (double)total(out), "filter: reports the number of rows it produced");
    if (!excl && R[0].domain) for (auto v : vals) SX_ASSERT(dom.couldQualify(v), "filter: the domain it announces keeps every listed value");
    sx_obs(out.size()); for (auto &t : out) { sx_obs(t.c); sx_obs(t.v[0]); }
    if (out.size()) sx_reach("rows");
}
// an input that depends on the register the nested loop sets
class ByReg : public Operator {
public:
    Register *in, *out; Bag rows; size_t pos; uint64_t k;
    ByReg(Register *i, Register *o, const Bag &b) : Operator(1), in(i), out(o), rows(b), pos(0), k(0) {}
    uint64_t go() { while (pos < rows.size()) { Tup &t = rows[pos++]; if (t.v[0] == k) { out->value = t.v[1]; return t.c; } } return 0; }
    uint64_t first() { k = in->value; pos = 0; return go(); }
    uint64_t next() { return go(); }
    void print(PlanPrinter &) {}
    void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &) {}
};
SX_ENTRY h_nested_loop_filter() {
    unsigned n = sx_param("n", 2), nv = sx_param("nv", 2);
    resetRegs();
    Bag b = symBag("b", n, 2, 5, -1, 2);
    std::vector<uint64_t> vals;
    for (unsigned i = 0; i < nv; i++) { vals.push_back(sx_range(("v" + std::to_string(i)).c_str(), 0, 5)); for (unsigned j = 0; j < i; j++) SX_ASSUME(vals[j] != vals[i]); }
    ByReg in(&R[0], &R[1], b);
    NestedLoopFilter f(&in, &R[0], vals, 1);
    Bag out = drain(f, {&R[0], &R[1]}, n), ref;
    for (auto &t : b) { uint64_t hit = 0; for (auto v : vals) hit |= (uint64_t)(v == t.v[0]); Tup u = t; u.c &= 0 - hit; ref.push_back(u); }
    SX_ASSERT(sameBag(out, ref), "nested loop filter: yields exactly the rows whose value is listed");
    uint64_t ord = 1; for (size_t i = 1; i < out.size(); i++) ord &= (uint64_t)(out[i - 1].v[0] <= out[i].v[0]);
    SX_ASSERT(ord, "nested loop filter: rows come in the order of the listed values");
    sx_obs(out.size());
    if (out.size()) sx_reach("rows");
}
SX_ENTRY h_trivial_ops() {
    resetRegs();
    EmptyScan e; SX_ASSERT(e.first() == 0 && e.next() == 0, "empty scan: has no row");
    SingletonScan s; SX_ASSERT(s.first() == 1, "singleton scan: has one row"); SX_ASSERT(s.next() == 0, "singleton scan: has only one row");
    unsigned n = sx_param("n", 2);
    Bag b = symBag("b", n, 1, UINT64_MAX, -1, 1);
    uint64_t dv = sx_u64("default");
    std::vector<Assignment::AssignmentArgument> args(2);
    args[0].reg = &R[0]; args[0].defaultValue = 0; args[1].reg = 0; args[1].defaultValue = dv;
    Assignment a(new Src(b, {&R[0]}), args, {&R[1], &R[2]}, 1);
    Bag out = drain(a, {&R[0], &R[1], &R[2]}, n);
    SX_ASSERT(out.size() == n, "assignment: keeps every row");
    uint64_t ok = 1;
    for (size_t i = 0; i < out.size() && i < n; i++) ok &= (uint64_t)((out[i].v[0] == b[i].v[0]) & (out[i].v[1] == b[i].v[0]) & (out[i].v[2] == dv));
    SX_ASSERT(ok, "assignment: binds the source variable's value or the constant");
    sx_obs(out.size());
    sx_reach("assigned");
}
