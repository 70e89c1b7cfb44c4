// A database layer over a short list of triples with symbolic values.
#pragma once
#include "bag.h"
#include <dblayer.hpp>
#include <algorithm>
typedef std::vector<uint64_t> V3;
static const int PERM[12][3] = {{0,1,2},{0,2,1},{2,1,0},{2,0,1},{1,0,2},{1,2,0},{0,1,2},{0,2,1},{2,1,0},{2,0,1},{1,2,0},{1,0,2}};
static DBLayer::Hint *lastHint;
static int base(int o) { static const int B[12] = {0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 5, 4}; return B[o]; } // the unordered orders
// A scan over rows sorted by the asked order. exact: a constrained first() ends with the prefix; otherwise it goes on behind it.
struct MemScan : public DBLayer::Scan {
    std::vector<V3> rows; std::vector<uint64_t> cnt; size_t pos, end; bool exact;
    bool at() { return pos < end; }
    uint64_t getValue1() { return rows[pos][0]; }
    uint64_t getValue2() { return rows[pos][1]; }
    uint64_t getValue3() { return rows[pos][2]; }
    uint64_t getCount() { return cnt[pos]; }
    bool next() { pos++; return at(); }
    bool first() { pos = 0; end = rows.size(); return at(); }
    bool seek(const V3 &p) {
        end = rows.size();
        for (pos = 0; pos < end; pos++) { bool lt = false, gt = false; for (size_t i = 0; i < p.size() && !lt && !gt; i++) { if (rows[pos][i] < p[i]) lt = true; else if (rows[pos][i] > p[i]) gt = true; } if (!lt) break; }
        if (exact) { size_t e = pos; for (; e < end; e++) { bool eq = true; for (size_t i = 0; i < p.size(); i++) if (rows[e][i] != p[i]) eq = false; if (!eq) break; } end = e; }
        return at();
    }
    bool first(uint64_t a, bool c) { return c ? seek({a}) : first(); }
    bool first(uint64_t a, bool c, uint64_t b, bool d) { return c ? (d ? seek({a, b}) : seek({a})) : first(); }
    bool first(uint64_t a, bool c, uint64_t b, bool d, uint64_t e, bool f) { return c ? (d ? (f ? seek({a, b, e}) : seek({a, b})) : seek({a})) : first(); }
};
struct MemDB : public DBLayer {
    std::vector<V3> spo; std::vector<V3> sorted[6]; bool have[6] = {false, false, false, false, false, false}; uint64_t seed = 0; bool exact; uint64_t nextId; std::vector<std::pair<std::string, uint64_t>> dict;
    bool lookup(const std::string &t, ::Type::ID, unsigned, uint64_t &id) { for (auto &d : dict) if (d.first == t) { id = d.second; return true; } return false; }
    bool lookupById(uint64_t id, const char *&s, const char *&e, ::Type::ID &t, unsigned &st) { for (auto &d : dict) if (d.second == id) { s = d.first.c_str(); e = s + d.first.size(); t = ::Type::URI; st = 0; return true; } return false; }
    bool lookupById(uint64_t, char *, size_t &, ::Type::ID &, unsigned &) { return false; }
    uint64_t getNextId() { return nextId; }
    // estimates steer the planner: any number is allowed, the seed varies them
    uint64_t guess(uint64_t a, uint64_t b, uint64_t c, uint64_t d) { if (!seed) return 1; uint64_t h = seed * 0x9E3779B97F4A7C15ull; uint64_t x[4] = {a, b, c, d}; for (auto y : x) { h ^= y + 0x9E37; h *= 0xff51afd7ed558ccdull; h ^= h >> 29; } return 1 + (h >> 7) % 1000; }
    double getScanCost(DataOrder o, uint64_t a, uint64_t, uint64_t b, uint64_t, uint64_t c, uint64_t) { return guess(o, a, b, c); }
    double getScanCost(DataOrder o, uint64_t a, uint64_t, uint64_t b, uint64_t) { return guess(o + 20, a, b, 0); }
    double getScanCost(DataOrder o, uint64_t a, uint64_t) { return guess(o + 40, a, 0, 0); }
    double getJoinSelectivity(bool, uint64_t a, bool, uint64_t b, bool, uint64_t c, bool, uint64_t d, bool, uint64_t e, bool, uint64_t f) { return seed ? 1.0 / guess(a + 8 * d, b + 8 * e, c + 8 * f, 70) : 1; }
    uint64_t getCardinality(uint64_t a, uint64_t b, uint64_t c) { return guess(a, b, c, 90); }
    uint64_t getCardinality() { return seed ? guess(91, 91, 91, 91) : spo.size(); }
    std::unique_ptr<Scan> getScan(const DataOrder o, const Aggr_t a, Hint *h) {
        lastHint = h;
        std::vector<V3> &r = sorted[base(o)];
        if (!have[base(o)]) {
        for (auto &t : spo) r.push_back(V3{t[PERM[o][0]], t[PERM[o][1]], t[PERM[o][2]]});
        for (size_t i = 0; i < r.size(); i++) for (size_t j = i + 1; j < r.size(); j++) if (r[j] < r[i]) std::swap(r[i], r[j]);
        have[base(o)] = true; }
        MemScan *s = new MemScan(); s->exact = exact; s->pos = 0; s->end = 0;
        size_t w = a == AGGR_NO ? 3 : a == AGGR_SKIP_LAST ? 2 : 1;
        for (auto &t : r) {
            V3 k(t.begin(), t.begin() + w);
            if (w < 3 && !s->rows.empty() && s->rows.back() == k) s->cnt.back()++; else { s->rows.push_back(k); s->cnt.push_back(1); }
        }
        return std::unique_ptr<Scan>(s);
    }
};
