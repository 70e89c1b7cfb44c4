// Bags of tuples with symbolic values, compared without forking; a source operator over such a bag.
#pragma once
#include "sx.h"
#include <string>
#include <rts/operator/Operator.hpp>
#include <rts/operator/PlanPrinter.hpp>
#include <rts/runtime/Runtime.hpp>
struct Tup { std::vector<uint64_t> v; uint64_t c; };
typedef std::vector<Tup> Bag;
static inline uint64_t sameTup(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
    uint64_t r = 1;
    for (size_t i = 0; i < a.size(); i++) r &= (uint64_t)(a[i] == b[i]);
    return r;
}
static inline uint64_t occ(const Bag &b, const std::vector<uint64_t> &t) {
    uint64_t n = 0;
    for (auto &x : b) n += (0 - sameTup(x.v, t)) & x.c;
    return n;
}
static inline bool sameBag(const Bag &a, const Bag &b) {
    uint64_t ok = 1;
    for (auto &x : a) ok &= (uint64_t)(occ(a, x.v) == occ(b, x.v));
    for (auto &x : b) ok &= (uint64_t)(occ(a, x.v) == occ(b, x.v));
    return ok;
}
static inline uint64_t total(const Bag &b) { uint64_t n = 0; for (auto &x : b) n += x.c; return n; }
class Src : public Operator {
public:
    Bag rows; std::vector<Register*> regs; size_t pos; unsigned firsts;
    Src(const Bag &b, const std::vector<Register*> &r) : Operator(1), rows(b), regs(r), pos(0), firsts(0) {}
    uint64_t emit() { if (pos >= rows.size()) return 0; for (size_t i = 0; i < regs.size(); i++) regs[i]->value = rows[pos].v[i]; return rows[pos++].c; }
    uint64_t first() { firsts++; pos = 0; return emit(); }
    uint64_t next() { return emit(); }
    void print(PlanPrinter &) {}
    void addMergeHint(Register *, Register *) {}
    void getAsyncInputCandidates(Scheduler &) {}
};
// n symbolic tuples of width w; sortCol >= 0: non-decreasing in that column. counts 1..maxc
static inline Bag symBag(const char *nm, unsigned n, unsigned w, uint64_t hi, int sortCol, unsigned maxc = 1) {
    Bag b;
    for (unsigned i = 0; i < n; i++) {
        Tup t;
        for (unsigned k = 0; k < w; k++) t.v.push_back(sx_range((std::string(nm) + std::to_string(i) + "_" + std::to_string(k)).c_str(), 0, hi));
        t.c = maxc > 1 ? sx_range((std::string(nm) + std::to_string(i) + "_c").c_str(), 1, maxc) : 1;
        if (sortCol >= 0 && i) SX_ASSUME(b[i - 1].v[sortCol] <= t.v[sortCol]);
        b.push_back(t);
    }
    return b;
}
// runs an operator to the end
static inline Bag drainOnce(Operator &op, const std::vector<Register*> &out, unsigned cap) {
    Bag r;
    for (uint64_t c = op.first(); c; c = op.next()) {
        Tup t; t.c = c;
        for (auto x : out) t.v.push_back(x->value);
        r.push_back(t);
        SX_ASSERT(r.size() <= cap, "operator: produces no more rows than its inputs allow");
        if (r.size() > cap) sx_stop();
    }
    return r;
}
// ... twice: an operator below a nested loop or a product is started again
static inline Bag drain(Operator &op, const std::vector<Register*> &out, unsigned cap) {
    Bag a = drainOnce(op, out, cap), b = drainOnce(op, out, cap);
    SX_ASSERT(sameBag(a, b), "operator: starting again yields the same rows");
    return b;
}
