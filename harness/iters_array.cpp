// ArrayItr and RmItr: constraints, ordering, seek, mark/reset, counts; set difference.
#include "sx.h"
#include <trident/iterators/arrayitr.h>
#include <trident/iterators/rmitr.h>
#include <algorithm>
typedef std::vector<std::pair<uint64_t, uint64_t>> VP;

static VP sortedPairs(const char *nm, unsigned n, uint64_t hi) {
    VP r;
    for (unsigned i = 0; i < n; i++) {
        uint64_t a = sx_range((std::string(nm) + "a" + std::to_string(i)).c_str(), 0, hi);
        uint64_t b = sx_range((std::string(nm) + "b" + std::to_string(i)).c_str(), 0, hi);
        if (i) SX_ASSUME((r[i - 1].first < a) | ((r[i - 1].first == a) & (r[i - 1].second < b)));
        r.push_back(std::make_pair(a, b));
    }
    return r;
}
// what a sorted source answers under the two optional constraints
static VP filt(const VP &v, int64_t c1, int64_t c2) {
    VP r;
    for (auto &p : v) if ((c1 == -1 || (int64_t)p.first == c1) && (c2 == -1 || (int64_t)p.second == c2)) r.push_back(p);
    return r;
}

// arbitrary sequence of next / moveto / mark / reset against the list the constraints select
SX_ENTRY h_array_ops() {
    unsigned n = sx_param("n", 3), k = sx_param("k", 4), cons = sx_param("cons", 0), ops = sx_param("ops", 4);
    uint64_t hi = (1ULL << 40);
    VP v = sortedPairs("p", n, hi);
    int64_t c1 = -1, c2 = -1;
    if (cons >= 1) c1 = sx_range("c1", 0, hi);
    if (cons >= 2) c2 = sx_range("c2", 0, hi);
    VP ref = filt(v, c1, c2);
    ArrayItr it;
    it.init(std::make_shared<VP>(v), c1, c2);
    size_t pos = 0, mpos = 0;
    bool cur = false, marked = false;
    for (unsigned i = 0; i < k; i++) {
        unsigned op = i == 0 ? 0 : sx_concretize(sx_range("op", 0, ops - 1));
        if (op == 0) {
            bool h = it.hasNext();
            SX_ASSERT(h == (pos < ref.size()), "array iterator: hasNext tells whether a matching element is left");
            if (!h || pos >= ref.size()) { sx_reach("exhausted"); if (!marked) return; cur = false; continue; }
            it.next();
            SX_ASSERT(((uint64_t)it.getValue1() == ref[pos].first) & ((uint64_t)it.getValue2() == ref[pos].second), "array iterator: next returns the next matching element in order");
            sx_obs(it.getValue1()); sx_obs(it.getValue2());
            pos++; cur = true;
        } else if (op == 1) {
            if (!cur) continue;
            uint64_t t1 = sx_range("t1", 0, hi), t2 = sx_range("t2", 0, hi);
            if (cons >= 1) SX_ASSUME(t1 == (uint64_t)c1);
            it.moveto(t1, t2);
            size_t q = pos - 1;
            while (q < ref.size() && (ref[q].first < t1 || (ref[q].first == t1 && ref[q].second < t2))) q++;
            pos = q; cur = false;
            bool h = it.hasNext();
            SX_ASSERT(h == (pos < ref.size()), "array iterator: after a seek, hasNext tells whether an element at or after the target is left");
            if (!h || pos >= ref.size()) { sx_reach("seek past the end"); if (!marked) return; continue; }
            it.next();
            SX_ASSERT(((uint64_t)it.getValue1() == ref[pos].first) & ((uint64_t)it.getValue2() == ref[pos].second), "array iterator: a seek moves to the first element at or after the target");
            pos++; cur = true;
            sx_reach("seek");
        } else if (op == 2) {
            it.mark(); mpos = pos; marked = true;
        } else {
            if (!marked) continue;
            it.reset(0); pos = mpos; cur = false; sx_reach("reset");
        }
    }
}

// first column only: every distinct first value once, with the number of pairs behind it
SX_ENTRY h_array_groups() {
    unsigned n = sx_param("n", 4);
    uint64_t hi = (1ULL << 40);
    VP v = sortedPairs("p", n, hi);
    ArrayItr it;
    it.init(std::make_shared<VP>(v), -1, -1);
    it.ignoreSecondColumn();
    unsigned wantCount = sx_concretize(sx_range("cnt", 0, 1)), groups = 0;
    size_t i = 0;
    while (i < v.size()) {
        size_t j = i;
        while (j < v.size() && v[j].first == v[i].first) j++;
        SX_ASSERT(it.hasNext(), "array iterator: every distinct first value is listed");
        if (!it.hasNext()) return;
        it.next();
        SX_ASSERT((uint64_t)it.getValue1() == v[i].first, "array iterator: distinct first values come in order, once each");
        if (wantCount) SX_ASSERT((size_t)it.getCount() == j - i, "array iterator: the count of a first value is the number of its pairs");
        groups++;
        i = j;
    }
    SX_ASSERT(!it.hasNext(), "array iterator: no first value beyond the distinct ones");
    SX_ASSERT(it.getCardinality() == groups, "array iterator: cardinality without second column is the number of distinct first values");
    sx_obs(groups);
    sx_reach("groups");
}

// a sorted source that supports counts in both modes
class SrcItr : public PairItr {
public:
    VP v; size_t pos = 0, mpos = 0; bool nosec = false; int64_t a = -1, b = -1, cnt = 0;
    SrcItr(const VP &x, int64_t k) : v(x) { initializeConstraints(); key = k; }
    int getTypeItr() { return ARRAY_ITR; }
    int64_t getValue1() { return a; }
    int64_t getValue2() { return b; }
    bool hasNext() { return pos < v.size(); }
    void next() {
        a = v[pos].first; b = v[pos].second; cnt = 1; pos++;
        if (nosec) while (pos < v.size() && (int64_t)v[pos].first == a) { pos++; cnt++; }
    }
    void ignoreSecondColumn() { nosec = true; }
    int64_t getCount() { return cnt; }
    uint64_t getCardinality() { if (!nosec) return v.size(); uint64_t c = 0; for (size_t i = 0; i < v.size(); i++) if (!i || v[i].first != v[i - 1].first) c++; return c; }
    uint64_t estCardinality() { return getCardinality(); }
    void clear() {}
    void mark() { mpos = pos; }
    void reset(const char) { pos = mpos; }
    void moveto(const int64_t c1, const int64_t c2) { if (pos) pos--; while (pos < v.size() && ((int64_t)v[pos].first < c1 || ((int64_t)v[pos].first == c1 && (int64_t)v[pos].second < c2))) pos++; }
};
// deleted pairs are a subset of the stored ones (the updater guarantees it)
static VP subset(const VP &v, VP &rest) {
    VP d;
    for (size_t i = 0; i < v.size(); i++) if (sx_concretize(sx_range(("del" + std::to_string(i)).c_str(), 0, 1))) d.push_back(v[i]); else rest.push_back(v[i]);
    return d;
}
SX_ENTRY h_rm_diff() {
    unsigned n = sx_param("n", 4);
    uint64_t hi = (1ULL << 40);
    VP v = sortedPairs("p", n, hi), rest, d = subset(v, rest);
    SrcItr m(v, 7), r(d, 7);
    RmItr it;
    it.init(&m, &r, 0);
    it.setKey(7);
    SX_ASSERT(it.getCardinality() == rest.size(), "removal iterator: cardinality is stored minus removed");
    for (auto &p : rest) {
        SX_ASSERT(it.hasNext(), "removal iterator: every pair that was not removed is listed");
        if (!it.hasNext()) return;
        it.next();
        SX_ASSERT(((uint64_t)it.getValue1() == p.first) & ((uint64_t)it.getValue2() == p.second), "removal iterator: lists exactly the stored pairs that were not removed, in order");
        SX_ASSERT(it.getCount() == 1, "removal iterator: a pair counts once");
    }
    SX_ASSERT(!it.hasNext(), "removal iterator: a removed pair is not listed");
    sx_obs(rest.size());
    sx_reach("difference");
}
SX_ENTRY h_rm_groups() {
    unsigned n = sx_param("n", 4);
    uint64_t hi = (1ULL << 40);
    VP v = sortedPairs("p", n, hi), rest, d = subset(v, rest);
    SrcItr m(v, 7), r(d, 7);
    // first values that disappear altogether
    unsigned gone = 0, groups = 0;
    for (size_t i = 0; i < v.size(); i++) if (!i || v[i].first != v[i - 1].first) { bool any = false; for (auto &p : rest) if (p.first == v[i].first) any = true; if (!any) gone++; else groups++; }
    RmItr it;
    it.init(&m, &r, gone);
    it.setKey(7);
    it.ignoreSecondColumn();
    size_t i = 0;
    while (i < rest.size()) {
        size_t j = i;
        while (j < rest.size() && rest[j].first == rest[i].first) j++;
        SX_ASSERT(it.hasNext(), "removal iterator: a first value with a surviving pair is listed");
        if (!it.hasNext()) return;
        it.next();
        SX_ASSERT((uint64_t)it.getValue1() == rest[i].first, "removal iterator: surviving first values in order, once each");
        SX_ASSERT((size_t)it.getCount() == j - i, "removal iterator: the count of a first value is the number of surviving pairs");
        i = j;
    }
    SX_ASSERT(!it.hasNext(), "removal iterator: a first value without surviving pairs is not listed");
    sx_obs(groups);
    sx_reach("group difference");
}
// seek after some steps
SX_ENTRY h_rm_seek() {
    unsigned n = sx_param("n", 4);
    uint64_t hi = (1ULL << 40);
    VP v = sortedPairs("p", n, hi), rest, d = subset(v, rest);
    if (rest.empty()) return;
    SrcItr m(v, 7), r(d, 7);
    RmItr it;
    it.init(&m, &r, 0);
    it.setKey(7);
    if (!it.hasNext()) return;
    it.next();
    uint64_t t1 = sx_range("t1", 0, hi), t2 = sx_range("t2", 0, hi);
    size_t q = 0;
    while (q < rest.size() && (rest[q].first < t1 || (rest[q].first == t1 && rest[q].second < t2))) q++;
    it.moveto(t1, t2);
    for (; q < rest.size(); q++) {
        SX_ASSERT(it.hasNext(), "removal iterator: after a seek the surviving pairs at or after the target are listed");
        if (!it.hasNext()) return;
        it.next();
        SX_ASSERT(((uint64_t)it.getValue1() == rest[q].first) & ((uint64_t)it.getValue2() == rest[q].second), "removal iterator: a seek moves to the first surviving pair at or after the target");
    }
    SX_ASSERT(!it.hasNext(), "removal iterator: nothing beyond the surviving pairs after a seek");
    sx_reach("seek");
}
