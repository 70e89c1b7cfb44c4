// Binary tables: what is written through the table storage in any layout is what every reader returns.
#include "sx.h"
#include <trident/binarytables/tableshandler.h>
#include <trident/binarytables/storagestrat.h>
#include <trident/binarytables/newtable.h>
#include <kognac/utils.h>
typedef std::vector<std::pair<uint64_t, uint64_t>> VP;

struct Env {
    Factory<NewColumnTable> ncf; FactoryNewRowTable nrf; FactoryNewClusterTable nclf;
    Factory<RowTableInserter> f1; Factory<ClusterTableInserter> f2; Factory<ColumnTableInserter> f3;
    Factory<NewColumnTableInserter> f4; Factory<NewRowTableInserter> f5; Factory<NewClusterTableInserter> f6;
    StorageStrat strat; Stats stats;
    Env() { strat.init(&ncf, &nrf, &nclf, &f1, &f2, &f3, &f4, &f5, &f6); }
};
// layout: 0 column; 1 row; 2 cluster with one-byte groups; 3 cluster with four-byte groups; 4 row with 8-byte second column
static char signature(unsigned layout, unsigned w1, unsigned w2) {
    unsigned s = 0;
    if (layout == 0) return (char)StorageStrat::setStorageType(0, NEWCOLUMN_ITR);
    if (layout == 4) { s = StorageStrat::setBytesField1(StorageStrat::setStorageType(0, NEWROW_ITR), w1); return (char)(s | 1); }
    s = StorageStrat::setStorageType(0, layout == 1 ? NEWROW_ITR : NEWCLUSTER_ITR);
    s = StorageStrat::setBytesField1(s, w1); s = StorageStrat::setBytesField2(s, w2);
    if (layout == 3) s |= 1;
    return (char)s;
}
static const uint64_t WMAX[5] = {0xFF, 0xFFFF, 0xFFFFFFFFull, 0xFFFFFFFFFFull, 0x7FFFFFFFFFFFFFFFull};

// n sorted distinct pairs; which neighbours share their first value is chosen path by path
static VP table(const char *nm, unsigned n, uint64_t hi1, uint64_t hi2, unsigned shape) {
    VP v;
    for (unsigned i = 0; i < n; i++) {
        bool same = i && (shape >> (i - 1) & 1);
        uint64_t a = same ? v[i - 1].first : sx_range((std::string(nm) + "a" + std::to_string(i)).c_str(), 0, hi1);
        uint64_t b = sx_range((std::string(nm) + "b" + std::to_string(i)).c_str(), 0, hi2);
        if (same) SX_ASSUME(v[i - 1].second < b); else if (i) SX_ASSUME(v[i - 1].first < a);
        v.push_back(std::make_pair(a, b));
    }
    return v;
}
struct Coord { short file; int64_t mark; char sig; };
static Coord writeTable(Env &e, TableStorage &ts, int64_t key, char sig, const VP &v) {
    BinaryTableInserter *ins = e.strat.getBinaryTableInserter(sig);
    Coord c; c.sig = sig;
    c.mark = ts.startAppend(key, sig, ins);
    c.file = ts.getLastCreatedFile();
    for (auto &p : v) ts.append(p.first, p.second);
    ts.stopAppend();
    return c;
}
static std::string freshDir(const char *n) { std::string d = std::string(sx_tmp()) + "/" + n; return d; }
struct Opened {
    std::string bytes; AbsNewTable *t; char *exact;
    ~Opened() { free(exact); }
};
// the bytes of a table, alone in a buffer of exactly their size
static void openTable(Env &e, TableStorage &ts, const Coord &c, Opened &o) {
    auto r = ts.getTable(c.file, c.mark);
    size_t n = r.second - r.first;
    o.exact = (char *)malloc(n); memcpy(o.exact, r.first, n); o.bytes.resize(n);
    o.t = (AbsNewTable *)e.strat.getBinaryTable(c.sig);
}
#define B(o) (o).exact
#define E_(o) ((o).exact + (o).bytes.size())

static void readAll(PairItr *it, const VP &ref, const char *w) {
    size_t i = 0;
    while (it->hasNext()) {
        SX_ASSERT(i < ref.size(), "tables: a reader returns no row that was not written");
        if (i >= ref.size()) return;
        it->next();
        SX_ASSERT(((uint64_t)it->getValue1() == ref[i].first) & ((uint64_t)it->getValue2() == ref[i].second), "tables: a reader returns the rows in the order and with the values they were written");
        SX_ASSERT(it->getCount() == 1, "tables: a single row counts once");
        sx_obs(it->getValue1()); sx_obs(it->getValue2());
        i++;
    }
    SX_ASSERT(i == ref.size(), "tables: a reader returns every row that was written");
}
static std::vector<std::pair<uint64_t, uint64_t>> groups(const VP &v) {
    VP g; for (size_t i = 0; i < v.size(); i++) if (i == 0 || v[i].first != v[i - 1].first) g.push_back(std::make_pair(v[i].first, 1)); else g.back().second++;
    return g;
}
static VP groupsShape(const VP &v, unsigned shape) { // the same without comparing symbolic values
    VP g; for (size_t i = 0; i < v.size(); i++) if (i == 0 || !(shape >> (i - 1) & 1)) g.push_back(std::make_pair(v[i].first, 1)); else g.back().second++;
    return g;
}
static void readGroups(PairItr *it, const VP &g) {
    size_t i = 0;
    while (it->hasNext()) {
        SX_ASSERT(i < g.size(), "tables: grouped reading returns each first value once");
        if (i >= g.size()) return;
        it->next();
        SX_ASSERT((uint64_t)it->getValue1() == g[i].first, "tables: grouped reading returns the first values in order");
        SX_ASSERT((uint64_t)it->getCount() == g[i].second, "tables: grouped reading counts the rows of each group");
        i++;
    }
    SX_ASSERT(i == g.size(), "tables: grouped reading returns every first value");
}
static void checkTable(Env &e, TableStorage &ro, const Coord &c, const VP &v, unsigned shape, bool keys) {
    Opened o; openTable(e, ro, c, o);
    o.t->setup(B(o), E_(o));
    SX_ASSERT(o.t->getCardinality() == v.size(), "tables: the cardinality is the number of rows");
    readAll(o.t, v, "");
    VP g = groupsShape(v, shape);
    o.t->setup(B(o), E_(o)); o.t->ignoreSecondColumn();
    readGroups(o.t, g);
    o.t->setup(B(o), E_(o)); o.t->ignoreSecondColumn();
    SX_ASSERT(o.t->getCardinality() == g.size(), "tables: the grouped cardinality is the number of first values");
    if (v.size()) { // grouping asked for in the middle of a group leaves the later ones
        o.t->setup(B(o), E_(o)); o.t->next(); o.t->ignoreSecondColumn();
        readGroups(o.t, VP(g.begin() + 1, g.end()));
    }
    if (!keys) return;
    // restricted to a first value, or to a pair
    uint64_t c1 = sx_range("c1", 0, WMAX[3]), c2 = sx_range("c2", 0, WMAX[3]);
    VP r1, r12;
    for (auto &p : v) if (p.first == c1) { r1.push_back(p); if (p.second == c2) r12.push_back(p); }
    o.t->setup((int64_t)c1, B(o), E_(o));
    SX_ASSERT(!r1.empty() || !o.t->hasNext(), "tables: restricting to a missing first value gives nothing");
    if (!r1.empty()) { SX_ASSERT(o.t->getCardinality() == r1.size(), "tables: the cardinality under a first value counts its rows"); sx_reach("first value present"); }
    readAll(o.t, r1, "c1");
    o.t->setup((int64_t)c1, (int64_t)c2, B(o), E_(o));
    readAll(o.t, r12, "c12");
    if (!r12.empty()) sx_reach("pair present");
}
static unsigned params(unsigned &n, unsigned &layout, unsigned &w1, unsigned &w2, uint64_t &h1, uint64_t &h2) {
    n = sx_param("n", 3); layout = sx_param("layout", 0); w1 = sx_param("w1", 3); w2 = sx_param("w2", 3);
    h1 = WMAX[w1]; h2 = WMAX[layout == 4 ? 4 : w2];
    return sx_concretize(sx_range("shape", 0, (1u << (n - 1)) - 1));
}
// one table of a chosen layout, followed by another one
SX_ENTRY h_table_roundtrip() {
    unsigned n, layout, w1, w2; uint64_t h1, h2; unsigned shape = params(n, layout, w1, w2, h1, h2);
    VP v = table("v", n, h1, h2, shape), z; z.push_back(std::make_pair(7, 9)); z.push_back(std::make_pair(8, 1));
    std::string d = freshDir("p0"); Env e;
    Coord c, cz;
    {
        MemoryManager<FileDescriptor> mm(1ull << 30);
        TableStorage ts(false, d, sx_param("fmax", 8), 8, &mm, e.stats, 0);
        c = writeTable(e, ts, 5, signature(layout, w1, w2), v);
        cz = writeTable(e, ts, 6, signature(1, 0, 0), z);
        SX_ASSERT(ts.getNTriplesInserted() == (int64_t)(v.size() + z.size()), "tables: the storage counts what was appended");
        ts.stopInsert();
    }
    MemoryManager<FileDescriptor> mm(1ull << 30);
    TableStorage ro(true, d, sx_param("fmax", 8), 8, &mm, e.stats, 0);
    checkTable(e, ro, c, v, shape, sx_param("keys", 1));
    checkTable(e, ro, cz, z, 0, false);
    sx_reach("read back");
}
// the layout the system itself picks
SX_ENTRY h_table_strategy() {
    unsigned n = sx_param("n", 2);
    unsigned shape = sx_concretize(sx_range("shape", 0, (1u << (n - 1)) - 1));
    VP v = table("v", n, WMAX[3], WMAX[3], shape);
    std::vector<int64_t> a, b; for (auto &p : v) { a.push_back(p.first); b.push_back(p.second); }
    Statistics st;
    char sig = StorageStrat::determineStrategy(a.data(), b.data(), n, 1000, sx_param("cluster", 2), sx_param("rowlarge", 0), st);
    std::string d = freshDir("p1"); Env e; Coord c;
    {
        MemoryManager<FileDescriptor> mm(1ull << 30);
        TableStorage ts(false, d, 1 << 20, 8, &mm, e.stats, 1);
        c = writeTable(e, ts, 5, sig, v); ts.stopInsert();
    }
    MemoryManager<FileDescriptor> mm(1ull << 30);
    TableStorage ro(true, d, 1 << 20, 8, &mm, e.stats, 1);
    checkTable(e, ro, c, v, shape, false);
    sx_obs((uint8_t)sig); sx_reach("read back");
}
// any sequence of step / seek / mark / reset
static void ops(PairItr *t, const VP &ref, unsigned k, bool grouped, uint64_t hi) {
    size_t pos = 0, mpos = 0; bool cur = false, marked = false;
    for (unsigned i = 0; i < k; i++) {
        unsigned op = i == 0 ? 0 : sx_concretize(sx_range("op", 0, 3));
        if (op == 1) {
            if (!cur) continue;
            uint64_t t1 = sx_range("t1", 0, hi), t2 = grouped ? 0 : sx_range("t2", 0, hi);
            t->moveto((int64_t)t1, (int64_t)t2);
            size_t q = pos - 1;
            while (q < ref.size() && (ref[q].first < t1 || (!grouped && ref[q].first == t1 && ref[q].second < t2))) q++;
            pos = q; cur = false; sx_reach("seek");
        } else if (op == 2) { t->mark(); mpos = pos; marked = true; cur = false; continue; }
        else if (op == 3) { if (!marked) continue; t->reset(0); pos = mpos; cur = false; sx_reach("reset"); }
        bool h = t->hasNext();
        SX_ASSERT(h == (pos < ref.size()), "tables: after any mix of steps, seeks, marks and resets, the reader knows whether a row is left");
        if (!h || pos >= ref.size()) { if (!marked) return; cur = false; continue; }
        t->next();
        SX_ASSERT((uint64_t)t->getValue1() == ref[pos].first, "tables: after any mix of steps, seeks, marks and resets, the next row has the right first value");
        if (!grouped) SX_ASSERT((uint64_t)t->getValue2() == ref[pos].second, "tables: after any mix of steps, seeks, marks and resets, the next row has the right second value");
        else SX_ASSERT((uint64_t)t->getCount() == ref[pos].second, "tables: after any mix of steps, seeks, marks and resets, a group has the right count");
        sx_obs(t->getValue1()); pos++; cur = true;
    }
}
SX_ENTRY h_table_ops() {
    unsigned n, layout, w1, w2; uint64_t h1, h2; unsigned shape = params(n, layout, w1, w2, h1, h2);
    VP v = table("v", n, h1, h2, shape);
    std::string d = freshDir("p2"); Env e; Coord c;
    {
        MemoryManager<FileDescriptor> mm(1ull << 30);
        TableStorage ts(false, d, 1 << 20, 8, &mm, e.stats, 2);
        c = writeTable(e, ts, 5, signature(layout, w1, w2), v); ts.stopInsert();
    }
    MemoryManager<FileDescriptor> mm(1ull << 30);
    TableStorage ro(true, d, 1 << 20, 8, &mm, e.stats, 2);
    Opened o; openTable(e, ro, c, o);
    unsigned mode = sx_param("mode", 0); uint64_t hi = WMAX[3];
    if (mode == 0) { o.t->setup(B(o), E_(o)); ops(o.t, v, sx_param("k", 4), false, hi); }
    else if (mode == 1) { o.t->setup(B(o), E_(o)); o.t->ignoreSecondColumn(); ops(o.t, groupsShape(v, shape), sx_param("k", 4), true, hi); }
    else { // restricted to the first value of some row
        unsigned at = sx_concretize(sx_range("at", 0, n - 1)); VP r;
        unsigned gi = 0, ga = 0; std::vector<unsigned> gid; for (unsigned i = 0; i < n; i++) { if (i && !(shape >> (i - 1) & 1)) gi++; gid.push_back(gi); } ga = gid[at];
        for (unsigned i = 0; i < n; i++) if (gid[i] == ga) r.push_back(v[i]);
        o.t->setup((int64_t)v[at].first, B(o), E_(o));
        size_t pos = 0; bool cur = false;
        for (unsigned i = 0; i < sx_param("k", 4); i++) {
            if (cur && sx_concretize(sx_range("op", 0, 1))) {
                uint64_t t2 = sx_range("t2", 0, hi);
                o.t->moveto((int64_t)v[at].first, (int64_t)t2);
                size_t q = pos - 1; while (q < r.size() && r[q].second < t2) q++;
                pos = q; cur = false; sx_reach("seek");
            }
            bool h = o.t->hasNext();
            SX_ASSERT(h == (pos < r.size()), "tables: a seek below a fixed first value stays inside its rows");
            if (!h || pos >= r.size()) return;
            o.t->next();
            SX_ASSERT(((uint64_t)o.t->getValue1() == r[pos].first) & ((uint64_t)o.t->getValue2() == r[pos].second), "tables: a seek below a fixed first value finds the first row at or after the target");
            pos++; cur = true;
        }
    }
}
// larger tables: fixed rows, any search key
SX_ENTRY h_table_big() {
    unsigned n = sx_param("n", 150), per = sx_param("per", 3), layout = sx_param("layout", 0), w1 = sx_param("w1", 1), w2 = sx_param("w2", 1);
    VP v; for (unsigned i = 0; i < n; i++) v.push_back(std::make_pair((uint64_t)(10 + 3 * (i / per)), (uint64_t)(5 + 2 * (i % per) + (i / per) % 2)));
    std::string d = freshDir("p3"); Env e; Coord c;
    {
        MemoryManager<FileDescriptor> mm(1ull << 30);
        TableStorage ts(false, d, 1 << 20, 8, &mm, e.stats, 3);
        c = writeTable(e, ts, 5, signature(layout, w1, w2), v); ts.stopInsert();
    }
    MemoryManager<FileDescriptor> mm(1ull << 30);
    TableStorage ro(true, d, 1 << 20, 8, &mm, e.stats, 3);
    Opened o; openTable(e, ro, c, o);
    uint64_t hi = v.back().first + 3, hi2 = 5 + 2 * per + 2;
    uint64_t c1 = sx_range("c1", 0, hi), c2 = sx_range("c2", 0, hi2);
    // what the table holds for the keys, computed once the reader has settled on a path
    unsigned what = sx_concretize(sx_range("what", 0, 3));
    if (what == 0) {
        o.t->setup((int64_t)c1, B(o), E_(o));
        VP got; while (o.t->hasNext() && got.size() <= n) { o.t->next(); got.push_back(std::make_pair((uint64_t)o.t->getValue1(), (uint64_t)o.t->getValue2())); }
        uint64_t cnt = 0; for (auto &p : v) cnt += (uint64_t)(p.first == c1);
        SX_ASSERT(got.size() == cnt, "large tables: a first value selects all of its rows");
        for (auto &p : got) { uint64_t in = 0; for (auto &q : v) in |= (uint64_t)(q.first == c1) & (uint64_t)(q.first == p.first) & (uint64_t)(q.second == p.second); SX_ASSERT(in, "large tables: a first value selects only its rows"); }
        if (got.size()) sx_reach("first value present");
    } else if (what == 1) {
        o.t->setup((int64_t)c1, (int64_t)c2, B(o), E_(o));
        uint64_t in = 0; for (auto &q : v) in |= (uint64_t)(q.first == c1) & (uint64_t)(q.second == c2);
        bool h = o.t->hasNext();
        SX_ASSERT((uint64_t)h == in, "large tables: a pair is found exactly when it was written");
        if (h) { o.t->next(); SX_ASSERT(((uint64_t)o.t->getValue1() == c1) & ((uint64_t)o.t->getValue2() == c2), "large tables: the pair found is the one asked for"); SX_ASSERT(!o.t->hasNext(), "large tables: a pair is found once"); sx_reach("pair present"); }
    } else {
        bool g = what == 3;
        o.t->setup(B(o), E_(o)); if (g) o.t->ignoreSecondColumn();
        o.t->next(); o.t->moveto((int64_t)c1, g ? 0 : (int64_t)c2);
        bool h = o.t->hasNext();
        uint64_t any = 0; for (auto &q : v) any |= g ? (uint64_t)(q.first >= c1) : (uint64_t)(q.first > c1) | ((uint64_t)(q.first == c1) & (uint64_t)(q.second >= c2));
        SX_ASSERT((uint64_t)h == any, "large tables: a seek ends exactly when nothing is left");
        if (h) {
            o.t->next(); uint64_t a = o.t->getValue1(), b = g ? 0 : o.t->getValue2();
            uint64_t in = 0, before = 0;
            for (auto &q : v) { uint64_t ge = g ? (uint64_t)(q.first >= c1) : (uint64_t)(q.first > c1) | ((uint64_t)(q.first == c1) & (uint64_t)(q.second >= c2));
                uint64_t eq = (uint64_t)(q.first == a) & (g ? 1 : (uint64_t)(q.second == b)), lt = (uint64_t)(q.first < a) | (g ? 0 : (uint64_t)(q.first == a) & (uint64_t)(q.second < b));
                in |= eq & ge; before |= lt & ge; }
            SX_ASSERT(in, "large tables: a seek moves to a row at or after the target");
            SX_ASSERT(!before, "large tables: a seek steps over no row at or after the target");
            sx_reach("seek found");
        }
    }
}
// difference of two columns
struct Out : public SequenceWriter { std::vector<uint64_t> v; void add(const uint64_t x) { v.push_back(x); } };
SX_ENTRY h_column_difference() {
    unsigned n = sx_param("n", 3), m = sx_param("m", 2), colA = sx_param("a", 1), colB = sx_param("b", 1), stop = sx_param("stop", 0);
    uint64_t hi = 0xFFFF;
    std::string d = freshDir("p4"); Env e; Coord ca, cb;
    std::vector<uint64_t> A, C;
    VP va, vb;
    for (unsigned i = 0; i < n; i++) { uint64_t x = sx_range((std::string("x") + std::to_string(i)).c_str(), 0, hi); if (i) SX_ASSUME(A.back() < x); A.push_back(x); va.push_back(colA == 1 ? std::make_pair(x, (uint64_t)1) : std::make_pair((uint64_t)3, x)); }
    for (unsigned i = 0; i < m; i++) { uint64_t x = sx_range((std::string("y") + std::to_string(i)).c_str(), 0, hi); if (i) SX_ASSUME(C.back() < x); C.push_back(x); vb.push_back(colB == 1 ? std::make_pair(x, (uint64_t)1) : std::make_pair((uint64_t)3, x)); }
    {
        MemoryManager<FileDescriptor> mm(1ull << 30);
        TableStorage ts(false, d, 1 << 20, 8, &mm, e.stats, 4);
        ca = writeTable(e, ts, 1, signature(0, 0, 0), va); cb = writeTable(e, ts, 2, signature(0, 0, 0), vb); ts.stopInsert();
    }
    MemoryManager<FileDescriptor> mm(1ull << 30);
    TableStorage ro(true, d, 1 << 20, 8, &mm, e.stats, 4);
    Opened oa, ob; openTable(e, ro, ca, oa); openTable(e, ro, cb, ob);
    NewColumnTable *ta = (NewColumnTable *)oa.t, *tb = (NewColumnTable *)ob.t;
    if (colA == 1) ta->setup(B(oa), E_(oa)); else { ta->setup(3, B(oa), E_(oa)); ta->next(); }
    if (colB == 1) tb->setup(B(ob), E_(ob)); else { tb->setup(3, B(ob), E_(ob)); tb->next(); }
    Out o; ta->columnNotIn(colA, tb, colB, &o, stop);
    std::vector<uint64_t> ref; for (auto x : A) { bool in = false; for (auto y : C) if (x == y) in = true; if (!in) ref.push_back(x); }
    if (stop) { SX_ASSERT(o.v.size() == (ref.empty() ? 0u : 1u), "column difference: asked for one value, it returns one exactly when there is one"); if (!ref.empty() && !o.v.empty()) SX_ASSERT(o.v[0] == ref[0], "column difference: the one value returned is the first"); }
    else { SX_ASSERT(o.v.size() == ref.size(), "column difference: returns exactly the values the other column lacks"); for (size_t i = 0; i < ref.size() && i < o.v.size(); i++) SX_ASSERT(o.v[i] == ref[i], "column difference: returns the values in order"); }
    sx_obs(o.v.size()); if (ref.size()) sx_reach("difference");
}
