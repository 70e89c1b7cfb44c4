// The disk-backed index map (Root): what was put under a key is what is found, before and after it is reopened.
#include "sx.h"
#include <trident/tree/root.h>
#include <trident/tree/coordinates.h>
#include <trident/tree/treeitr.h>
#include <trident/utils/propertymap.h>
#include <kognac/utils.h>
#include <map>

static PropertyMap conf(unsigned cache, bool textValues, unsigned fileMax, unsigned minBytes) {
    PropertyMap m;
    m.setBool(TEXT_KEYS, false); m.setBool(TEXT_VALUES, textValues); m.setBool(COMPRESSED_NODES, false);
    m.setInt(MAX_EL_PER_NODE, 4); m.setInt(MAX_NODES_IN_CACHE, cache);
    m.setInt(LEAF_SIZE_PREALL_FACTORY, 2); m.setInt(LEAF_SIZE_FACTORY, 2);
    m.setInt(NODE_MIN_BYTES, minBytes); m.setLong(CACHE_MAX_SIZE, 1 << 20); m.setInt(FILE_MAX_SIZE, fileMax); m.setInt(MAX_N_OPENED_FILES, 3);
    m.setInt(LEAF_MAX_INTERNAL_LINES, 4); m.setInt(LEAF_MAX_PREALL_INTERNAL_LINES, 4);
    m.setInt(LEAF_ARRAYS_FACTORY_SIZE, 2); m.setInt(LEAF_ARRAYS_PREALL_FACTORY_SIZE, 2);
    m.setInt(NODE_KEYS_FACTORY_SIZE, 2); m.setInt(NODE_KEYS_PREALL_FACTORY_SIZE, 2);
    return m;
}
static int64_t number(uint64_t key, unsigned ver) { return (int64_t)(key * 3 + ver * 1000 + 1); }
static void fill(TermCoordinates &t, uint64_t key, unsigned ver) {
    t.clear();
    for (int p = 0; p < N_PARTITIONS; p++) if (p == (int)(key % 6) || (ver + key + p) % 3 == 0) t.set(p, (short)(key % 5 + p), (int64_t)(key * 700 + p), (int64_t)(key + 1 + ver), (char)(17 * p + key));
}
static void same(const TermCoordinates &a, const TermCoordinates &b, const char *w) {
    for (int p = 0; p < N_PARTITIONS; p++) {
        SX_ASSERT(a.exists(p) == b.exists(p), w);
        if (b.exists(p)) SX_ASSERT((a.getFileIdx(p) == b.getFileIdx(p)) & (a.getMark(p) == b.getMark(p)) & (a.getStrategy(p) == b.getStrategy(p)) & (a.getNElements(p) == b.getNElements(p)), w);
    }
}
typedef std::map<uint64_t, unsigned> Ref; // key -> version of its value
static void putKey(Root &r, bool num, bool app, uint64_t k, unsigned ver) {
    if (num) { if (app) r.append((nTerm)k, number(k, ver)); else r.put((nTerm)k, number(k, ver)); }
    else { TermCoordinates t; fill(t, k, ver); if (app) r.append((nTerm)k, &t); else r.put((nTerm)k, &t); }
}
static void lookup(Root &r, bool num, const Ref &ref, const char *nm, uint64_t lo, uint64_t hi) {
    uint64_t q = sx_range(nm, lo, hi); if (hi - lo < 64) q = sx_concretize(q);
    int64_t n = -1; TermCoordinates t; t.clear();
    bool found = num ? r.get((nTerm)q, n) : r.get((nTerm)q, &t);
    bool in = false; for (auto &x : ref) in = in | (x.first == q);
    SX_ASSERT(found == in, "index map: a key is found exactly if something was stored under it");
    if (!found) return;
    q = sx_concretize(q); auto it = ref.find(q); if (it == ref.end()) return;
    sx_reach("found");
    if (num) SX_ASSERT(n == number(q, it->second), "index map: a lookup returns the number stored last under the key");
    else { TermCoordinates e; fill(e, q, it->second); same(t, e, "index map: a lookup returns the coordinates stored under the key"); }
}
static void lookupAll(Root &r, bool num, const Ref &ref, uint64_t lo, uint64_t hi) {
    for (uint64_t q = lo; q <= hi; q++) {
        int64_t n = -1; TermCoordinates t, e; t.clear(); bool in = ref.count(q);
        bool found = num ? r.get((nTerm)q, n) : r.get((nTerm)q, &t);
        SX_ASSERT(found == in, "index map: a key is found exactly if something was stored under it");
        if (!in || !found) continue;
        sx_reach("found");
        if (num) SX_ASSERT(n == number(q, ref.at(q)), "index map: a lookup returns the number stored last under the key");
        else { fill(e, q, ref.at(q)); same(t, e, "index map: a lookup returns the coordinates stored under the key"); }
    }
}
static void iterate(Root &r, bool num, const Ref &ref) {
    TreeItr *it = r.itr(); auto e = ref.begin();
    while (it->hasNext()) {
        SX_ASSERT(e != ref.end(), "index map: iterating returns no key that was not stored");
        if (e == ref.end()) { delete it; return; }
        if (num) { int64_t v; int64_t k = it->next(v); SX_ASSERT((k == (int64_t)e->first) & (v == number(e->first, e->second)), "index map: iterating returns the entries in key order"); }
        else { TermCoordinates t, x; int64_t k = it->next(&t); fill(x, e->first, e->second); SX_ASSERT(k == (int64_t)e->first, "index map: iterating returns the entries in key order"); same(t, x, "index map: iterating returns the coordinates stored under each key"); }
        ++e;
    }
    SX_ASSERT(e == ref.end(), "index map: iterating returns every key");
    delete it;
}
static const uint64_t GAPS[8][4] = {{1, 1, 1, 1}, {2, 2, 2, 2}, {200, 200, 200, 200}, {300, 300, 300, 300}, {1, 2, 1, 1}, {1, 1, 1, 200}, {3, 3, 3, 1}, {128, 1, 70000, 5}};

// keys in ascending order, as the loader writes them
SX_ENTRY h_tree_ascending() {
    unsigned n = sx_param("n", 11), g = sx_param("gaps", 0), cache = sx_param("cache", 2), app = sx_param("append", 0), num = sx_param("num", 0), fmax = sx_param("fmax", 1 << 20);
    std::string d = std::string(sx_tmp()) + "/t";
    Ref ref; uint64_t k = sx_param("first", 0), lo = k;
    {
        PropertyMap m = conf(cache, num, fmax, 1); Root r(d, NULL, false, m);
        for (unsigned i = 0; i < n; i++) { putKey(r, num, app, k, 0); ref[k] = 0; k += GAPS[g][i % 4]; }
        lookup(r, num, ref, "q1", 0, k + 3);
        if (sx_param("iter", 1)) iterate(r, num, ref);
    }
    PropertyMap m = conf(sx_param("rcache", 2), num, fmax, 1); Root r(d, NULL, true, m);
    if (sx_range("order", 0, 1)) { lookup(r, num, ref, "q2", 0, k + 3); iterate(r, num, ref); sx_reach("reopened"); }
    else { iterate(r, num, ref); lookup(r, num, ref, "q2", 0, k + 3); }
    (void)lo;
}
// keys in any order, some of them repeated
SX_ENTRY h_tree_order() {
    unsigned n = sx_param("n", 5), cache = sx_param("cache", 1), num = sx_param("num", 0), g = sx_param("gaps", 0), nk = sx_param("keys", 5), first = sx_param("k0", 99), fmax = sx_param("fmax", 1 << 20);
    std::string d = std::string(sx_tmp()) + "/t";
    std::vector<uint64_t> keys; uint64_t k = 7; for (unsigned i = 0; i < nk; i++) { keys.push_back(k); k += GAPS[g][i % 4]; }
    Ref ref; bool perm = sx_param("perm", 1);
    {
        PropertyMap m = conf(cache, num, fmax, 1); Root r(d, NULL, false, m);
        for (unsigned i = 0; i < n; i++) {
            uint64_t c = i == 0 && first != 99 ? first : sx_concretize(sx_range(("k" + std::to_string(i)).c_str(), 0, nk - 1));
            uint64_t key = keys[c];
            if (ref.count(key)) { if (perm) { sx_assume(0); } if (num) { putKey(r, num, 0, key, i); ref[key] = i; sx_reach("overwritten"); } continue; }
            putKey(r, num, 0, key, num ? i : 0); ref[key] = num ? i : 0;
        }
        lookupAll(r, num, ref, 6, k + 3);
        iterate(r, num, ref);
    }
    PropertyMap m = conf(2, num, fmax, 1); Root r(d, NULL, true, m);
    iterate(r, num, ref); lookupAll(r, num, ref, 6, k + 3);
    sx_reach("reopened");
}
// one entry with arbitrary fields
SX_ENTRY h_tree_values() {
    std::string d = std::string(sx_tmp()) + "/t"; unsigned field = sx_param("field", 0);
    unsigned mask = field == 4 ? (unsigned)sx_concretize(sx_range("perms", 1, 63)) : 1u << sx_param("perm", 2);
    TermCoordinates t; t.clear();
    uint64_t nel = field == 0 ? sx_range("nelements", 1, 0xFFFFFFFFFFull) : 5, mark = field == 1 ? sx_range("mark", 0, 0xFFFFFFFFFFull) : 6;
    uint64_t file = field == 2 ? sx_range("file", 0, 0x7FFF) : 3, st = field == 3 ? sx_range("strategy", 0, 255) : 200;
    for (int p = 0; p < N_PARTITIONS; p++) if (mask >> p & 1) t.set(p, (short)file, (int64_t)mark + p * (field == 4), (int64_t)nel, (char)st);
    {
        PropertyMap m = conf(2, false, 1 << 20, 1); Root r(d, NULL, false, m);
        TermCoordinates o; fill(o, 3, 0); r.put((nTerm)3, &o); r.put((nTerm)9, &t); fill(o, 12, 0); r.put((nTerm)12, &o);
        TermCoordinates g; SX_ASSERT(r.get((nTerm)9, &g), "index map: a key is found exactly if something was stored under it"); same(g, t, "index map: a lookup returns the coordinates stored under the key");
    }
    PropertyMap m = conf(2, false, 1 << 20, 1); Root r(d, NULL, true, m);
    TermCoordinates g, o; SX_ASSERT(r.get((nTerm)9, &g), "index map: a key is found exactly if something was stored under it"); same(g, t, "index map: coordinates survive being written to disk");
    fill(o, 12, 0); SX_ASSERT(r.get((nTerm)12, &g), "index map: a key is found exactly if something was stored under it"); same(g, o, "index map: coordinates survive being written to disk");
    sx_reach("values");
}
SX_ENTRY h_tree_number() {
    std::string d = std::string(sx_tmp()) + "/t";
    uint64_t v = sx_range("value", 0, 0x7FFFFFFFFFFFFFFFull);
    { PropertyMap m = conf(2, true, 1 << 20, 1); Root r(d, NULL, false, m); r.put((nTerm)3, (int64_t)1); r.put((nTerm)9, (int64_t)v); r.put((nTerm)12, (int64_t)77); }
    PropertyMap m = conf(2, true, 1 << 20, 1); Root r(d, NULL, true, m);
    int64_t g; SX_ASSERT(r.get((nTerm)9, g) && (uint64_t)g == v, "index map: numbers survive being written to disk");
    SX_ASSERT(r.get((nTerm)12, g) && g == 77, "index map: numbers survive being written to disk");
    sx_reach("values");
}
// every small distance between keys, equal or not
SX_ENTRY h_tree_gaps() {
    std::string d = std::string(sx_tmp()) + "/t";
    uint64_t g = sx_concretize(sx_range("gap", sx_param("lo", 1), sx_param("hi", 300))), how = sx_concretize(sx_range("then", 0, 3)); unsigned n = how == 3 ? 2 : 3;
    uint64_t keys[4] = {5, 5 + g, how == 1 ? 5 + 2 * g + 1 : how == 2 ? 5 + 3 * g : 5 + 2 * g, 0};
    {
        PropertyMap m = conf(2, true, 1 << 20, 1); Root r(d, NULL, false, m);
        for (unsigned i = 0; i < n; i++) r.put((nTerm)keys[i], (int64_t)(100 + i));
    }
    PropertyMap m = conf(2, true, 1 << 20, 1); Root r(d, NULL, true, m);
    int64_t v;
    for (unsigned i = 0; i < n; i++) {
        SX_ASSERT(r.get((nTerm)keys[i], v) && v == 100 + (int64_t)i, "index map: every key is found again whatever the distance to its neighbours");
        for (int64_t o = -1; o <= 1; o += 2) { uint64_t q = keys[i] + o; bool in = q == keys[0] || q == keys[1] || (n == 3 && q == keys[2]); if (!in) SX_ASSERT(!r.get((nTerm)q, v), "index map: a key is found exactly if something was stored under it"); }
    }
    sx_reach("gaps");
}
