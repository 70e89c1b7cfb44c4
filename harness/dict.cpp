// Terms and their numbers: the store of strings with its compression thread, the dictionary trees above it, and the terms added by updates.
#include "coop_sched.h"
#include <trident/tree/stringbuffer.h>
#include <trident/kb/statistics.h>
static std::string bytes(const char *nm, unsigned len) { std::string s(len, 'x'); for (unsigned j = 0; j < len; j++) s[j] = (char)sx_u8(nm); return s; }
static std::string filler(unsigned i, unsigned len) { std::string s(len, 'x'); for (unsigned j = 0; j < len; j++) s[j] = (char)('A' + (i * 7 + j * (i + 1)) % 26); return s; }
// i-th long term: groups of them share their first letters
static std::string term(unsigned i, unsigned len) { std::string s = filler(i / 3 + 1, len); if (len) s[len - 1] = (char)('a' + i); return s; }
static void check(StringBuffer &b, int64_t pos, const std::string &t) {
    char out[160]; int n = -1; b.get(pos, out, n);
    SX_ASSERT(n == (int)t.size(), "string store: a term is read back with the length it had");
    if (n != (int)t.size()) return;
    uint64_t ok = 1; for (int j = 0; j < n; j++) ok = ok & (uint64_t)(out[j] == t[j]);
    SX_ASSERT(ok, "string store: a term is read back as it was stored");
    char *q = b.get(pos, n); SX_ASSERT((n == (int)t.size()) && q[n] == 0, "string store: a term is read back with the length it had");
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }
static int order(const std::string &a, const std::string &b) { // byte order, the shorter first
    for (size_t j = 0; j < a.size() && j < b.size(); j++) if (a[j] != b[j]) return ((int)a[j] & 255) - ((int)b[j] & 255);
    return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
static void compare(StringBuffer &b, int64_t pos, const std::string &t, std::string q) {
    int e = order(t, q); q += "~"; // the probe is not terminated
    int r = b.cmp(pos, &q[0], (int)q.size() - 1);
    SX_ASSERT(sgn(r) == sgn(e), "string store: comparing a stored term with a string gives their order");
}
typedef std::vector<std::pair<int64_t, std::string>> Stored;
static void put(StringBuffer &b, Stored &s, std::string t) { s.push_back({b.getSize(), t}); std::string c = t; c += '#'; b.append(&c[0], (int)t.size()); }

SX_ENTRY h_sb_roundtrip() {
    sxt::init(0, 0);
    std::string dir = std::string(sx_tmp()) + "/sb"; Stats st;
    unsigned f = (unsigned)sx_concretize(sx_range("filler", sx_param("f0", 0), sx_param("f1", 33)));
    unsigned n = (unsigned)sx_param("n", 2), lo = (unsigned)sx_param("l0", 5), hi = (unsigned)sx_param("l1", 7), after = (unsigned)sx_param("after", 0);
    Stored s;
    StringBuffer *b = new StringBuffer(dir, false, 4, 0, &st);
    put(*b, s, filler(0, f));
    if (sx_param("deep", 0)) put(*b, s, filler(3, 27));
    for (unsigned i = 0; i < n; i++) { unsigned l = (unsigned)sx_concretize(sx_range("length", lo, hi)); put(*b, s, bytes("byte", l)); }
    for (unsigned i = 0; i < after; i++) put(*b, s, filler(i + 5, 9));
    SX_ASSERT(b->getSize() > s.back().first, "string store: the size grows with every term");
    unsigned pick = (unsigned)sx_param("pick", 0);
    if (pick != 1) for (auto &x : s) check(*b, x.first, x.second);
    std::string probe = pick == 0 ? "" : bytes("probe", (unsigned)sx_concretize(sx_range("plen", lo - 1, hi)));
    if (pick) for (auto &x : s) compare(*b, x.first, x.second, probe);
    if (b->getSize() > 2 * SB_BLOCK_SIZE) sx_reach("three blocks");
    if (b->getSize() % SB_BLOCK_SIZE == 0) sx_reach("last block full");
    delete b; sxt::drain();
    StringBuffer c(dir, true, 4, 0, &st);
    SX_ASSERT(c.getSize() >= s.back().first, "string store: the size is kept");
    for (auto &x : s) { if (pick != 1) check(c, x.first, x.second); else compare(c, x.first, x.second, probe); }
    sx_reach("reopened"); sx_stop();
}
// appending and reading while blocks are compressed in the background
SX_ENTRY h_sb_threads() {
    sxt::init((int)sx_param("preempt", 1), sx_param("points", 120));
    std::string dir = std::string(sx_tmp()) + "/sb"; Stats st;
    unsigned n = (unsigned)sx_param("n", 8), len = (unsigned)sx_param("len", 28), reads = (unsigned)sx_param("reads", 1), at = (unsigned)sx_param("at", 6), tail = (unsigned)sx_param("tail", 0), scan = (unsigned)sx_param("scan", 0);
    Stored s;
    StringBuffer *b = new StringBuffer(dir, false, 4, 0, &st);
    for (unsigned i = 0; i < n; i++) {
        put(*b, s, term(i, len + (i % 3 == 2)));
        if (scan && i + 1 >= at) for (unsigned q = 0; q < scan; q++) check(*b, s[q].first, s[q].second);
        if (i + 1 == at || i + 1 == n) for (unsigned k = 0; k < reads; k++) { unsigned q = (unsigned)sx_concretize(sx_range("read", 0, i)); check(*b, s[q].first, s[q].second); if (q + 5 < i) sx_reach("read an old term"); }
    }
    if (tail) { unsigned r = (unsigned)(SB_BLOCK_SIZE - b->getSize() % SB_BLOCK_SIZE); if (r > 2) put(*b, s, filler(9, r - 2)); sx_reach(b->getSize() % SB_BLOCK_SIZE ? "last block part" : "last block full"); }
    delete b; sx_reach("closed"); sxt::drain();
    StringBuffer c(dir, true, 4, 0, &st);
    for (auto &x : s) check(c, x.first, x.second);
    for (unsigned k = 0; k < 1; k++) { unsigned q = (unsigned)sx_concretize(sx_range("again", 0, s.size() - 1)); check(c, s[q].first, s[q].second); std::string p = s[q].second; compare(c, s[q].first, s[q].second, p); p[p.size() - 1]++; compare(c, s[q].first, s[q].second, p); }
    sx_reach("reopened"); sx_stop();
}
#ifdef WITH_DICT
#include <trident/kb/dictmgmt.h>
#include <trident/tree/root.h>
#include <trident/tree/treeitr.h>
#include <trident/utils/propertymap.h>
#include <kognac/utils.h>
static PropertyMap conf(bool text, unsigned cache) {
    PropertyMap m;
    m.setBool(TEXT_KEYS, text); m.setBool(TEXT_VALUES, !text); m.setBool(COMPRESSED_NODES, false);
    m.setInt(MAX_EL_PER_NODE, 4); m.setInt(MAX_NODES_IN_CACHE, cache);
    m.setInt(LEAF_SIZE_PREALL_FACTORY, 2); m.setInt(LEAF_SIZE_FACTORY, 2);
    m.setInt(NODE_MIN_BYTES, 0); m.setLong(CACHE_MAX_SIZE, 1 << 20); m.setInt(FILE_MAX_SIZE, 4096); m.setInt(MAX_N_OPENED_FILES, 3);
    m.setInt(LEAF_MAX_INTERNAL_LINES, 4); m.setInt(LEAF_MAX_PREALL_INTERNAL_LINES, 4);
    m.setInt(LEAF_ARRAYS_FACTORY_SIZE, 2); m.setInt(LEAF_ARRAYS_PREALL_FACTORY_SIZE, 2);
    m.setInt(NODE_KEYS_FACTORY_SIZE, 2); m.setInt(NODE_KEYS_PREALL_FACTORY_SIZE, 2);
    return m;
}
static DictMgmt::Dict openDict(std::string dir, bool ro, unsigned cache) { // as KB::loadDict
    DictMgmt::Dict d; std::string a = dir + "/dict/0", b = dir + "/invdict/0";
    PropertyMap m = conf(true, cache);
    d.sb = std::shared_ptr<StringBuffer>(new StringBuffer(a, ro, 4, 0, d.stats.get()));
    d.dict = std::shared_ptr<Root>(new Root(a, d.sb.get(), ro, m));
    PropertyMap v = conf(false, cache);
    d.invdict = std::shared_ptr<Root>(new Root(b, NULL, ro, v));
    return d;
}
// in byte order; neighbours share letters, one is the beginning of another
static const char *POOL[] = {"", "a", "ab", "http://x.org/", "http://x.org/a", "http://x.org/a b", "http://x.org/aa", "http://x.org/b", "http://x.org/ba", "http://y", "\"5\"^^<int>", "\"a\tb\"@en", "z\xc3\xa9", "z\xff"};
static std::vector<std::string> pool() { std::vector<std::string> p; for (const char *c : POOL) p.push_back(c); std::sort(p.begin(), p.end(), [](const std::string &a, const std::string &b) { return order(a, b) < 0; }); return p; }
typedef std::vector<std::pair<std::string, uint64_t>> Map;
static void lookupTerm(DictMgmt &d, const Map &m, const std::string &t) {
    std::string q = t + "?"; nTerm v = -77; bool f = d.getNumber(q.c_str(), (int)t.size(), &v);
    uint64_t in = 0, val = 0; for (auto &x : m) { uint64_t e = x.first.size() == t.size(); if (e) for (size_t j = 0; j < t.size(); j++) e = e & (uint64_t)(x.first[j] == t[j]); in = in | e; val = e ? x.second : val; }
    SX_ASSERT((uint64_t)f == in, "dictionary: a term has a number exactly if it was added");
    if (f) { sx_reach("term found"); SX_ASSERT((uint64_t)v == val, "dictionary: a term is found under the number it was given"); } else sx_reach("term absent");
}
static void lookupId(DictMgmt &d, const Map &m, uint64_t id) {
    int k = -1; for (unsigned i = 0; i < m.size(); i++) if (m[i].second == id) k = (int)i;
    char out[160]; int n = -1; memset(out, 1, sizeof out);
    bool f = d.getText((nTerm)id, out, n);
    SX_ASSERT(f == (k >= 0), "dictionary: a number has a term exactly if it was given out");
    if (f && k >= 0) SX_ASSERT(std::string(out, n) == m[k].first, "dictionary: a number is turned back into its term");
    bool g = d.getText((nTerm)id, out); SX_ASSERT(g == f, "dictionary: a number has a term exactly if it was given out");
    if (g && k >= 0) SX_ASSERT(std::string(out) == m[k].first, "dictionary: a number is turned back into its term");
    std::string s; bool h = d.getText((nTerm)id, s); SX_ASSERT(h == f, "dictionary: a number has a term exactly if it was given out");
    if (h && k >= 0) SX_ASSERT(s == m[k].first, "dictionary: a number is turned back into its term");
}
static void probe(DictMgmt &d, const Map &m, const std::vector<std::string> &p, const char *a, const char *b) {
    unsigned how = (unsigned)sx_param("probe", 0);
    if (how == 0) { for (auto &t : p) lookupTerm(d, m, t); for (uint64_t i = 0; i < 2 * p.size() + 3; i++) lookupId(d, m, i); }
    else if (how == 1) { std::string t = p[sx_concretize(sx_range(a, 0, p.size() - 1))]; if (t.size()) t[t.size() - 1] = (char)sx_u8(b); lookupTerm(d, m, t); }
    else { std::string t = p[sx_concretize(sx_range(a, 0, p.size() - 1))]; t += (char)sx_u8(b); lookupTerm(d, m, t); }
}
// mode 0: in order; 1: in any order, repeated ones refused; 2: numbers first, texts of the numbers later; 3: the first ones in order, then the others
SX_ENTRY h_dict() {
    sxt::init((int)sx_param("preempt", 0), 300);
    std::string dir = std::string(sx_tmp()) + "/kb"; std::vector<std::string> p = pool();
    unsigned mode = (unsigned)sx_param("mode", 0), n = (unsigned)sx_param("n", 8), cache = (unsigned)sx_param("cache", 1), skip = (unsigned)sx_param("skip", 0);
    Map m; std::vector<std::pair<uint64_t, int64_t>> coord; std::vector<bool> used(p.size(), false);
    {
        DictMgmt d(openDict(dir, false, cache), dir, false, "", "");
        for (unsigned i = 0; i < n; i++) {
            unsigned k;
            if (mode == 0 || (mode == 3 && i < n / 2)) { k = (unsigned)((mode == 3 ? 2 : 1) * i + skip); if (k >= p.size()) break; }
            else if (i + (unsigned)sx_param("free", 3) >= n) k = (unsigned)sx_concretize(sx_range("term", 0, p.size() - 1));
            else k = (unsigned)((i * sx_param("step", 5) + skip) % p.size()); // most in a fixed mixed order
            std::string t = p[k]; nTerm id = (nTerm)(sx_param("rev", 0) ? 2 * (n - i) : 2 * i + 1); uint64_t given = (uint64_t)id;
            std::string c = t + "!";
            if (mode == 0 || (mode == 3 && i < n / 2)) { d.appendPair(c.c_str(), (int)t.size(), id); used[k] = true; m.push_back({t, given}); continue; }
            int64_t co = -1; bool r;
            if (mode == 2) r = d.putDict(c.c_str(), (int)t.size(), id, co); else r = d.putPair(c.c_str(), (int)t.size(), id);
            SX_ASSERT(r == !used[k], "dictionary: adding a term tells whether it is new");
            if (used[k]) { sx_reach("added twice"); uint64_t old = 0; for (auto &x : m) if (x.first == t) old = x.second; SX_ASSERT((uint64_t)id == old, "dictionary: adding a known term gives the number it has"); continue; }
            SX_ASSERT((uint64_t)id == given, "dictionary: a new term keeps the number it is given");
            used[k] = true; m.push_back({t, given}); if (mode == 2) coord.push_back({given, co});
        }
        std::sort(coord.begin(), coord.end());
        for (auto &x : coord) d.putInvDict((nTerm)x.first, x.second);
        if (sx_param("now", 0)) probe(d, m, p, "termnow", "bytenow");
        sx_reach("filled");
    }
    sxt::drain();
    DictMgmt d(openDict(dir, true, cache), dir, false, "", "");
    probe(d, m, p, "termlater", "bytelater");
    TreeItr *it = d.getInvDictIterator(); Map sorted = m; std::sort(sorted.begin(), sorted.end(), [](const std::pair<std::string, uint64_t> &a, const std::pair<std::string, uint64_t> &b) { return a.second < b.second; });
    for (auto &x : sorted) { SX_ASSERT(it->hasNext(), "dictionary: all numbers are listed"); int64_t c; int64_t id = it->next(c); SX_ASSERT((uint64_t)id == x.second, "dictionary: the numbers are listed in order"); char out[160]; int len; d.getTextFromCoordinates(c, out, len); SX_ASSERT(std::string(out, len) == x.first, "dictionary: a number is turned back into its term"); }
    SX_ASSERT(!it->hasNext(), "dictionary: only given numbers are listed"); delete it;
    sx_reach("reopened"); sx_stop();
}
// terms added by small updates, and by updates with a dictionary of their own, on top of the main dictionary
SX_ENTRY h_dict_updates() {
    sxt::init(0, 0);
    std::string dir = std::string(sx_tmp()) + "/kb"; std::vector<std::string> p = pool();
    unsigned base = 4, trees = (unsigned)sx_param("trees", 0), gud = (unsigned)sx_param("gud", 2);
    Map m;
    { DictMgmt d(openDict(dir, false, 2), dir, false, "", ""); for (unsigned i = 0; i < base; i++) { nTerm id = i; std::string t = p[3 * i]; d.appendPair(t.c_str(), (int)t.size(), id); m.push_back({t, i}); } }
    sxt::drain();
    uint64_t id = base; unsigned kk = 1;
    for (unsigned u = 0; u < trees; u++) {
        DictMgmt::Dict d = openDict(dir + "/u" + (u ? "b" : "a"), false, 2);
        for (unsigned i = 0; i < 3; i++, id++, kk += 3) { std::string t = p[kk % p.size()]; nTerm v = (nTerm)id; int64_t co = d.sb->getSize(); SX_ASSERT(d.dict->insertIfNotExists((tTerm *)t.c_str(), (int)t.size(), v), "dictionary: adding a term tells whether it is new"); d.invdict->put(v, co); m.push_back({t, id}); }
        if (u + 1 == trees) kk = 2;
    }
    if (trees) sxt::drain();
    std::vector<std::string> fresh; for (auto &t : p) { bool in = false; for (auto &x : m) in = in || x.first == t; if (!in && t.size()) fresh.push_back(t); }
    unsigned rounds = (unsigned)sx_param("rounds", 2);
    for (unsigned r = 0; r <= rounds; r++) {
        sxt::ts.resize(1);
        DictMgmt d(openDict(dir, true, 2), dir, false, "", "");
        std::vector<DictMgmt::Dict> up; for (unsigned u = 0; u < trees; u++) up.push_back(openDict(dir + "/u" + (u ? "b" : "a"), true, 2));
        d.addUpdates(up); up.clear();
        for (auto &t : p) lookupTerm(d, m, t);
        for (uint64_t i = 0; i < id + 3; i++) lookupId(d, m, i);
        if (r == rounds) break;
        for (unsigned i = 0; i < gud && !fresh.empty(); i++) {
            unsigned k = (unsigned)sx_concretize(sx_range("newterm", 0, fresh.size() - 1)); std::string t = fresh[k] + "~"; d.putInUpdateDict(id, t.c_str(), t.size() - 1); m.push_back({fresh[k], id}); fresh.erase(fresh.begin() + k); id++;
        }
        if (sx_param("now", 1)) { for (auto &t : p) lookupTerm(d, m, t); for (uint64_t i = 0; i < id + 3; i++) lookupId(d, m, i); }
        SX_ASSERT(gud == 0 || d.getLargestGUDTerm() >= id - 1, "dictionary: the largest number given by updates is known");
        sx_reach("updated");
    }
    sx_reach("updates reopened"); sx_stop();
}
#endif
