// Updates on top of a knowledge base: after any sequence of additions and deletions every question is answered as if
// the knowledge base held exactly the resulting triples.
#include "kbq.h"
#include <trident/kb/diffindex.h>
#include <kognac/filereader.h>
#include <fstream>
#define private public // Updater::match, which turns a requested update into an effective one
#include <trident/kb/updater.h>
#undef private
struct Diffs {
    std::string dir; KB &kb; Querier *q; unsigned n; bool add;
    std::vector<std::unique_ptr<ROMappedFile>> maps;
    Diffs(const std::string &d, KB &kb, Querier *q) : dir(d + "/_diff"), kb(kb), q(q), n(0) { sx_map_slack = 1 << 14; }
    void apply(bool isAdd, const Trs &req) {
        std::vector<Updater::Triple> in; for (auto &x : req) { Updater::Triple t; t.s = x[0]; t.p = x[1]; t.o = x[2]; in.push_back(t); }
        std::vector<uint64_t> s, p, o; DiffIndex::TypeUpdate ty = isAdd ? DiffIndex::ADDITION_df : DiffIndex::DELETE_df;
        Updater::match(ty, s, p, o, q, in);
        if (s.empty()) { sx_reach("update without effect"); return; }
        std::string out = dir + "/" + std::to_string(n++);
        DiffIndex3::createDiffIndex(ty, out, dir, s, p, o, false, q, true);
        { std::ofstream f(out + (isAdd ? "/ADD" : "/DEL")); }
        static const struct { int perm; const char *f; } F[6] = {{IDX_SPO, "/s/p0"}, {IDX_SOP, "/s/p1"}, {IDX_POS, "/p/p0"}, {IDX_PSO, "/p/p1"}, {IDX_OPS, "/o/p0"}, {IDX_OSP, "/o/p1"}};
        const char *buf[6] = {0, 0, 0, 0, 0, 0};
        for (auto &e : F) if (Utils::exists(dir + e.f)) { maps.push_back(std::unique_ptr<ROMappedFile>(new ROMappedFile(dir + e.f))); buf[e.perm] = maps.back()->getBuffer(); }
        kb.addDiffIndex(out, buf, q);
        sx_reach(isAdd ? "addition" : "deletion");
    }
};
static Trs chooseSome(unsigned dom, uint64_t base, uint64_t gap, unsigned maxn, const std::string &nm) {
    unsigned n = sx_param("m", 1), tot = dom * dom * dom; (void)maxn; Trs t; uint64_t last = 0;
    for (unsigned i = 0; i < n; i++) {
        uint64_t c = sx_param(nm.c_str(), 999) != 999 && i == 0 ? sx_param(nm.c_str(), 0) : sx_concretize(sx_range((nm + std::to_string(i)).c_str(), i ? last + 1 : 0, tot - (n - i))); last = c;
        t.push_back(Tr{{base + gap * (c / dom / dom), base + gap * (c / dom % dom), base + gap * (c % dom)}});
    }
    return t;
}
SX_ENTRY h_updates() {
    unsigned n = sx_param("n", 2), dom = sx_param("dom", 2), k = sx_param("k", 1), kinds = sx_param("kinds", 1), what = sx_param("what", 0); uint64_t base = sx_param("base", 0), gap = sx_param("gap", 1);
    KBOpt o = options(); Trs t = chooseTriples(n, dom, base, gap);
    std::string d = std::string(sx_tmp()) + "/kb";
    buildKB(d, t, o);
    Opened op(d, o, true);
    Diffs df(d, op.kb, op.q);
    std::set<Tr> cur(t.begin(), t.end());
    for (unsigned i = 0; i < k; i++) {
        bool add = kinds >> i & 1;
        Trs r = chooseSome(dom, base, gap, 2, "u" + std::to_string(i));
        df.apply(add, r);
        for (auto &x : r) if (add) cur.insert(x); else cur.erase(x);
    }
    Trs now(cur.begin(), cur.end());
    std::vector<uint64_t> ids = idsOf(dom, base, gap);
    if (what == 0) checkPatterns(op.q, now, ids, usable(o));
    if (what == 1) checkTerms(op.q, now, usable(o));
    if (what == 2) checkCounts(op.q, o, now, ids, usable(o));
    sx_stop();
}
// updates that were merged and read again when the knowledge base is opened
SX_ENTRY h_merge_updates() {
    unsigned n = sx_param("n", 1), dom = 2, k = sx_param("k", 2), kinds = sx_param("kinds", 1), merge = sx_param("merge", 1);
    KBOpt o = options(); Trs t = chooseTriples(n, dom, 0, 1);
    std::string d = std::string(sx_tmp()) + "/kb";
    buildKB(d, t, o);
    std::set<Tr> cur(t.begin(), t.end());
    unsigned last = 0;
    {
        Opened op(d, o, true);
        Diffs df(d, op.kb, op.q);
        for (unsigned i = 0; i < k; i++) {
            bool add = kinds >> i & 1;
            Trs r = chooseSome(dom, 0, 1, 2, "u" + std::to_string(i));
            df.apply(add, r);
            for (auto &x : r) if (add) cur.insert(x); else cur.erase(x);
        }
        last = df.n;
        if (last) { std::ofstream f(d + "/_diff/gud"); f << 7; }
        if (merge) { op.kb.mergeUpdates(); SX_ASSERT(!last || Utils::exists(d + "/_diff/gud"), "updates: the terms of small updates are kept when merging"); }
    }
    Trs now(cur.begin(), cur.end());
    std::vector<uint64_t> ids = idsOf(dom, 0, 1);
    Opened op(d, o, true);
    if (last > 1) sx_reach("several updates");
    checkPatterns(op.q, now, ids, usable(o));
    checkTerms(op.q, now, usable(o));
    SX_ASSERT(op.q->getInputSize() == now.size(), "counts: the size is the number of triples");
    if (last && sx_param("more", 0)) { // and updated again
        Diffs df(d, op.kb, op.q); while (Utils::exists(d + "/_diff/" + std::to_string(df.n))) df.n++;
        Trs r = chooseSome(dom, 0, 1, 2, "v"); bool add = sx_param("more", 0) == 1;
        df.apply(add, r);
        for (auto &x : r) if (add) cur.insert(x); else cur.erase(x);
        Opened op2(d, o, true);
        Trs now2(cur.begin(), cur.end());
        checkPatterns(op2.q, now2, ids, usable(o));
    }
    sx_stop();
}
