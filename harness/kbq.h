// Questions about a knowledge base and the answers its triples give.
#pragma once
#include "kbutil.h"
static Trs chooseTriples(unsigned n, unsigned dom, uint64_t base, uint64_t gap) {
    Trs t; uint64_t last = 0; unsigned tot = dom * dom * dom;
    for (unsigned i = 0; i < n; i++) {
        std::string nm = "t" + std::to_string(i);
        uint64_t c = i == 0 && sx_param("t0", 999) != 999 ? sx_param("t0", 0) : sx_concretize(sx_range(nm.c_str(), i ? last + 1 : 0, tot - 1 - (n - 1 - i)));
        last = c;
        t.push_back(Tr{{base + gap * (c / dom / dom), base + gap * (c / dom % dom), base + gap * (c % dom)}});
        if (c + 1 > tot - 1 && i + 1 < n) sx_assume(0);
    }
    return t;
}
static KBOpt options() {
    KBOpt o; o.nindices = sx_param("nidx", 6); o.flat = sx_param("flat", 0); o.skip = sx_param("skip", 0); o.canSkip = o.skip > 0; o.fixed = sx_param("fixed", 256) == 256 ? -1 : (int)sx_param("fixed", 0); o.fileMax = sx_param("fmax", 1 << 20);
    o.unlabeled = sx_param("unlabeled", 0); o.undirected = sx_param("undirected", 0);
    return o;
}
static void readTriples(Querier *q, PairItr *it, int perm, const Trs &ref, const char *what, const char *order) {
    size_t i = 0; (void)perm;
    while (it->hasNext()) {
        SX_ASSERT(i < ref.size(), what); if (i >= ref.size()) return;
        it->next();
        SX_ASSERT((it->getKey() == (int64_t)ref[i][0]) & (it->getValue1() == (int64_t)ref[i][1]) & (it->getValue2() == (int64_t)ref[i][2]), order);
        i++;
    }
    SX_ASSERT(i == ref.size(), "patterns: every matching triple is returned");
    q->releaseItr(it); sx_obs(i);
}
static Trs grouped(const Trs &r, std::vector<uint64_t> &cnt) { Trs g; cnt.clear(); for (auto &x : r) if (g.empty() || g.back()[0] != x[0] || g.back()[1] != x[1]) { g.push_back(x); cnt.push_back(1); } else cnt.back()++; return g; }
#define FOREACH_PATTERN(perm, ids, ...) for (int nb_ = 0; nb_ <= 3; nb_++) { \
    size_t tot_ = 1; for (int i_ = 0; i_ < nb_; i_++) tot_ *= ids.size(); \
    for (size_t c_ = 0; c_ < tot_; c_++) { int64_t pat[3] = {-1, -1, -1}; size_t z_ = c_; for (int i_ = 0; i_ < nb_; i_++) { pat[ORD[perm][i_]] = (int64_t)ids[z_ % ids.size()]; z_ /= ids.size(); } __VA_ARGS__ } }
static std::vector<uint64_t> idsOf(unsigned dom, uint64_t base, uint64_t gap) { std::vector<uint64_t> r; for (unsigned i = 0; i < dom; i++) r.push_back(base + gap * i); r.push_back(base + gap * (dom - 1) + 1); if (gap > 1) r.push_back(base + 1); if (sx_param("flat", 0)) r.push_back(base + 100000); return r; }
static void checkPatterns(Querier *q, const Trs &t, const std::vector<uint64_t> &ids, const std::vector<int> &which) {
    for (int perm : which) {
        FOREACH_PATTERN(perm, ids, {
            Trs ref = matching(t, perm, pat);
            PairItr *it = q->getIterator(perm, pat[0], pat[1], pat[2]);
            readTriples(q, it, perm, ref, "patterns: no triple that does not match is returned", "patterns: the matching triples come in the order of the index");
            if (ref.size() > 1) sx_reach("several matches");
            int o[3] = {ORD[perm][0], ORD[perm][1], ORD[perm][2]};
            if (nb_ <= 1) { // the distinct values of the second position, with their multiplicities
                std::vector<uint64_t> cnt; Trs g = grouped(ref, cnt);
                it = q->getPermuted(perm, pat[o[0]], pat[o[1]], pat[o[2]], true);
                it->ignoreSecondColumn(); size_t i = 0;
                while (it->hasNext()) {
                    SX_ASSERT(i < g.size(), "patterns: grouped reading returns each pair once"); if (i >= g.size()) return;
                    it->next();
                    SX_ASSERT((it->getKey() == (int64_t)g[i][0]) & (it->getValue1() == (int64_t)g[i][1]), "patterns: grouped reading returns the pairs in the order of the index");
                    SX_ASSERT((uint64_t)it->getCount() == cnt[i], "patterns: grouped reading counts the triples of each pair");
                    i++;
                }
                SX_ASSERT(i == g.size(), "patterns: grouped reading returns every pair");
                q->releaseItr(it);
            }
        })
    }
}
static void checkTerms(Querier *q, const Trs &t, const std::vector<int> &which) {
    for (int perm : which) {
        std::map<uint64_t, uint64_t> m; for (auto &x : t) m[x[ORD[perm][0]]]++;
        PairItr *it = q->getTermList(perm); auto e = m.begin();
        while (it->hasNext()) {
            SX_ASSERT(e != m.end(), "terms: each term of a position is listed once"); if (e == m.end()) return;
            it->next(); SX_ASSERT(it->getKey() == (int64_t)e->first, "terms: the terms of a position are listed in order");
            if (it->getTypeItr() == TERM_ITR) SX_ASSERT((uint64_t)it->getCount() == e->second, "terms: each term is listed with its number of triples");
            ++e;
        }
        SX_ASSERT(e == m.end(), "terms: every term of a position is listed"); q->releaseItr(it);
    }
}
static uint64_t cnt(const Trs &t, const int64_t *pat) { return matching(t, 0, pat).size(); }
static bool stored(const KBOpt &o, int idx) { bool p[6] = {true, o.nindices != 1, o.nindices == 6 || o.nindices == 3, o.nindices == 6 || o.nindices == 4, o.nindices == 6 || o.nindices == 4, o.nindices == 6}; return p[idx] || (idx >= 3 && p[idx - 3]); }
static void checkCounts(Querier *q, const KBOpt &o, const Trs &t, const std::vector<uint64_t> &ids, const std::vector<int> &which) {
    SX_ASSERT(q->getInputSize() == t.size(), "counts: the size is the number of triples");
    for (size_t a = 0; a <= ids.size(); a++) for (size_t b = 0; b <= ids.size(); b++) for (size_t c = 0; c <= ids.size(); c++) {
        int64_t pat[3] = {a ? (int64_t)ids[a - 1] : -1, b ? (int64_t)ids[b - 1] : -1, c ? (int64_t)ids[c - 1] : -1};
        uint64_t n = cnt(t, pat);
        SX_ASSERT(q->getCard(pat[0], pat[1], pat[2]) == (int64_t)n, "counts: the cardinality of a pattern is its number of matches");
        SX_ASSERT(q->exists(pat[0], pat[1], pat[2]) == (n > 0), "counts: a pattern exists exactly if a triple matches it");
        SX_ASSERT(q->isEmpty(pat[0], pat[1], pat[2]) == (n == 0), "counts: a pattern is empty exactly if no triple matches it");
        int ub = (pat[0] < 0) + (pat[1] < 0) + (pat[2] < 0);
        int64_t est = q->estCard(pat[0], pat[1], pat[2]);
        bool known = ub == 3 || stored(o, q->getIndex(pat[0], pat[1], pat[2]));
        if (!known) sx_reach("index not stored");
        else if (ub >= 2) SX_ASSERT(est == (int64_t)n, "counts: the estimate of a pattern with one bound position is exact");
        else if (!sx_param("k", 0)) SX_ASSERT(est >= (n > 0), "counts: the estimate of a matching pattern is positive");
        if (ub == 2) for (int pos = 0; pos < 3; pos++) if (pat[pos] < 0) { // distinct values of one free position
            std::set<uint64_t> d; for (auto &x : matching(t, 0, pat)) d.insert(x[pos]);
            SX_ASSERT(q->getCard(pat[0], pat[1], pat[2], (uint8_t)pos) == (int64_t)d.size(), "counts: the number of distinct values of a free position is exact");
        }
    }
    for (int perm : which) {
        FOREACH_PATTERN(perm, ids, {
            Trs ref = matching(t, perm, pat);
            SX_ASSERT(q->getCardOnIndex(perm, pat[0], pat[1], pat[2]) == ref.size(), "counts: the cardinality of a pattern over an index is its number of matches");
            if (stored(o, perm) && nb_ <= 1) SX_ASSERT(q->estCardOnIndex(perm, pat[0], pat[1], pat[2]) == ref.size(), "counts: the estimate over an index of a pattern with at most one bound position is exact");
            if (nb_ == 1) { std::vector<uint64_t> cnt; Trs g = grouped(ref, cnt); SX_ASSERT(q->getCardOnIndex(perm, pat[0], pat[1], pat[2], true) == g.size(), "counts: the grouped cardinality over an index is its number of pairs"); }
        })
        for (uint64_t id : ids) { bool in = false; for (auto &x : t) if (x[ORD[perm][0]] == id) in = true; SX_ASSERT(q->existKey(perm, (int64_t)id) == in, "counts: a key exists exactly if a triple has it"); }
    }
}
struct Opened { KBConfig c; KB kb; Querier *q; Opened(const std::string &d, const KBOpt &o, bool reasoning) : c(cfg(o)), kb(d.c_str(), true, reasoning, false, c) { q = kb.query(); } ~Opened() { delete q; } static KBConfig cfg(const KBOpt &o) { KBConfig c; smallConfig(c, o); return c; } };
static std::vector<int> usable(const KBOpt &o) { if (o.unlabeled) { std::vector<int> r; r.push_back(IDX_SOP); r.push_back(IDX_OSP); return r; } return {0, 1, 2, 3, 4, 5}; }

