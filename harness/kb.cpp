// Whole knowledge bases: every triple pattern over every index returns exactly the matching triples.
#include "kbq.h"
SX_ENTRY h_kb_patterns() {
    unsigned n = sx_param("n", 3), dom = sx_param("dom", 2); uint64_t base = sx_param("base", 0), gap = sx_param("gap", 1);
    KBOpt o = options(); Trs t = chooseTriples(n, dom, base, gap);
    std::string d = std::string(sx_tmp()) + "/kb";
    buildKB(d, t, o);
    Opened k(d, o, sx_param("reasoning", 1));
    std::vector<uint64_t> ids = idsOf(dom, base, gap);
    checkPatterns(k.q, t, ids, usable(o));
    checkTerms(k.q, t, usable(o));
    sx_reach("patterns");
}
SX_ENTRY h_kb_counts() {
    unsigned n = sx_param("n", 3), dom = sx_param("dom", 2); uint64_t base = sx_param("base", 0), gap = sx_param("gap", 1);
    KBOpt o = options(); Trs t = chooseTriples(n, dom, base, gap);
    std::string d = std::string(sx_tmp()) + "/kb";
    buildKB(d, t, o);
    Opened k(d, o, sx_param("reasoning", 1));
    checkCounts(k.q, o, t, idsOf(dom, base, gap), usable(o));
    sx_reach("counts");
}
// Steps, seeks to a key, seeks within a key, mark and reset, in any order the operators use them.
SX_ENTRY h_kb_seek() {
    unsigned n = sx_param("n", 3), dom = sx_param("dom", 2), k = sx_param("k", 3); uint64_t base = sx_param("base", 0), gap = sx_param("gap", 1);
    int perm = (int)sx_param("perm", 3);
    KBOpt o = options(); Trs t;
    if (sx_param("spread", 0)) { // one group of triples per key of the index
        for (unsigned i = 0; i < n; i++) { unsigned two = i == 1 || i == 2; uint64_t v = sx_concretize(sx_range("v", 0, 1));
            for (unsigned j = 0; j <= two; j++) { Tr x; x[ORD[perm][0]] = base + gap * i; x[ORD[perm][1]] = base + gap * (v ^ j); x[ORD[perm][2]] = base + gap * (i & 1); t.push_back(x); } }
        std::sort(t.begin(), t.end());
    } else t = chooseTriples(n, dom, base, gap);
    std::string d = std::string(sx_tmp()) + "/kb";
    buildKB(d, t, o);
    Opened kb(d, o, true);
    int bound = (int)sx_param("bound", 0); // bound: how many leading positions are bound
    std::vector<uint64_t> ids = idsOf(sx_param("spread", 0) ? n : dom, base, gap);
    int64_t pat[3] = {-1, -1, -1};
    for (int i = 0; i < bound; i++) pat[ORD[perm][i]] = (int64_t)ids[sx_concretize(sx_range("bound", 0, ids.size() - 1))];
    Trs ref = matching(t, perm, pat);
    PairItr *it = kb.q->getIterator(perm, pat[0], pat[1], pat[2]);
    size_t p = 0, mp = 0; bool marked = false; // p: rows consumed
    for (unsigned s = 0; s < k; s++) {
        SX_ASSERT(it->hasNext() == (p < ref.size()), "seek: a row follows exactly if one remains");
        if (p >= ref.size()) { if (marked) { it->reset(0); p = mp; marked = false; sx_reach("reset at the end"); continue; } break; }
        it->next(); const Tr &c = ref[p]; p++;
        SX_ASSERT((it->getKey() == (int64_t)c[0]) & (it->getValue1() == (int64_t)c[1]) & (it->getValue2() == (int64_t)c[2]), "seek: the row that follows is the next matching one");
        switch (sx_concretize(sx_range("op", 0, 4))) {
            case 0: break;
            case 1: { if (bound) sx_assume(0); uint64_t key = ids[sx_concretize(sx_range("key", 0, ids.size() - 1))]; if (key <= c[0]) sx_assume(0);
                      it->gotoKey((int64_t)key); while (p < ref.size() && ref[p][0] < key) p++; sx_reach("seek to a key"); break; }
            case 2: { uint64_t v1 = ids[sx_concretize(sx_range("v1", 0, ids.size() - 1))]; if (v1 <= c[1]) sx_assume(0);
                      it->moveto((int64_t)v1, 0); while (p < ref.size() && ref[p][0] == c[0] && ref[p][1] < v1) p++; sx_reach("seek to a value"); break; }
            case 3: { uint64_t v2 = ids[sx_concretize(sx_range("v2", 0, ids.size() - 1))]; if (v2 <= c[2]) sx_assume(0);
                      it->moveto((int64_t)c[1], (int64_t)v2); while (p < ref.size() && ref[p][0] == c[0] && ref[p][1] == c[1] && ref[p][2] < v2) p++; sx_reach("seek to a pair"); break; }
            case 4: it->mark(); mp = p; marked = true; sx_reach("mark"); break;
        }
        if (marked && mp != p && sx_concretize(sx_range("reset", 0, 1))) { it->reset(0); p = mp; sx_reach("reset"); }
    }
    for (; p < ref.size(); p++) {
        bool h = it->hasNext(); SX_ASSERT(h, "seek: a row follows exactly if one remains"); if (!h) return;
        it->next(); SX_ASSERT((it->getKey() == (int64_t)ref[p][0]) & (it->getValue1() == (int64_t)ref[p][1]) & (it->getValue2() == (int64_t)ref[p][2]), "seek: the row that follows is the next matching one");
    }
    SX_ASSERT(!it->hasNext(), "seek: nothing follows the last row");
    kb.q->releaseItr(it); sx_obs(p);
}
// one predicate with a grid of subjects and objects, so that the tables of a key are long
SX_ENTRY h_kb_grid() {
    unsigned ns = sx_param("ns", 6), no = sx_param("no", 5), mid = sx_param("mid", 1); uint64_t gap = sx_param("gap", 1);
    KBOpt o = options(); Trs t;
    uint64_t hole = sx_concretize(sx_range("hole", 0, ns * no - 1)); // one pair is missing
    for (unsigned i = 0; i < ns; i++) for (unsigned j = 0; j < no; j++) if (i * no + j != hole) { Tr x; x[mid] = 100; x[(mid + 1) % 3] = gap * i; x[(mid + 2) % 3] = gap * (10 + j); t.push_back(x); }
    std::sort(t.begin(), t.end());
    std::string d = std::string(sx_tmp()) + "/kb";
    buildKB(d, t, o);
    Opened k(d, o, sx_param("reasoning", 1));
    std::vector<uint64_t> ids{0, gap * (ns - 1), gap * 12, 100, 7 * gap + 1};
    checkPatterns(k.q, t, ids, usable(o));
    checkTerms(k.q, t, usable(o));
    if (t.size() > 16) sx_reach("long tables");
    sx_stop();
}
// short histories of questions about single terms on one querier: no answer depends on the questions before
SX_ENTRY h_kb_history() {
    unsigned n = sx_param("n", 2), k = sx_param("k", 3);
    KBOpt o = options(); Trs t = chooseTriples(n, 2, 0, 1);
    std::string d = std::string(sx_tmp()) + "/kb";
    buildKB(d, t, o);
    Opened op(d, o, true); Querier *q = op.q;
    uint64_t ids[3] = {0, 1, 7};
    bool absent = false;
    for (unsigned i = 0; i < k; i++) {
        std::string s = std::to_string(i);
        unsigned fn = i == 0 ? sx_param("f0", 0) : sx_concretize(sx_range(("fn" + s).c_str(), 0, 6)), key = i == 0 ? sx_param("k0", 0) : sx_concretize(sx_range(("key" + s).c_str(), 0, 2)), pos = sx_concretize(sx_range(("pos" + s).c_str(), 0, i ? sx_param("maxpos", 2) : 0));
        int64_t pat[3] = {-1, -1, -1}; pat[pos] = ids[key];
        static const int P[3] = {IDX_SPO, IDX_POS, IDX_OPS}; int perm = P[pos];
        Trs m = matching(t, perm, pat); uint64_t c = m.size();
        if (fn == 0) SX_ASSERT(q->getCard(pat[0], pat[1], pat[2]) == (int64_t)c, "history: the cardinality of a pattern is its number of matches");
        else if (fn == 1) SX_ASSERT(q->exists(pat[0], pat[1], pat[2]) == (c > 0), "history: a pattern exists exactly if a triple matches it");
        else if (fn == 2) SX_ASSERT(q->estCard(pat[0], pat[1], pat[2]) == (int64_t)c, "history: the estimate of a pattern with one bound position is exact");
        else if (fn == 3) SX_ASSERT(q->existKey(perm, pat[pos]) == (c > 0), "history: a key exists exactly if a triple has it");
        else if (fn == 4) SX_ASSERT(q->getCardOnIndex(perm, pat[0], pat[1], pat[2]) == c, "history: the cardinality over an index is its number of matches");
        else if (fn == 5) SX_ASSERT(q->estCardOnIndex(perm, pat[0], pat[1], pat[2]) == c, "history: the estimate over an index is exact");
        else readTriples(q, q->getIterator(perm, pat[0], pat[1], pat[2]), perm, m, "history: no triple that does not match is returned", "history: the matching triples come in the order of the index");
        if (!c) absent = true; else if (absent) sx_reach("present after absent");
        sx_obs(c);
    }
    sx_stop(); // closing the knowledge base is not in question here
}
