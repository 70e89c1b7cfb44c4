// A small knowledge base written through the system's own inserter, and what its triples say about every pattern.
#pragma once
#include "sx.h"
#include <trident/kb/kb.h>
#include <trident/kb/querier.h>
#include <trident/kb/inserter.h>
#include <trident/kb/kbconfig.h>
#include <trident/tree/root.h>
#include <trident/tree/flatroot.h>
#include <trident/binarytables/storagestrat.h>
#include <array>
#include <map>
#include <set>
#include <algorithm>
// StorageStrat::getBinaryBreakingPoint times the machine to choose where binary search takes over from
// linear search (a value in [4,4096]); the harness chooses the value instead.
extern "C" size_t sxsub__ZN12StorageStrat22getBinaryBreakingPointEv() { return (size_t)sx_param("breakpoint", 16); }
typedef std::array<uint64_t, 3> Tr; // s p o
typedef std::vector<Tr> Trs;
static const int ORD[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}, {1, 0, 2}}; // SPO OPS POS SOP OSP PSO
static Trs permuted(const Trs &t, int perm) { Trs r; for (auto &x : t) r.push_back(Tr{{x[ORD[perm][0]], x[ORD[perm][1]], x[ORD[perm][2]]}}); std::sort(r.begin(), r.end()); return r; }

struct KBOpt { int nindices; const char *indices; int skip; bool flat, unlabeled, undirected; int fixed; bool canSkip; uint64_t fileMax; int nodeEls; KBOpt() : nindices(6), indices(""), skip(0), flat(false), unlabeled(false), undirected(false), fixed(-1), canSkip(false), fileMax(1 << 20), nodeEls(8) {} };
struct TI : public TreeInserter {
    struct E { int64_t key, n; short file; int pos; char st; };
    std::vector<E> v;
    void addEntry(nTerm key, int64_t nElements, short file, int pos, char st) { v.push_back(E{(int64_t)key, nElements, file, pos, st}); }
};
static void smallConfig(KBConfig &c, const KBOpt &o) {
    c.setParamInt(DICTPARTITIONS, 1); c.setParamInt(NINDICES, o.nindices); c.setParam(INDICES, o.indices);
    c.setParamBool(AGGRINDICES, false); c.setParamInt(THRESHOLD_SKIP_TABLE, o.skip);
    c.setParamBool(USEFIXEDSTRAT, o.fixed >= 0); c.setParamInt(FIXEDSTRAT, o.fixed < 0 ? 0 : (int)(char)o.fixed);
    c.setParamInt(TREE_MAXELEMENTSNODE, o.nodeEls); c.setParamInt(TREE_MAXNODESINCACHE, 4); c.setParamInt(TREE_MAXPREALLLEAVESCACHE, 4); c.setParamInt(TREE_MAXLEAVESCACHE, 4);
    c.setParamInt(TREE_NODEMINBYTES, 1); c.setParamInt(TREE_MAXPREALLINTERNALLINES, 8); c.setParamInt(TREE_MAXINTERNALLINES, 8); c.setParamInt(TREE_FACTORYSIZE, 4); c.setParamInt(TREE_ALLOCATEDELEMENTS, 4);
    c.setParamInt(TREE_NODE_KEYS_FACTORY_SIZE, 4); c.setParamInt(TREE_NODE_KEYS_PREALL_FACTORY_SIZE, 4); c.setParamInt(TREE_MAXNFILES, 4); c.setParamInt(TREE_MAXFILESIZE, 1 << 20);
    c.setParamLong(STORAGE_MAX_FILE_SIZE, o.fileMax); c.setParamInt(STORAGE_MAX_N_FILES, 4); c.setParamInt(INVDICT_NODEMINBYTES, 1); c.setParamInt(DICT_NODEMINBYTES, 1);
}
static std::vector<int> perms(const KBOpt &o) {
    std::vector<int> r; std::string s = o.indices; if (s.empty()) s = o.nindices == 1 ? "0" : o.nindices == 3 ? "0;1;2" : o.nindices == 4 ? "0;1;3;4" : "0;1;2;3;4;5";
    for (char c : s) if (c != ';') r.push_back(c - '0'); return r;
}
// ids must be distinct triples; perms are written as the loader writes them: sorted, one permutation at a time, the tree last
static void buildKB(const std::string &dir, const Trs &t, const KBOpt &o) {
    KBConfig c; smallConfig(c, o);
    {
        KB kb(dir.c_str(), false, false, false, c);
        if (o.unlabeled) kb.setGraphType(o.undirected ? GraphType::UNDIRECTED : GraphType::DIRECTED);
        Inserter *ins = kb.insert();
        std::map<int64_t, TermCoordinates> tree;
        for (int p : perms(o)) {
            TI ti; if (o.unlabeled && p != IDX_SOP && (p != IDX_OSP || o.undirected)) continue;
            for (auto &x : permuted(t, p)) ins->insert(p, x[0], x[1], x[2], 1, NULL, &ti, false, o.canSkip);
            ins->flush(p, NULL, &ti, false, o.canSkip); ins->stopInserts(p);
            for (auto &e : ti.v) { auto i = tree.find(e.key); if (i == tree.end()) { TermCoordinates z; z.clear(); i = tree.insert(std::make_pair(e.key, z)).first; } i->second.set(p, e.file, e.pos, e.n, e.st); }
        }
        for (auto &e : tree) ins->insert((nTerm)e.first, &e.second);
        delete ins;
        if (o.flat) {
            kb.close();
            std::unique_ptr<Root> root(kb.getRootTree());
            auto d = [&](int p) { return dir + "/p" + std::to_string(p); };
            FlatRoot::loadFlatTree(d(IDX_SOP), d(IDX_OSP), d(IDX_SPO), d(IDX_OPS), d(IDX_POS), d(IDX_PSO), dir + "/tree/flat", root.get(), o.unlabeled, o.undirected);
        }
    }
}
// rows of a pattern in the order of an index; the pattern is given in s p o order, -1 for a variable
static Trs matching(const Trs &t, int perm, const int64_t *pat) { Trs r; for (auto &x : t) { bool ok = true; for (int i = 0; i < 3; i++) if (pat[i] >= 0 && (uint64_t)pat[i] != x[i]) ok = false; if (ok) r.push_back(x); } return permuted(r, perm); }
