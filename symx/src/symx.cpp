// symx: bounded symbolic execution of LLVM IR, all feasible paths, Z3 as the deciding back end.
#include "state.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <sys/resource.h>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;

struct Op { int slot; Val c; };
struct DI {
    unsigned opc;
    Instruction *I;
    int dst = -1;
    unsigned w = 0;               // result width (0: none/aggregate)
    std::vector<Op> ops;
    int64_t off = 0;              // gep constant part
    std::vector<std::pair<int, int64_t>> idx; // gep: operand index, scale
    unsigned pred = 0;
    uint64_t size = 0;            // memory access size
    Type *ty = nullptr;
    std::vector<uint32_t> succ;
    std::vector<std::pair<uint32_t, Op>> phi;
    std::vector<std::pair<Val, uint32_t>> cases;
    Function *callee = nullptr;
    DFunc *dcallee = nullptr;
    unsigned intr = 0;
    int native = -1;
};
struct DBlock { std::vector<DI> in; unsigned nphi = 0; };
struct DFunc {
    Function *F;
    unsigned nregs = 0;
    std::vector<DBlock> blocks;
    bool counted = false;
};

struct PathEnd { std::string kind, msg; };   // kind: done, assume, incomplete, error:<class>
struct Restart {};                            // state was changed (e.g. exception raised); re-dispatch

static Module *M;
static const DataLayout *DL;
static std::unordered_map<Function *, DFunc *> dfuncs;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<uint32_t, Function *> slotFunc;
static std::map<std::string, int64_t> params;
static std::vector<std::unique_ptr<State>> work;
static State *S;          // current state

static uint64_t maxSteps = 30000000, maxPaths = 100000000, maxForks = 0;
static double maxTime = 600;
static unsigned maxEnum = 600;
static size_t memLimitMB = 3000;
static bool verbose = false;
static unsigned maxViol = 12;

struct Violation { std::string label, kind, msg, loc; std::vector<std::string> stack; std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputs; };
static std::vector<Violation> viols;
static std::map<std::string, uint64_t> violCount;
static std::map<std::string, uint64_t> ends, incompletes;
struct AssertInfo { uint64_t checked = 0, constTrue = 0, proved = 0, failed = 0, unknown = 0; };
static std::map<std::string, AssertInfo> asserts;
static std::map<std::string, uint64_t> reaches;
static std::set<std::string> execFuncs;
static bool forkProf = getenv("SX_FORKPROF");
static std::map<std::string, uint64_t> forkAt;
static uint64_t totalSteps = 0, nForks = 0, nPaths = 0, nBranches = 0;
struct Sample { std::vector<std::pair<std::string, std::pair<unsigned, u128>>> inputs; uint64_t hash; size_t nobs; };
static std::vector<Sample> samples;
static uint64_t sampleSeen = 0;
static unsigned maxSamples = 24;
static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ---------------------------------------------------------------- memory
static ObjP *slotPtr(State &s, uint32_t slot) {
    uint32_t c = slot / CHUNK;
    if (c >= s.mem.size() || !s.mem[c]) return nullptr;
    return &s.mem[c]->o[slot % CHUNK];
}
static ObjP &slotW(State &s, uint32_t slot) {
    uint32_t c = slot / CHUNK;
    if (c >= s.mem.size()) s.mem.resize(c + 1);
    if (!s.mem[c]) s.mem[c] = std::make_shared<Chunk>();
    else if (s.mem[c].use_count() > 1) s.mem[c] = std::make_shared<Chunk>(*s.mem[c]);
    return s.mem[c]->o[slot % CHUNK];
}
static uint64_t allocObj(State &s, uint64_t size, ObjKind k, uint8_t fill, const char *what, uint64_t align = 16) {
    uint32_t n = (uint32_t)((size + 0x2000) >> SLOT_BITS) + 1;
    uint32_t slot;
    if (k == O_STACK && n == 1 && !s.freeStack.empty()) { slot = s.freeStack.back(); s.freeStack.pop_back(); }
    else { slot = s.nextSlot; s.nextSlot += n; }
    ObjP o = std::make_shared<Obj>();
    o->base = ((uint64_t)slot << SLOT_BITS) + 0x1000;
    o->size = size; o->kind = k; o->ro = false; o->freed = false; o->fill = fill; o->nslots = n; o->what = what;
    o->pages.resize((size + PAGE - 1) / PAGE);
    for (uint32_t i = 0; i < n; ++i) slotW(s, slot + i) = o;
    return o->base;
}
static Obj *findObj(State &s, uint64_t addr) {
    uint64_t slot = addr >> SLOT_BITS;
    if (slot == 0 || slot >= s.nextSlot) return nullptr;
    ObjP *p = slotPtr(s, (uint32_t)slot);
    return p && *p ? p->get() : nullptr;
}
static Obj *writableObj(State &s, Obj *o) {
    uint32_t slot = (uint32_t)(o->base >> SLOT_BITS);
    ObjP &p = slotW(s, slot);
    if (o->nslots == 1) {
        if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
        return p.get();
    }
    if (p.use_count() > (long)o->nslots) {
        ObjP q = std::make_shared<Obj>(*p);
        for (uint32_t i = 0; i < q->nslots; ++i) slotW(s, slot + i) = q;
        return q.get();
    }
    return p.get();
}
static Page *pageW(Obj *o, uint64_t pi) {
    auto &p = o->pages[pi];
    uint64_t n = std::min(PAGE, o->size - pi * PAGE);
    if (!p) { p = std::make_shared<Page>(); p->b.assign(n, o->fill); }
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    return p.get();
}
static inline E byteE(Obj *o, uint64_t off, uint8_t &c) {
    auto &p = o->pages[off / PAGE];
    if (!p) { c = o->fill; return nullptr; }
    uint64_t i = off % PAGE;
    if (!p->s.empty() && p->s[i]) return p->s[i];
    c = p->b[i];
    return nullptr;
}
static Val readVal(Obj *o, uint64_t off, unsigned n, unsigned w) {
    // fast concrete path
    if (n <= 8) {
        uint64_t pi = off / PAGE, i = off % PAGE;
        auto &p = o->pages[pi];
        if (i + n <= PAGE && p && p->s.empty()) {
            uint64_t v = 0;
            memcpy(&v, p->b.data() + i, n);
            return Val(v, w);
        }
    }
    E acc = nullptr;
    bool allc = true;
    uint8_t cb[16]; E eb[16];
    if (n > 16) throw PathEnd{"incomplete", "load wider than 16 bytes"};
    for (unsigned k = 0; k < n; ++k) { eb[k] = byteE(o, off + k, cb[k]); if (eb[k]) allc = false; }
    if (allc && n <= 8) { uint64_t v = 0; memcpy(&v, cb, n); return Val(v, w); }
    for (unsigned k = 0; k < n; ++k) {
        E b = eb[k] ? eb[k] : mkConst(cb[k], 8);
        acc = acc ? mkConcat(b, acc) : b;
    }
    if (acc->w > w) acc = mkExtract(acc, 0, w);
    return fromE(acc);
}
static void writeByte(Obj *o, uint64_t off, E e, uint8_t c) {
    Page *p = pageW(o, off / PAGE);
    uint64_t i = off % PAGE;
    if (e && isC(e)) { c = (uint8_t)e->v; e = nullptr; }
    if (e) { if (p->s.empty()) p->s.resize(p->b.size()); p->s[i] = e; }
    else { if (!p->s.empty()) p->s[i] = nullptr; p->b[i] = c; }
}
static void writeVal(Obj *o, uint64_t off, unsigned n, const Val &v) {
    if (!v.e && n <= 8) {
        uint64_t i = off % PAGE;
        if (i + n <= PAGE) {
            Page *p = pageW(o, off / PAGE);
            if (p->s.empty()) { memcpy(p->b.data() + i, &v.c, n); return; }
        }
        for (unsigned k = 0; k < n; ++k) writeByte(o, off + k, nullptr, (uint8_t)(v.c >> (8 * k)));
        return;
    }
    E e = v.e ? v.e : mkConst(v.c, v.w);
    if (e->w < n * 8) e = mkZExt(e, n * 8);
    for (unsigned k = 0; k < n; ++k) writeByte(o, off + k, mkExtract(e, 8 * k, 8), 0);
}

// ---------------------------------------------------------------- locations
static std::string demangled(StringRef n) { return llvm::demangle(n.str()); }
static std::string shortName(Function *F) {
    std::string d = demangled(F->getName());
    // drop the parameter list, keep it readable
    size_t p = d.find('(');
    if (p != std::string::npos && p > 0 && d.compare(0, 10, "operator()") != 0) d = d.substr(0, p);
    if (d.size() > 120) d = d.substr(0, 120);
    return d;
}
static std::string locOf(Instruction *I) {
    std::string r = shortName(I->getFunction());
    if (DILocation *l = I->getDebugLoc()) {
        r += " at " + l->getFilename().str() + ":" + std::to_string(l->getLine());
    }
    return r;
}
static Frame &top() { return S->th[S->cur].st.back(); }
static DI *curDI() {
    auto &t = S->th[S->cur];
    if (t.st.empty()) return nullptr;
    Frame &f = t.st.back();
    return &f.f->blocks[f.blk].in[f.idx];
}
static std::vector<std::string> stackTrace() {
    std::vector<std::string> r;
    auto &t = S->th[S->cur];
    for (auto it = t.st.rbegin(); it != t.st.rend() && r.size() < 14; ++it) r.push_back(locOf(it->f->blocks[it->blk].in[it->idx].I));
    return r;
}
static bool isRepoFunc(Function *F) {
    DISubprogram *sp = F->getSubprogram();
    if (!sp) return false;
    StringRef fn = sp->getFilename();
    std::string full = fn.starts_with("/") ? fn.str() : (sp->getDirectory() + "/" + fn).str();
    return full.find("/usr/") != 0 && full.find("/verif/") == std::string::npos;
}
// innermost frame that belongs to the code under test: the stable name of a memory error
static std::string siteName() {
    auto &t = S->th[S->cur];
    for (auto it = t.st.rbegin(); it != t.st.rend(); ++it) if (isRepoFunc(it->f->F)) return shortName(it->f->F);
    return t.st.empty() ? "?" : shortName(t.st.back().f->F);
}

// ---------------------------------------------------------------- path condition
static void addPC(State &s, E c) {
    if (isTrue(c)) return;
    if (c->k == K_AND) { addPC(s, c->a); addPC(s, c->b); return; }
    if (s.pcIds.insert(c->id).second) s.pc.push_back(c);
}
static uint64_t evalV(const Val &v) { return v.e ? (uint64_t)evalE(v.e, *S->model) : v.c; }
static Res feasible(E c, ModelP *m) {
    if (S->pcIds.count(c->id)) { if (m) *m = S->model; return R_SAT; }
    E n = mkNot(c);
    if (S->pcIds.count(n->id)) return R_UNSAT;
    return solve(S->pc, c, S->model, m);
}
static State *cloneState() {
    State *n = new State(*S);
    n->depth++;
    nForks++;
    if (forkProf) { auto st = stackTrace(); std::string k; for (size_t i = 0; i < st.size() && i < 6; i++) k += st[i] + " <- "; forkAt[k]++; }
    return n;
}
static void incomplete(const std::string &why) { incompletes[why]++; }

static void recordViolation(const std::string &kind, const std::string &label, const std::string &msg, const ModelP &m) {
    std::string key = kind + ":" + label;
    uint64_t n = ++violCount[key];
    if (n > 3) return;            // a few witnesses per kind are enough
    Violation v;
    v.kind = kind; v.label = label; v.msg = msg;
    if (auto *d = curDI()) v.loc = locOf(d->I);
    v.stack = stackTrace();
    for (auto &i : S->inputs) v.inputs.push_back({i.name, {i.sym->w, evalE(i.sym, *m)}});
    viols.push_back(v);
    if (verbose) { fprintf(stderr, "VIOL %s %s\n  at %s\n", key.c_str(), msg.c_str(), v.loc.c_str()); for (auto &l : v.stack) fprintf(stderr, "    %s\n", l.c_str()); for (auto &i : v.inputs) fprintf(stderr, "    %s=%s\n", i.first.c_str(), u128str(i.second.second).c_str()); }
}
[[noreturn]] static void memErr(const std::string &cls, const std::string &msg) { throw PathEnd{"error:" + cls, msg}; }

// make v concrete on this path; other feasible values are explored by clones re-executing this instruction
static uint64_t concretize(const Val &v, const char *why) {
    if (!v.e) return v.c;
    uint64_t x = (uint64_t)evalE(v.e, *S->model);
    E eq = mkEq(v.e, mkConst(x, v.w));
    ModelP m;
    Res r = feasible(mkNot(eq), &m);
    if (r == R_SAT) {
        State *n = cloneState();
        n->model = m;
        addPC(*n, mkNot(eq));
        work.emplace_back(n);
    } else if (r == R_UNKNOWN) incomplete(std::string("solver unknown: ") + why);
    addPC(*S, eq);
    return x;
}

// decide a 1-bit value on this path; the other feasible side is explored by a clone with instruction restart
static bool decide(const Val &v) {
    if (!v.e) return v.c;
    bool x = evalE(v.e, *S->model);
    E taken = x ? v.e : mkNot(v.e), other = mkNot(taken);
    ModelP m;
    Res r = feasible(other, &m);
    if (r == R_SAT) {
        State *n = cloneState();
        n->model = m;
        addPC(*n, other);
        work.emplace_back(n);
    } else if (r == R_UNKNOWN) incomplete("solver unknown: branch");
    if (r != R_UNSAT) addPC(*S, taken);
    return x;
}

// resolve an address for an access of n bytes to one object; the result is concrete or an offset term inside the object
static Obj *resolve(const Val &a, uint64_t n, bool write, uint64_t &coff, E &soff) {
    soff = nullptr;
    if (!a.e) {
        Obj *o = findObj(*S, a.c);
        if (!o) memErr(a.c < 4096 ? "null" : "wild", "access to address " + std::to_string(a.c));
        if (o->freed) memErr("use-after-free", std::string("access to freed object from ") + o->what);
        if (o->kind == O_FUNC) memErr("wild", "data access to a function");
        if (a.c < o->base || a.c + n > o->base + o->size)
            memErr("out-of-bounds", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)(a.c - o->base)) + " of a " + std::to_string(o->size) + "-byte object (" + o->what + ")");
        if (write && o->ro) memErr("write-const", "write to constant memory");
        coff = a.c - o->base;
        return o;
    }
    uint64_t x = (uint64_t)evalE(a.e, *S->model);
    Obj *o = findObj(*S, x);
    bool ok = o && !o->freed && o->kind != O_FUNC && x >= o->base && x + n <= o->base + o->size && !(write && o->ro);
    if (!ok) {
        // the current witness already leaves the object
        Val c(x, 64);
        ModelP m = S->model;
        addPC(*S, mkEq(a.e, mkConst(x, 64)));
        uint64_t d; E se;
        resolve(c, n, write, d, se); // throws
        memErr("wild", "unresolved address");
    }
    E in = mkBin(K_AND, mkBin(K_ULE, mkConst(o->base, 64), a.e), mkBin(K_ULE, a.e, mkConst(o->base + o->size - n, 64)));
    if (!isTrue(in)) {
        ModelP m;
        Res r = feasible(mkNot(in), &m);
        if (r == R_SAT) {
            State *c = cloneState();
            c->model = m;
            addPC(*c, mkNot(in));
            work.emplace_back(c);
            addPC(*S, in);
        } else if (r == R_UNKNOWN) { incomplete("solver unknown: address"); addPC(*S, in); }
    }
    E off = mkBin(K_SUB, a.e, mkConst(o->base, 64));
    if (isC(off)) { coff = (uint64_t)off->v; return o; }
    soff = off;
    return o;
}
// all offsets the term can take inside an object (bounded); adds no constraint
static std::vector<uint64_t> offsets(E off, uint64_t limit) {
    std::vector<uint64_t> r;
    u128 lo = off->lo, hi = std::min<u128>(off->hi, limit);
    unsigned tz = std::min(6u, trailingZeros(off));
    uint64_t step = 1ull << tz;
    if (off->k == K_ADD && isC(off->b)) {
        unsigned t2 = std::min(6u, trailingZeros(off->a));
        if (t2 > tz) { // constant residue
            step = 1ull << t2;
            uint64_t res = (uint64_t)off->b->v & (step - 1);
            uint64_t l = (uint64_t)lo;
            uint64_t st = (l & ~(step - 1)) + res;
            if (st < l) st += step;
            if (hi >= lo && (hi - lo) / step <= 40) { for (u128 x = st; x <= hi; x += step) r.push_back((uint64_t)x); return r; }
        }
    } else if (hi >= lo && (hi - lo) / step <= 40) {
        u128 st = (lo + step - 1) / step * step;
        for (u128 x = st; x <= hi; x += step) r.push_back((uint64_t)x);
        return r;
    }
    // enumerate with the solver
    std::vector<E> pc = S->pc;
    ModelP m = S->model;
    E excl = mkBool(true);
    for (;;) {
        uint64_t v = (uint64_t)evalE(off, *m);
        r.push_back(v);
        if (r.size() > maxEnum) throw PathEnd{"incomplete", "symbolic address with more than " + std::to_string(maxEnum) + " values"};
        excl = mkNot(mkEq(off, mkConst(v, 64)));
        ModelP m2;
        Res q = solve(pc, excl, m, &m2);
        pc.push_back(excl);
        if (q == R_UNSAT) break;
        if (q == R_UNKNOWN) { incomplete("solver unknown: address enumeration"); break; }
        m = m2;
    }
    std::sort(r.begin(), r.end());
    return r;
}

static Val loadMem(const Val &a, uint64_t n, unsigned w) {
    uint64_t off; E so;
    Obj *o = resolve(a, n, false, off, so);
    if (!so) return readVal(o, off, n, w);
    auto offs = offsets(so, o->size - n);
    if (offs.empty()) throw PathEnd{"assume", "no offset"};
    E acc = toE(readVal(o, offs[0], n, w));
    for (size_t i = 1; i < offs.size(); ++i)
        acc = mkIte(mkEq(so, mkConst(offs[i], 64)), toE(readVal(o, offs[i], n, w)), acc);
    return fromE(acc);
}
static void storeMem(const Val &a, uint64_t n, const Val &v) {
    uint64_t off; E so;
    Obj *o = resolve(a, n, true, off, so);
    if (!so) { writeVal(writableObj(*S, o), off, n, v); return; }
    auto offs = offsets(so, o->size - n);
    Obj *wo = writableObj(*S, o);
    std::vector<std::pair<uint64_t, Val>> news;
    for (uint64_t x : offs) {
        Val old = readVal(wo, x, n, n * 8);
        E nv = toE(v); if (nv->w < n * 8) nv = mkZExt(nv, n * 8);
        news.push_back({x, fromE(mkIte(mkEq(so, mkConst(x, 64)), nv, toE(old)))});
    }
    if (news.size() == 1) { writeVal(wo, news[0].first, n, fromE(mkZExt(toE(v), n * 8))); return; }
    // overlapping candidate ranges would have to be composed; go byte by byte in that case
    bool overlap = false;
    for (size_t i = 1; i < offs.size(); ++i) if (offs[i] - offs[i - 1] < n) overlap = true;
    if (!overlap) { for (auto &p : news) writeVal(wo, p.first, n, p.second); return; }
    std::set<uint64_t> bytes;
    for (uint64_t x : offs) for (uint64_t k = 0; k < n; ++k) bytes.insert(x + k);
    E nv = toE(v); if (nv->w < n * 8) nv = mkZExt(nv, n * 8);
    std::vector<std::pair<uint64_t, E>> nb;
    for (uint64_t bt : bytes) {
        E cur = toE(readVal(wo, bt, 1, 8));
        for (uint64_t x : offs) if (bt >= x && bt < x + n) cur = mkIte(mkEq(so, mkConst(x, 64)), mkExtract(nv, 8 * (bt - x), 8), cur);
        nb.push_back({bt, cur});
    }
    for (auto &p : nb) writeByte(wo, p.first, p.second, 0);
}
static uint64_t concAddr(const Val &a, const char *why) { return concretize(a, why); }

static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    uint64_t so, dof; E x;
    Obj *src = resolve(Val(s, 64), n, false, so, x);
    Obj *dst = resolve(Val(d, 64), n, true, dof, x);
    // snapshot
    std::vector<uint8_t> cb(n); std::vector<E> eb;
    for (uint64_t k = 0; k < n;) {
        auto &p = src->pages[(so + k) / PAGE];
        uint64_t i = (so + k) % PAGE, m = std::min(n - k, PAGE - i);
        if (!p) memset(&cb[k], src->fill, m);
        else {
            memcpy(&cb[k], p->b.data() + i, m);
            if (!p->s.empty()) for (uint64_t j = 0; j < m; ++j) if (p->s[i + j]) { if (eb.empty()) eb.resize(n); eb[k + j] = p->s[i + j]; }
        }
        k += m;
    }
    dst = writableObj(*S, dst);
    for (uint64_t k = 0; k < n;) {
        Page *p = pageW(dst, (dof + k) / PAGE);
        uint64_t i = (dof + k) % PAGE, m = std::min(n - k, PAGE - i);
        memcpy(p->b.data() + i, &cb[k], m);
        if (!eb.empty()) {
            if (p->s.empty()) p->s.resize(p->b.size());
            for (uint64_t j = 0; j < m; ++j) p->s[i + j] = eb[k + j];
        } else if (!p->s.empty()) for (uint64_t j = 0; j < m; ++j) p->s[i + j] = nullptr;
        k += m;
    }
}
static void setMem(uint64_t d, const Val &v, uint64_t n) {
    if (!n) return;
    uint64_t dof; E x;
    Obj *dst = resolve(Val(d, 64), n, true, dof, x);
    dst = writableObj(*S, dst);
    if (!v.e && dof == 0 && n == dst->size) { dst->fill = (uint8_t)v.c; for (auto &p : dst->pages) p.reset(); return; }
    for (uint64_t k = 0; k < n; ++k) writeByte(dst, dof + k, v.e, (uint8_t)v.c);
}
static std::string cstr(uint64_t a) {
    std::string r;
    for (;;) {
        Val b = loadMem(Val(a++, 64), 1, 8);
        if (b.e) b = Val(concretize(b, "string"), 8);
        if (!b.c) break;
        r += (char)b.c;
        if (r.size() > 4096) break;
    }
    return r;
}

// ---------------------------------------------------------------- constants
static uint64_t addrOf(const GlobalValue *g);
static Val constVal(const Constant *c);
static unsigned widthOf(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty() || t->isFP128Ty()) return 128; // long double kept as a double in the low bits
    return 0;
}
static uint64_t dbits(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static double bitsd(uint64_t x) { double d; memcpy(&d, &x, 8); return d; }
static Val aggVal(std::vector<Val> v) { Val r; r.w = 0; r.ag = new std::vector<Val>(std::move(v)); return r; }
static Val zeroOf(Type *t) {
    if (unsigned w = widthOf(t)) { if (w > 64) return fromE(mkConst(0, w)); return Val(0, w); }
    std::vector<Val> v;
    if (auto *st = dyn_cast<StructType>(t)) for (auto *e : st->elements()) v.push_back(zeroOf(e));
    else if (auto *at = dyn_cast<ArrayType>(t)) for (uint64_t i = 0; i < at->getNumElements(); ++i) v.push_back(zeroOf(at->getElementType()));
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(zeroOf(vt->getElementType()));
    return aggVal(v);
}
static Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = ci->getBitWidth();
        if (w <= 64) return Val(ci->getZExtValue(), w);
        u128 v = ci->getValue().getRawData()[0];
        if (w > 64) v |= (u128)ci->getValue().getRawData()[1] << 64;
        return fromE(mkConst(v, w));
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
        if (c->getType()->isDoubleTy() || c->getType()->isFloatTy())
            return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(c->getType()));
        APFloat f = cf->getValueAPF(); bool li;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        return fromE(mkConst(dbits(f.convertToDouble()), 128));
    }
    if (isa<ConstantPointerNull>(c)) return Val(0, 64);
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
    if (auto *g = dyn_cast<GlobalValue>(c)) return Val(addrOf(g), 64);
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < c->getNumOperands(); ++i) v.push_back(constVal(cast<Constant>(c->getOperand(i))));
        return aggVal(v);
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        std::vector<Val> v;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i)));
        return aggVal(v);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        auto o = [&](unsigned i) { return constVal(cast<Constant>(ce->getOperand(i))); };
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) break;
            return Val(o(0).c + off.getSExtValue(), 64);
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt:
            return Val(o(0).c, widthOf(ce->getType()));
        case Instruction::Sub: return Val(o(0).c - o(1).c, widthOf(ce->getType()));
        case Instruction::Add: return Val(o(0).c + o(1).c, widthOf(ce->getType()));
        case Instruction::ICmp: {
            uint64_t a = o(0).c, b = o(1).c;
            switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return Val(a == b, 1); case CmpInst::ICMP_NE: return Val(a != b, 1); case CmpInst::ICMP_ULT: return Val(a < b, 1); case CmpInst::ICMP_UGT: return Val(a > b, 1); default: break; }
            break;
        }
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    throw PathEnd{"incomplete", "unsupported constant " + s};
}
static State *initState;
static std::vector<const GlobalVariable *> pendingInit;
static void initConst(uint64_t a, const Constant *c) {
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    Type *t = c->getType();
    if (auto *st = dyn_cast<StructType>(t)) {
        auto *sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < c->getNumOperands(); ++i) initConst(a + sl->getElementOffset(i), cast<Constant>(c->getOperand(i)));
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        StringRef raw = cd->getRawDataValues();
        Obj *o = writableObj(*S, findObj(*S, a));
        for (size_t i = 0; i < raw.size(); ++i) writeByte(o, a - o->base + i, nullptr, raw[i]);
        return;
    }
    if (isa<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType());
        for (unsigned i = 0; i < c->getNumOperands(); ++i) initConst(a + i * es, cast<Constant>(c->getOperand(i)));
        return;
    }
    Val v = constVal(c);
    Obj *o = findObj(*S, a);
    writeVal(writableObj(*S, o), a - o->base, DL->getTypeStoreSize(t), v);
}
// Globals are laid out on first use; every state must have them, so they are placed in all states up front (see layoutGlobals).
static uint64_t addrOf(const GlobalValue *g) {
    if (auto *al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee()).c;
    auto it = gaddr.find(g);
    if (it == gaddr.end()) throw PathEnd{"incomplete", "global without address " + g->getName().str()};
    return it->second;
}
static void layoutGlobals() {
    for (auto &F : *M) {
        if (F.isDeclaration() && F.hasExternalWeakLinkage()) { gaddr[&F] = 0; continue; }
        uint64_t a = allocObj(*S, 1, O_FUNC, 0, "function");
        gaddr[&F] = a;
        slotFunc[(uint32_t)(a >> SLOT_BITS)] = &F;
    }
    std::vector<GlobalVariable *> gs;
    for (auto &G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        if (G.isDeclaration() && G.hasExternalWeakLinkage()) { gaddr[&G] = 0; continue; }
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
        if (G.isDeclaration() && sz < 64) sz = 64;
        gaddr[&G] = allocObj(*S, sz, O_GLOBAL, 0, "global");
        gs.push_back(&G);
    }
    for (auto *G : gs) {
        if (G->hasInitializer()) {
            try { initConst(gaddr[G], G->getInitializer()); }
            catch (PathEnd &p) { fprintf(stderr, "global %s: %s\n", G->getName().str().c_str(), p.msg.c_str()); }
        }
        if (G->isConstant()) { Obj *o = writableObj(*S, findObj(*S, gaddr[G])); o->ro = true; }
    }
}

// ---------------------------------------------------------------- decoding
static void jump(Frame &f, uint32_t to);
#include "natives.inc"

static DFunc *decode(Function *F) {
    auto it = dfuncs.find(F);
    if (it != dfuncs.end()) return it->second;
    DFunc *D = new DFunc;
    dfuncs[F] = D;
    D->F = F;
    std::unordered_map<Value *, int> slot;
    std::unordered_map<BasicBlock *, uint32_t> bid;
    for (auto &A : F->args()) slot[&A] = D->nregs++;
    uint32_t b = 0;
    for (auto &BB : *F) {
        bid[&BB] = b++;
        for (auto &I : BB) if (!I.getType()->isVoidTy()) slot[&I] = D->nregs++;
    }
    D->blocks.resize(b);
    auto op = [&](Value *v) -> Op {
        Op o; o.slot = -1;
        if (auto *c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
        auto i = slot.find(v);
        if (i == slot.end()) { o.c = Val(0, 64); return o; } // metadata, inline asm, blocks
        o.slot = i->second;
        return o;
    };
    b = 0;
    for (auto &BB : *F) {
        DBlock &DB = D->blocks[b++];
        for (auto &I : BB) {
            if (isa<DbgInfoIntrinsic>(&I)) continue;
            DI d;
            d.opc = I.getOpcode();
            d.I = &I;
            if (!I.getType()->isVoidTy()) { d.dst = slot[&I]; d.w = widthOf(I.getType()); d.ty = I.getType(); }
            switch (d.opc) {
            case Instruction::PHI: {
                auto *P = cast<PHINode>(&I);
                for (unsigned k = 0; k < P->getNumIncomingValues(); ++k) d.phi.push_back({bid[P->getIncomingBlock(k)], op(P->getIncomingValue(k))});
                DB.nphi++;
                break;
            }
            case Instruction::GetElementPtr: {
                auto *G = cast<GetElementPtrInst>(&I);
                d.ops.push_back(op(G->getPointerOperand()));
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (StructType *st = gi.getStructTypeOrNull()) {
                        d.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    } else {
                        int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *ci = dyn_cast<ConstantInt>(ix)) d.off += sc * ci->getSExtValue();
                        else { d.idx.push_back({(int)d.ops.size(), sc}); d.ops.push_back(op(ix)); }
                    }
                }
                break;
            }
            case Instruction::Load: d.ops.push_back(op(I.getOperand(0))); d.size = DL->getTypeStoreSize(I.getType()); break;
            case Instruction::Store: d.ops.push_back(op(I.getOperand(0))); d.ops.push_back(op(I.getOperand(1))); d.ty = I.getOperand(0)->getType(); d.size = DL->getTypeStoreSize(d.ty); break;
            case Instruction::Alloca: d.ops.push_back(op(cast<AllocaInst>(&I)->getArraySize())); d.size = DL->getTypeAllocSize(cast<AllocaInst>(&I)->getAllocatedType()); break;
            case Instruction::Br: {
                auto *Br = cast<BranchInst>(&I);
                if (Br->isConditional()) d.ops.push_back(op(Br->getCondition()));
                for (unsigned k = 0; k < Br->getNumSuccessors(); ++k) d.succ.push_back(bid[Br->getSuccessor(k)]);
                break;
            }
            case Instruction::Switch: {
                auto *Sw = cast<SwitchInst>(&I);
                d.ops.push_back(op(Sw->getCondition()));
                d.succ.push_back(bid[Sw->getDefaultDest()]);
                for (auto &cs : Sw->cases()) d.cases.push_back({constVal(cs.getCaseValue()), bid[cs.getCaseSuccessor()]});
                break;
            }
            case Instruction::ICmp: case Instruction::FCmp:
                d.pred = cast<CmpInst>(&I)->getPredicate();
                d.ops.push_back(op(I.getOperand(0))); d.ops.push_back(op(I.getOperand(1)));
                break;
            case Instruction::Call: case Instruction::Invoke: {
                auto *CB = cast<CallBase>(&I);
                d.callee = CB->getCalledFunction();
                if (!d.callee) if (auto *al = dyn_cast<GlobalAlias>(CB->getCalledOperand())) d.callee = dyn_cast<Function>(al->getAliaseeObject());
                if (!d.callee) if (auto *fn = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts())) d.callee = fn;
                if (d.callee && !d.callee->isIntrinsic()) if (Function *sub = F->getParent()->getFunction(("sxsub_" + d.callee->getName()).str())) if (sub != F) d.callee = sub;
                for (auto &A : CB->args()) d.ops.push_back(op(A));
                if (!d.callee) d.ops.push_back(op(CB->getCalledOperand()));
                else if (d.callee->isIntrinsic()) d.intr = d.callee->getIntrinsicID();
                if (auto *inv = dyn_cast<InvokeInst>(&I)) { d.succ.push_back(bid[inv->getNormalDest()]); d.succ.push_back(bid[inv->getUnwindDest()]); }
                break;
            }
            case Instruction::ExtractValue: case Instruction::InsertValue:
                for (auto &o : I.operands()) d.ops.push_back(op(o));
                break;
            default:
                for (auto &o : I.operands()) d.ops.push_back(op(o));
            }
            DB.in.push_back(std::move(d));
        }
    }
    return D;
}

// ---------------------------------------------------------------- interpreter
static inline Val &R(Frame &f, const Op &o) { return o.slot < 0 ? const_cast<Val &>(o.c) : f.regs[o.slot]; }

static void popFrame(Thread &t) {
    Frame &f = t.st.back();
    for (uint32_t s : f.allocas) { slotW(*S, s).reset(); S->freeStack.push_back(s); }
    t.st.pop_back();
}
static void pushFrame(Thread &t, Function *F, const std::vector<Val> &args, bool stop) {
    if (t.st.size() > 3000) memErr("stack-overflow", "recursion deeper than 3000 frames");
    DFunc *D = decode(F);
    if (!D->counted) {
        D->counted = true;
        if (DISubprogram *sp = F->getSubprogram()) {
            StringRef fn = sp->getFilename();
            std::string full = fn.starts_with("/") ? fn.str() : (sp->getDirectory() + "/" + fn).str();
            execFuncs.insert(full + "\t" + shortName(F));
        }
    }
    t.st.emplace_back();
    Frame &f = t.st.back();
    f.f = D; f.blk = 0; f.idx = 0; f.prevBlk = 0; f.vaObj = 0; f.stop = stop;
    f.regs.resize(D->nregs);
    unsigned n = F->arg_size();
    for (unsigned i = 0; i < n && i < args.size(); ++i) {
        f.regs[i] = args[i];
        if (F->getArg(i)->hasByValAttr()) {
            uint64_t sz = DL->getTypeAllocSize(F->getArg(i)->getParamByValType());
            uint64_t a = allocObj(*S, sz, O_STACK, 0xAA, "byval argument");
            f.allocas.push_back((uint32_t)(a >> SLOT_BITS));
            copyMem(a, concAddr(args[i], "byval"), sz);
            f.regs[i] = Val(a, 64);
        }
    }
    for (unsigned i = n; i < args.size(); ++i) f.varargs.push_back(args[i]);
}
static void jump(Frame &f, uint32_t to) {
    DBlock &B = f.f->blocks[to];
    if (B.nphi) {
        Val tmp[64]; std::vector<Val> big; Val *v = tmp;
        if (B.nphi > 64) { big.resize(B.nphi); v = big.data(); }
        for (unsigned i = 0; i < B.nphi; ++i) {
            bool ok = false;
            for (auto &p : B.in[i].phi) if (p.first == f.blk) { v[i] = R(f, p.second); ok = true; break; }
            if (!ok) throw PathEnd{"incomplete", "phi"};
        }
        for (unsigned i = 0; i < B.nphi; ++i) f.regs[B.in[i].dst] = v[i];
    }
    f.prevBlk = f.blk; f.blk = to; f.idx = B.nphi;
}

// type_info hierarchy
static const GlobalVariable *gvAt(uint64_t a) {
    static std::unordered_map<uint64_t, const GlobalVariable *> rev;
    if (rev.empty()) for (auto &p : gaddr) if (auto *g = dyn_cast<GlobalVariable>(p.first)) rev[p.second] = g;
    auto it = rev.find(a);
    return it == rev.end() ? nullptr : it->second;
}
// offset of base inside derived, or -1
static int64_t baseOffset(const GlobalVariable *d, const GlobalVariable *b) {
    if (d == b) return 0;
    if (!d || !b) return -1;
    if (d->getName() == b->getName() && d->getName() != "") return 0;
    if (!d->hasInitializer()) return -1;
    auto *ci = dyn_cast<ConstantStruct>(d->getInitializer());
    if (!ci || ci->getNumOperands() < 3) return -1;
    auto *vt = dyn_cast<GlobalVariable>(ci->getOperand(0)->stripInBoundsOffsets());
    std::string vn = vt ? vt->getName().str() : "";
    if (vn.find("si_class_type_info") != std::string::npos)
        return baseOffset(d = dyn_cast<GlobalVariable>(ci->getOperand(2)->stripPointerCasts()), b);
    if (vn.find("vmi_class_type_info") != std::string::npos) {
        for (unsigned i = 4; i + 1 < ci->getNumOperands(); i += 2) {
            auto *bg = dyn_cast<GlobalVariable>(ci->getOperand(i)->stripPointerCasts());
            int64_t fl = cast<ConstantInt>(ci->getOperand(i + 1))->getSExtValue();
            int64_t o = baseOffset(bg, b);
            if (o >= 0 && !(fl & 1)) return (fl >> 8) + o;
        }
    }
    return -1;
}
static uint32_t typeId(uint64_t ti) { return (uint32_t)(ti >> SLOT_BITS); }

static void raise(uint64_t obj, uint64_t ti) {
    Thread &t = S->th[S->cur];
    for (;;) {
        if (t.st.empty()) throw PathEnd{"error:uncaught", "uncaught exception"};
        Frame &f = t.st.back();
        DI &d = f.f->blocks[f.blk].in[f.idx];
        if (d.opc == Instruction::Invoke) {
            uint32_t ub = d.succ[1];
            DBlock &B = f.f->blocks[ub];
            auto *lp = dyn_cast<LandingPadInst>(B.in[B.nphi].I);
            if (!lp) throw PathEnd{"incomplete", "unwind destination without landingpad"};
            int sel = -1;
            uint64_t adj = obj;
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (!lp->isCatch(i)) continue;
                Constant *cl = lp->getClause(i);
                if (isa<ConstantPointerNull>(cl)) { sel = 1; break; } // catch (...)
                uint64_t ca = constVal(cl).c;
                int64_t o = ca == ti ? 0 : baseOffset(gvAt(ti), gvAt(ca));
                if (o >= 0) { sel = typeId(ca); adj = obj + o; break; }
            }
            if (sel >= 0 || lp->isCleanup()) {
                jump(f, ub);
                t.cur = {obj, ti};
                Val a(adj, 64), b(sel < 0 ? 0 : sel, 32);
                (void)adj;
                f.regs[B.in[B.nphi].dst] = aggVal({Val(obj, 64), b});
                f.idx = B.nphi + 1;
                return;
            }
        }
        if (f.stop) throw PathEnd{"error:uncaught", "uncaught exception"};
        popFrame(t);
        if (t.st.empty()) throw PathEnd{"error:uncaught", "uncaught exception"};
    }
}

static Val binop(unsigned opc, const Val &a, const Val &b, unsigned w) {
    if (!a.e && !b.e && w <= 64) {
        uint64_t x = a.c, y = b.c;
        switch (opc) {
        case Instruction::Add: return Val(x + y, w);
        case Instruction::Sub: return Val(x - y, w);
        case Instruction::Mul: return Val(x * y, w);
        case Instruction::And: return Val(x & y, w);
        case Instruction::Or: return Val(x | y, w);
        case Instruction::Xor: return Val(x ^ y, w);
        case Instruction::Shl: return Val(y >= w ? 0 : x << y, w);
        case Instruction::LShr: return Val(y >= w ? 0 : x >> y, w);
        case Instruction::AShr: { int64_t s = (int64_t)sextOf(x, w); return Val((uint64_t)(y >= w ? (s < 0 ? -1 : 0) : s >> y), w); }
        default: break;
        }
    }
    Kind k;
    switch (opc) {
    case Instruction::Add: k = K_ADD; break;
    case Instruction::Sub: k = K_SUB; break;
    case Instruction::Mul: k = K_MUL; break;
    case Instruction::And: k = K_AND; break;
    case Instruction::Or: k = K_OR; break;
    case Instruction::Xor: k = K_XOR; break;
    case Instruction::Shl: k = K_SHL; break;
    case Instruction::LShr: k = K_LSHR; break;
    case Instruction::AShr: k = K_ASHR; break;
    case Instruction::UDiv: k = K_UDIV; break;
    case Instruction::SDiv: k = K_SDIV; break;
    case Instruction::URem: k = K_UREM; break;
    case Instruction::SRem: k = K_SREM; break;
    default: throw PathEnd{"incomplete", "binop"};
    }
    if (k >= K_UDIV && k <= K_SREM) {
        if (b.conc()) { if (!b.c) memErr("div-by-zero", "division by zero"); }
        else {
            Val z = fromE(mkEq(toE(b), mkConst(0, w)));
            if (decide(z)) memErr("div-by-zero", "division by zero");
        }
    }
    return fromE(mkBin(k, toE(a), toE(b)));
}
static Val icmp(unsigned p, const Val &a, const Val &b) {
    if (!a.e && !b.e) {
        uint64_t x = a.c, y = b.c;
        int64_t sx = (int64_t)sextOf(x, a.w), sy = (int64_t)sextOf(y, b.w);
        switch (p) {
        case CmpInst::ICMP_EQ: return Val(x == y, 1); case CmpInst::ICMP_NE: return Val(x != y, 1);
        case CmpInst::ICMP_ULT: return Val(x < y, 1); case CmpInst::ICMP_ULE: return Val(x <= y, 1);
        case CmpInst::ICMP_UGT: return Val(x > y, 1); case CmpInst::ICMP_UGE: return Val(x >= y, 1);
        case CmpInst::ICMP_SLT: return Val(sx < sy, 1); case CmpInst::ICMP_SLE: return Val(sx <= sy, 1);
        case CmpInst::ICMP_SGT: return Val(sx > sy, 1); case CmpInst::ICMP_SGE: return Val(sx >= sy, 1);
        }
    }
    E x = toE(a), y = toE(b);
    switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkBin(K_EQ, x, y)); case CmpInst::ICMP_NE: return fromE(mkNot(mkBin(K_EQ, x, y)));
    case CmpInst::ICMP_ULT: return fromE(mkBin(K_ULT, x, y)); case CmpInst::ICMP_ULE: return fromE(mkBin(K_ULE, x, y));
    case CmpInst::ICMP_UGT: return fromE(mkBin(K_ULT, y, x)); case CmpInst::ICMP_UGE: return fromE(mkBin(K_ULE, y, x));
    case CmpInst::ICMP_SLT: return fromE(mkBin(K_SLT, x, y)); case CmpInst::ICMP_SLE: return fromE(mkBin(K_SLE, x, y));
    case CmpInst::ICMP_SGT: return fromE(mkBin(K_SLT, y, x)); case CmpInst::ICMP_SGE: return fromE(mkBin(K_SLE, y, x));
    }
    throw PathEnd{"incomplete", "icmp"};
}
// long double values are carried as doubles in 128-bit registers (low 64 bits); only concrete ones are supported
static bool isLD(Type *t) { return t->isX86_FP80Ty() || t->isFP128Ty(); }
static Val ldVal(double d) { return fromE(mkConst(dbits(d), 128)); }
static double ldGet(const Val &v) { return bitsd((uint64_t)evalE(toE(v), *S->model)); }
static Val fcmp(unsigned p, const Val &a, const Val &b) {
    E x = toE(a), y = toE(b);
    E un = mkFp(K_FUNO, x, y, 1);
    auto base = [&](unsigned q) -> E { // ordered predicates
        switch (q) {
        case CmpInst::FCMP_OEQ: return mkFp(K_FOEQ, x, y, 1);
        case CmpInst::FCMP_OLT: return mkFp(K_FOLT, x, y, 1);
        case CmpInst::FCMP_OLE: return mkFp(K_FOLE, x, y, 1);
        case CmpInst::FCMP_OGT: return mkFp(K_FOLT, y, x, 1);
        case CmpInst::FCMP_OGE: return mkFp(K_FOLE, y, x, 1);
        case CmpInst::FCMP_ONE: return mkBin(K_AND, mkNot(un), mkNot(mkFp(K_FOEQ, x, y, 1)));
        default: return nullptr;
        }
    };
    switch (p) {
    case CmpInst::FCMP_FALSE: return Val(0, 1);
    case CmpInst::FCMP_TRUE: return Val(1, 1);
    case CmpInst::FCMP_ORD: return fromE(mkNot(un));
    case CmpInst::FCMP_UNO: return fromE(un);
    case CmpInst::FCMP_UEQ: return fromE(mkBin(K_OR, un, base(CmpInst::FCMP_OEQ)));
    case CmpInst::FCMP_UGT: return fromE(mkBin(K_OR, un, base(CmpInst::FCMP_OGT)));
    case CmpInst::FCMP_UGE: return fromE(mkBin(K_OR, un, base(CmpInst::FCMP_OGE)));
    case CmpInst::FCMP_ULT: return fromE(mkBin(K_OR, un, base(CmpInst::FCMP_OLT)));
    case CmpInst::FCMP_ULE: return fromE(mkBin(K_OR, un, base(CmpInst::FCMP_OLE)));
    case CmpInst::FCMP_UNE: return fromE(mkNot(mkFp(K_FOEQ, x, y, 1)));
    default: return fromE(base(p));
    }
}
static Val loadTyped(Type *t, const Val &a) {
    if (isLD(t)) { Val v = loadMem(a, 8, 64); return fromE(mkZExt(toE(v), 128)); }
    if (unsigned w = widthOf(t)) return loadMem(a, DL->getTypeStoreSize(t), w);
    std::vector<Val> v;
    uint64_t base = concAddr(a, "aggregate load");
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadTyped(st->getElementType(i), Val(base + sl->getElementOffset(i), 64))); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) v.push_back(loadTyped(at->getElementType(), Val(base + i * es, 64))); }
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(loadTyped(vt->getElementType(), Val(base + i * es, 64))); }
    else throw PathEnd{"incomplete", "load type"};
    return aggVal(v);
}
static void storeTyped(Type *t, const Val &a, const Val &x) {
    if (isLD(t)) { storeMem(a, 8, fromE(mkExtract(toE(x), 0, 64))); return; }
    if (widthOf(t)) { storeMem(a, DL->getTypeStoreSize(t), x); return; }
    uint64_t base = concAddr(a, "aggregate store");
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeTyped(st->getElementType(i), Val(base + sl->getElementOffset(i), 64), (*x.ag)[i]); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) storeTyped(at->getElementType(), Val(base + i * es, 64), (*x.ag)[i]); }
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) storeTyped(vt->getElementType(), Val(base + i * es, 64), (*x.ag)[i]); }
    else throw PathEnd{"incomplete", "store type"};
}
static Val fbin(unsigned opc, const Val &a, const Val &b, Type *t) {
    if (isLD(t)) {
        double x = ldGet(a), y = ldGet(b);
        switch (opc) { case Instruction::FAdd: return ldVal(x + y); case Instruction::FSub: return ldVal(x - y); case Instruction::FMul: return ldVal(x * y); case Instruction::FDiv: return ldVal(x / y); default: throw PathEnd{"incomplete", "long double op"}; }
    }
    unsigned w = widthOf(t);
    Kind k;
    switch (opc) {
    case Instruction::FAdd: k = K_FADD; break; case Instruction::FSub: k = K_FSUB; break;
    case Instruction::FMul: k = K_FMUL; break; case Instruction::FDiv: k = K_FDIV; break;
    default:
        if (a.conc() && b.conc() && w == 64) return Val(dbits(fmod(bitsd(a.c), bitsd(b.c))), 64);
        throw PathEnd{"incomplete", "frem"};
    }
    return fromE(mkFp(k, toE(a), toE(b), w));
}
static Val castOp(unsigned opc, const Val &a, Type *from, Type *to) {
    unsigned w = widthOf(to);
    switch (opc) {
    case Instruction::Trunc: return a.e ? fromE(mkExtract(a.e, 0, w)) : Val(a.c, w);
    case Instruction::ZExt: return (a.e || w > 64) ? fromE(mkZExt(toE(a), w)) : Val(a.c, w);
    case Instruction::SExt: return (a.e || w > 64) ? fromE(mkSExt(toE(a), w)) : Val((uint64_t)sextOf(a.c, a.w), w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return a.e ? fromE(mkZExt(a.e, w)) : Val(a.c, w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast:
        if (!w || !widthOf(from)) throw PathEnd{"incomplete", "vector bitcast"};
        return a;
    case Instruction::FPExt: case Instruction::FPTrunc:
        if (isLD(to)) { if (!a.conc()) throw PathEnd{"incomplete", "symbolic long double"}; float f; uint32_t u = a.c; memcpy(&f, &u, 4); return ldVal(a.w == 64 ? bitsd(a.c) : (double)f); }
        if (isLD(from)) { double d = ldGet(a); if (w == 64) return Val(dbits(d), 64); float f = d; uint32_t u; memcpy(&u, &f, 4); return Val(u, 32); }
        return fromE(mkFp(K_FPCAST, toE(a), nullptr, w));
    case Instruction::UIToFP: case Instruction::SIToFP:
        if (isLD(to)) { uint64_t v = concretize(a, "long double"); return ldVal(opc == Instruction::UIToFP ? (double)v : (double)(int64_t)sextOf(v, a.w)); }
        return fromE(mkFp(opc == Instruction::UIToFP ? K_UITOFP : K_SITOFP, toE(a), nullptr, w));
    case Instruction::FPToUI: case Instruction::FPToSI:
        if (isLD(from)) { double d = ldGet(a); return Val(opc == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d, w); }
        return fromE(mkFp(opc == Instruction::FPToUI ? K_FPTOUI : K_FPTOSI, toE(a), nullptr, w));
    }
    throw PathEnd{"incomplete", "cast"};
}

static bool intrinsic(DI &d, Frame &f);

// executes one instruction of the current thread
static void step() {
    Thread &t = S->th[S->cur];
    Frame &f = t.st.back();
    DI &d = f.f->blocks[f.blk].in[f.idx];
    S->steps++;
    switch (d.opc) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
    case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        if (!d.w) {
            Val &a = R(f, d.ops[0]), &b = R(f, d.ops[1]);
            std::vector<Val> v;
            for (size_t i = 0; i < a.ag->size(); ++i) v.push_back(binop(d.opc, (*a.ag)[i], (*b.ag)[i], (*a.ag)[i].w));
            f.regs[d.dst] = aggVal(v);
        } else { Val r = binop(d.opc, R(f, d.ops[0]), R(f, d.ops[1]), d.w); f.regs[d.dst] = r; }
        f.idx++; return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
        if (!d.w) throw PathEnd{"incomplete", "vector fp"};
        f.regs[d.dst] = fbin(d.opc, R(f, d.ops[0]), R(f, d.ops[1]), d.ty); f.idx++; return;
    }
    case Instruction::FNeg: {
        Val a = R(f, d.ops[0]);
        if (isLD(d.ty)) f.regs[d.dst] = ldVal(-ldGet(a));
        else f.regs[d.dst] = fromE(mkBin(K_XOR, toE(a), mkConst((u128)1 << (a.w - 1), a.w)));
        f.idx++; return;
    }
    case Instruction::ICmp: { 
        if (!R(f, d.ops[0]).w) {
            Val &a = R(f, d.ops[0]), &b = R(f, d.ops[1]);
            std::vector<Val> v;
            for (size_t i = 0; i < a.ag->size(); ++i) v.push_back(icmp(d.pred, (*a.ag)[i], (*b.ag)[i]));
            f.regs[d.dst] = aggVal(v);
        } else f.regs[d.dst] = icmp(d.pred, R(f, d.ops[0]), R(f, d.ops[1]));
        f.idx++; return; }
    case Instruction::FCmp: {
        Val a = R(f, d.ops[0]), b = R(f, d.ops[1]);
        if (a.w == 128) { a = Val(dbits(ldGet(a)), 64); b = Val(dbits(ldGet(b)), 64); }
        f.regs[d.dst] = fcmp(d.pred, a, b); f.idx++; return;
    }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: {
        Val a = R(f, d.ops[0]);
        if (!a.w) {
            if (d.opc == Instruction::BitCast) throw PathEnd{"incomplete", "vector bitcast"};
            auto *vt = cast<FixedVectorType>(d.ty);
            std::vector<Val> v;
            for (auto &x : *a.ag) v.push_back(castOp(d.opc, x, cast<FixedVectorType>(d.I->getOperand(0)->getType())->getElementType(), vt->getElementType()));
            f.regs[d.dst] = aggVal(v);
        } else { Val r = castOp(d.opc, a, d.I->getOperand(0)->getType(), d.ty); f.regs[d.dst] = r; }
        f.idx++; return;
    }
    case Instruction::GetElementPtr: {
        Val b = R(f, d.ops[0]);
        if (!b.w || !d.w) throw PathEnd{"incomplete", "vector gep"};
        bool sym = b.e;
        for (auto &x : d.idx) if (R(f, d.ops[x.first]).e) sym = true;
        if (!sym) {
            uint64_t a = b.c + d.off;
            for (auto &x : d.idx) { Val &v = R(f, d.ops[x.first]); a += (uint64_t)((int64_t)sextOf(v.c, v.w) * x.second); }
            f.regs[d.dst] = Val(a, 64);
        } else {
            E a = mkBin(K_ADD, toE(b), mkConst((uint64_t)d.off, 64));
            for (auto &x : d.idx) {
                E v = toE(R(f, d.ops[x.first]));
                v = v->w < 64 ? mkSExt(v, 64) : mkExtract(v, 0, 64);
                a = mkBin(K_ADD, a, mkBin(K_MUL, v, mkConst((uint64_t)x.second, 64)));
            }
            f.regs[d.dst] = fromE(a);
        }
        f.idx++; return;
    }
    case Instruction::Load: {
        Val a = R(f, d.ops[0]);
        Val r = d.w && d.w <= 64 ? loadMem(a, d.size, d.w) : loadTyped(d.ty, a);
        f.regs[d.dst] = r; f.idx++; return;
    }
    case Instruction::Store: {
        const Val &v = R(f, d.ops[0]);
        if (v.w && v.w <= 64) storeMem(R(f, d.ops[1]), d.size, v); else storeTyped(d.ty, R(f, d.ops[1]), v);
        f.idx++; return;
    }
    case Instruction::Alloca: {
        uint64_t n = concretize(R(f, d.ops[0]), "alloca size");
        uint64_t a = allocObj(*S, d.size * n, O_STACK, 0xAA, "stack variable");
        f.allocas.push_back((uint32_t)(a >> SLOT_BITS));
        f.regs[d.dst] = Val(a, 64); f.idx++; return;
    }
    case Instruction::Br: {
        if (d.succ.size() == 1) { jump(f, d.succ[0]); return; }
        Val c = R(f, d.ops[0]);
        if (c.e) nBranches++;
        bool b = decide(c);
        jump(top(), d.succ[b ? 0 : 1]);
        return;
    }
    case Instruction::Switch: {
        Val c = R(f, d.ops[0]);
        uint32_t to = d.succ[0];
        if (!c.e) { for (auto &k : d.cases) if (k.first.c == c.c) { to = k.second; break; } jump(f, to); return; }
        nBranches++;
        // group the values by destination, decide destination by destination
        uint64_t x = (uint64_t)evalE(c.e, *S->model);
        std::map<uint32_t, E> conds;
        E any = mkBool(false);
        for (auto &k : d.cases) {
            E q = mkEq(c.e, toE(k.first));
            any = mkBin(K_OR, any, q);
            auto it = conds.find(k.second);
            if (it == conds.end()) conds[k.second] = q; else it->second = mkBin(K_OR, it->second, q);
            if (k.first.c == x) to = k.second;
        }
        { auto it = conds.find(d.succ[0]); E q = mkNot(any); if (it == conds.end()) conds[d.succ[0]] = q; else it->second = mkBin(K_OR, it->second, q); }
        E mine = conds[to];
        for (auto &p : conds) if (p.first != to) {
            ModelP m;
            Res r = feasible(p.second, &m);
            if (r == R_SAT) { State *n = cloneState(); n->model = m; addPC(*n, p.second); work.emplace_back(n); }
            else if (r == R_UNKNOWN) incomplete("solver unknown: switch");
        }
        addPC(*S, mine);
        jump(f, to);
        return;
    }
    case Instruction::Select: {
        Val c = R(f, d.ops[0]), a = R(f, d.ops[1]), b = R(f, d.ops[2]);
        if (!c.w) {
            std::vector<Val> v;
            for (size_t i = 0; i < c.ag->size(); ++i) v.push_back(fromE(mkIte(toE((*c.ag)[i]), toE((*a.ag)[i]), toE((*b.ag)[i]))));
            f.regs[d.dst] = aggVal(v);
        }
        else if (!c.e) f.regs[d.dst] = c.c ? a : b;
        else if (!a.w) { bool x = decide(c); top().regs[d.dst] = x ? a : b; }
        else f.regs[d.dst] = fromE(mkIte(c.e, toE(a), toE(b)));
        f.idx++; return;
    }
    case Instruction::Freeze: f.regs[d.dst] = R(f, d.ops[0]); f.idx++; return;
    case Instruction::ExtractValue: {
        Val v = R(f, d.ops[0]);
        for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) v = Val((*v.ag)[i]);
        f.regs[d.dst] = v; f.idx++; return;
    }
    case Instruction::InsertValue: {
        Val agg = R(f, d.ops[0]); Val x = R(f, d.ops[1]);
        auto idx = cast<InsertValueInst>(d.I)->getIndices();
        std::function<Val(const Val &, unsigned)> ins = [&](const Val &a, unsigned i) -> Val {
            std::vector<Val> v = *a.ag;
            v[idx[i]] = i + 1 == idx.size() ? x : ins(v[idx[i]], i + 1);
            return aggVal(v);
        };
        f.regs[d.dst] = ins(agg, 0); f.idx++; return;
    }
    case Instruction::ExtractElement: { Val v = R(f, d.ops[0]); f.regs[d.dst] = (*v.ag)[concretize(R(f, d.ops[1]), "vector index")]; f.idx++; return; }
    case Instruction::InsertElement: {
        std::vector<Val> v = *R(f, d.ops[0]).ag; v[concretize(R(f, d.ops[2]), "vector index")] = R(f, d.ops[1]);
        f.regs[d.dst] = aggVal(v); f.idx++; return;
    }
    case Instruction::ShuffleVector: {
        auto *sv = cast<ShuffleVectorInst>(d.I);
        std::vector<Val> &a = *R(f, d.ops[0]).ag, &b = *R(f, d.ops[1]).ag, v;
        for (int m : sv->getShuffleMask()) v.push_back(m < 0 ? a[0] : (size_t)m < a.size() ? a[m] : b[m - a.size()]);
        f.regs[d.dst] = aggVal(v); f.idx++; return;
    }
    case Instruction::AtomicRMW: {
        auto *a = cast<AtomicRMWInst>(d.I);
        Val p = R(f, d.ops[0]), x = R(f, d.ops[1]);
        uint64_t sz = DL->getTypeStoreSize(d.ty);
        Val old = loadMem(p, sz, d.w), nv;
        switch (a->getOperation()) {
        case AtomicRMWInst::Xchg: nv = x; break;
        case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, x, d.w); break;
        case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, x, d.w); break;
        case AtomicRMWInst::And: nv = binop(Instruction::And, old, x, d.w); break;
        case AtomicRMWInst::Or: nv = binop(Instruction::Or, old, x, d.w); break;
        default: throw PathEnd{"incomplete", "atomicrmw"};
        }
        storeMem(p, sz, nv);
        f.regs[d.dst] = old; f.idx++; return;
    }
    case Instruction::AtomicCmpXchg: {
        Val p = R(f, d.ops[0]), c = R(f, d.ops[1]), n = R(f, d.ops[2]);
        uint64_t sz = DL->getTypeStoreSize(d.I->getOperand(1)->getType());
        Val old = loadMem(p, sz, c.w);
        bool eq = decide(icmp(CmpInst::ICMP_EQ, old, c));
        if (eq) storeMem(p, sz, n);
        top().regs[d.dst] = aggVal({old, Val(eq, 1)}); top().idx++; return;
    }
    case Instruction::Fence: f.idx++; return;
    case Instruction::VAArg: throw PathEnd{"incomplete", "va_arg"};
    case Instruction::Unreachable: memErr("unreachable", "unreachable code reached");
    case Instruction::Resume: {
        Val v = R(f, d.ops[0]);
        uint64_t obj = (*v.ag)[0].c;
        uint64_t ti = S->excTI[obj];
        if (f.stop) throw PathEnd{"error:uncaught", "uncaught exception"};
        popFrame(t);
        raise(obj, ti);
        return;
    }
    case Instruction::Ret: {
        Val rv; bool has = !d.ops.empty();
        if (has) rv = R(f, d.ops[0]);
        bool stop = f.stop;
        popFrame(t);
        if (stop) { t.done = true; throw PathEnd{"threadend", ""}; }
        Frame &g = t.st.back();
        DI &c = g.f->blocks[g.blk].in[g.idx];
        if (c.dst >= 0 && has) g.regs[c.dst] = rv;
        if (c.opc == Instruction::Invoke) jump(g, c.succ[0]); else g.idx++;
        return;
    }
    case Instruction::Call: case Instruction::Invoke: {
        if (d.intr) {
            if (intrinsic(d, f)) {
                Frame &g = top();
                if (d.opc == Instruction::Invoke) jump(g, d.succ[0]); else g.idx++;
            }
            return;
        }
        Function *callee = d.callee;
        if (!callee) {
            uint64_t a = concretize(R(f, d.ops.back()), "indirect call");
            auto it = slotFunc.find((uint32_t)(a >> SLOT_BITS));
            if (it == slotFunc.end() || (a & ((1ull << SLOT_BITS) - 1)) != 0x1000) memErr("wild-call", "call through an invalid function pointer");
            callee = it->second;
        }
        std::vector<Val> args;
        size_t n = d.callee ? d.ops.size() : d.ops.size() - 1;
        args.reserve(n);
        for (size_t i = 0; i < n; ++i) args.push_back(R(f, d.ops[i]));
        int nat;
        if (d.callee && d.native != -1) nat = d.native; else { nat = nativeId(callee); if (d.callee) d.native = nat; }
        if (nat >= 0) {
            Val r; 
            bool cont = natives[nat].fn(args, r, d);
            if (cont) {
                Frame &g = top();
                if (d.dst >= 0) { if (r.w && d.w && r.w != d.w && d.w <= 64) r = r.e ? fromE(mkZExt(r.e, d.w)) : Val(r.c, d.w); g.regs[d.dst] = r; }
                if (d.opc == Instruction::Invoke) jump(g, d.succ[0]); else g.idx++;
            }
            return;
        }
        if (callee->isDeclaration()) throw PathEnd{"incomplete", "call to external function " + callee->getName().str()};
        pushFrame(t, callee, args, false);
        return;
    }
    default: {
        std::string s; raw_string_ostream os(s); d.I->print(os);
        throw PathEnd{"incomplete", "unsupported instruction " + s};
    }
    }
}

static bool intrinsic(DI &d, Frame &f) {
    auto A = [&](unsigned i) -> Val & { return R(f, d.ops[i]); };
    auto set = [&](const Val &v) { if (d.dst >= 0) top().regs[d.dst] = v; };
    switch (d.intr) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        Val dd = A(0), ss = A(1), nn = A(2);
        if (dd.e || ss.e || nn.e) { // concretise one at a time (restartable)
            uint64_t n = concretize(nn, "memcpy size"); uint64_t a = concretize(dd, "memcpy dst"); uint64_t b = concretize(ss, "memcpy src");
            copyMem(a, b, n);
        } else copyMem(dd.c, ss.c, nn.c);
        return true;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(A(2), "memset size"); uint64_t a = concretize(A(0), "memset dst"); setMem(a, A(1), n); return true; }
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::vaend:
        if (d.dst >= 0) set(Val(0, d.w ? d.w : 64));
        return true;
    case Intrinsic::stacksave: set(Val(0, 64)); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: set(A(0)); return true;
    case Intrinsic::threadlocal_address: set(A(0)); return true;
    case Intrinsic::is_constant: set(Val(0, 1)); return true;
    case Intrinsic::objectsize: set(Val(~0ull, d.w)); return true;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        unsigned p = d.intr == Intrinsic::umax ? CmpInst::ICMP_UGT : d.intr == Intrinsic::umin ? CmpInst::ICMP_ULT : d.intr == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
        Val a = A(0), b = A(1); Val c = icmp(p, a, b);
        set(c.e ? fromE(mkIte(c.e, toE(a), toE(b))) : c.c ? a : b);
        return true;
    }
    case Intrinsic::abs: { Val a = A(0); Val c = icmp(CmpInst::ICMP_SLT, a, Val(0, a.w)); Val n = binop(Instruction::Sub, Val(0, a.w), a, a.w); set(c.e ? fromE(mkIte(c.e, toE(n), toE(a))) : c.c ? n : a); return true; }
    case Intrinsic::uadd_sat: { Val a = A(0), b = A(1); Val s = binop(Instruction::Add, a, b, a.w); Val c = icmp(CmpInst::ICMP_ULT, s, a); set(fromE(mkIte(toE(c), mkConst(~(u128)0, a.w), toE(s)))); return true; }
    case Intrinsic::usub_sat: { Val a = A(0), b = A(1); Val s = binop(Instruction::Sub, a, b, a.w); Val c = icmp(CmpInst::ICMP_ULT, a, b); set(fromE(mkIte(toE(c), mkConst(0, a.w), toE(s)))); return true; }
    case Intrinsic::uadd_with_overflow: { Val a = A(0), b = A(1); Val s = binop(Instruction::Add, a, b, a.w); set(aggVal({s, icmp(CmpInst::ICMP_ULT, s, a)})); return true; }
    case Intrinsic::usub_with_overflow: { Val a = A(0), b = A(1); set(aggVal({binop(Instruction::Sub, a, b, a.w), icmp(CmpInst::ICMP_ULT, a, b)})); return true; }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow: {
        Val a = A(0), b = A(1); unsigned w = a.w;
        if (w > 64) throw PathEnd{"incomplete", "wide overflow op"};
        bool sg = d.intr != Intrinsic::umul_with_overflow;
        E x = sg ? mkSExt(toE(a), 2 * w) : mkZExt(toE(a), 2 * w), y = sg ? mkSExt(toE(b), 2 * w) : mkZExt(toE(b), 2 * w);
        E r = mkBin(d.intr == Intrinsic::sadd_with_overflow ? K_ADD : d.intr == Intrinsic::ssub_with_overflow ? K_SUB : K_MUL, x, y);
        E lo = mkExtract(r, 0, w);
        E back = sg ? mkSExt(lo, 2 * w) : mkZExt(lo, 2 * w);
        set(aggVal({fromE(lo), fromE(mkNot(mkEq(r, back)))}));
        return true;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Val a = A(0), b = A(1); unsigned w = a.w; uint64_t s = concretize(A(2), "funnel shift") % w;
        if (d.intr == Intrinsic::fshr) s = (w - s) % w, (void)0;
        if (d.intr == Intrinsic::fshr && s == 0) { set(b); return true; }
        if (s == 0) { set(a); return true; }
        set(fromE(mkBin(K_OR, mkBin(K_SHL, toE(a), mkConst(s, w)), mkBin(K_LSHR, toE(b), mkConst(w - s, w)))));
        return true;
    }
    case Intrinsic::bswap: { Val a = A(0); E r = nullptr; for (unsigned k = 0; k < a.w / 8; ++k) { E b = mkExtract(toE(a), 8 * k, 8); r = r ? mkConcat(r, b) : b; } set(fromE(r)); return true; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        Val a = A(0);
        if (a.e) {
            E x = a.e, r;
            if (d.intr == Intrinsic::ctpop) { r = mkConst(0, a.w); for (unsigned i = 0; i < a.w; ++i) r = mkBin(K_ADD, r, mkZExt(mkExtract(x, i, 1), a.w)); }
            else {
                r = mkConst(a.w, a.w);
                for (unsigned i = 0; i < a.w; ++i) { // the last matching bit tested wins
                    unsigned bit = d.intr == Intrinsic::ctlz ? i : a.w - 1 - i;
                    r = mkIte(mkExtract(x, bit, 1), mkConst(d.intr == Intrinsic::ctlz ? a.w - 1 - bit : bit, a.w), r);
                }
            }
            set(fromE(r)); return true;
        }
        uint64_t r = d.intr == Intrinsic::ctpop ? __builtin_popcountll(a.c) : a.c == 0 ? a.w : d.intr == Intrinsic::cttz ? __builtin_ctzll(a.c) : __builtin_clzll(a.c) - (64 - a.w);
        set(Val(r, a.w)); return true;
    }
    case Intrinsic::fabs: { Val a = A(0); if (a.w == 128) set(ldVal(std::fabs(ldGet(a)))); else set(fromE(mkBin(K_AND, toE(a), mkConst(maskOf(a.w - 1), a.w)))); return true; }
    case Intrinsic::fmuladd: case Intrinsic::fma: set(fbin(Instruction::FAdd, fbin(Instruction::FMul, A(0), A(1), d.ty), A(2), d.ty)); return true;
    case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::log2: case Intrinsic::log10: case Intrinsic::round: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::pow: case Intrinsic::powi: case Intrinsic::maxnum: case Intrinsic::minnum: {
        Val a = A(0);
        if (a.e && a.w <= 64) throw PathEnd{"incomplete", "symbolic argument of a math function"};
        float ff; uint32_t u = (uint32_t)a.c; memcpy(&ff, &u, 4);
        double x = a.w == 128 ? ldGet(a) : a.w == 64 ? bitsd(a.c) : ff, y = 0;
        if (d.intr == Intrinsic::pow || d.intr == Intrinsic::maxnum || d.intr == Intrinsic::minnum) { Val b = A(1); float g; uint32_t q = (uint32_t)b.c; memcpy(&g, &q, 4); y = b.w == 64 ? bitsd(b.c) : g; }
        if (d.intr == Intrinsic::powi) y = (int32_t)A(1).c;
        double r;
        switch (d.intr) {
        case Intrinsic::sqrt: r = std::sqrt(x); break; case Intrinsic::floor: r = std::floor(x); break; case Intrinsic::ceil: r = std::ceil(x); break;
        case Intrinsic::log: r = std::log(x); break; case Intrinsic::exp: r = std::exp(x); break; case Intrinsic::sin: r = std::sin(x); break; case Intrinsic::cos: r = std::cos(x); break;
        case Intrinsic::log2: r = std::log2(x); break; case Intrinsic::log10: r = std::log10(x); break; case Intrinsic::round: r = std::round(x); break; case Intrinsic::trunc: r = std::trunc(x); break; case Intrinsic::rint: r = std::rint(x); break;
        case Intrinsic::maxnum: r = std::fmax(x, y); break; case Intrinsic::minnum: r = std::fmin(x, y); break;
        default: r = std::pow(x, y);
        }
        if (a.w == 128) set(ldVal(r)); else if (a.w == 64) set(Val(dbits(r), 64)); else { float g = r; uint32_t q; memcpy(&q, &g, 4); set(Val(q, 32)); }
        return true;
    }
    case Intrinsic::eh_typeid_for: set(Val(typeId(A(0).c), 32)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: memErr("trap", "trap");
    case Intrinsic::vastart: {
        uint64_t a = concAddr(A(0), "va_list");
        uint64_t area = allocObj(*S, std::max<size_t>(1, f.varargs.size()) * 8, O_STACK, 0, "varargs");
        f.allocas.push_back((uint32_t)(area >> SLOT_BITS));
        for (size_t i = 0; i < f.varargs.size(); ++i) storeMem(Val(area + 8 * i, 64), 8, f.varargs[i].w < 64 ? fromE(mkZExt(toE(f.varargs[i]), 64)) : f.varargs[i]);
        storeMem(Val(a, 64), 4, Val(48, 32)); storeMem(Val(a + 4, 64), 4, Val(176, 32)); storeMem(Val(a + 8, 64), 8, Val(area, 64)); storeMem(Val(a + 16, 64), 8, Val(area, 64));
        return true;
    }
    case Intrinsic::vacopy: copyMem(concAddr(A(0), "va"), concAddr(A(1), "va"), 24); return true;
    case Intrinsic::load_relative: { uint64_t p = A(0).c; Val o = loadMem(Val(p + A(1).c, 64), 4, 32); set(Val(p + (int64_t)(int32_t)o.c, 64)); return true; }
    default: break;
    }
    throw PathEnd{"incomplete", "intrinsic " + d.callee->getName().str()};
}

// ---------------------------------------------------------------- driver
static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static std::string outFile, entry;
static void writeInputs(std::ostream &o, const std::vector<std::pair<std::string, std::pair<unsigned, u128>>> &in) {
    o << "[";
    for (size_t i = 0; i < in.size(); ++i) o << (i ? "," : "") << "[\"" << jesc(in[i].first) << "\"," << in[i].second.first << ",\"" << u128str(in[i].second.second) << "\"]";
    o << "]";
}
static void report(bool exhausted, const std::string &stopReason) {
    std::ofstream o(outFile);
    o << "{\"entry\":\"" << entry << "\",\"exhausted\":" << (exhausted ? "true" : "false") << ",\"stop\":\"" << jesc(stopReason) << "\",\n";
    o << "\"params\":{"; { bool c = false; for (auto &p : params) { o << (c ? "," : "") << "\"" << p.first << "\":" << p.second; c = true; } } o << "},\n";
    o << "\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"instructions\":" << totalSteps << ",\"symbolic_branches\":" << nBranches << ",\"exprs\":" << exprCount() << ",\n";
    o << "\"wall\":" << now() << ",\"solver\":{\"queries\":" << g_sstats.queries << ",\"cache_hits\":" << g_sstats.cacheHits << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown << ",\"secs\":" << g_sstats.secs << ",\"max_query\":" << g_sstats.maxq << "},\n";
    auto mp = [&](const char *n, const std::map<std::string, uint64_t> &m) { o << "\"" << n << "\":{"; bool c = false; for (auto &p : m) { o << (c ? "," : "") << "\"" << jesc(p.first) << "\":" << p.second; c = true; } o << "},\n"; };
    mp("ends", ends); mp("incomplete", incompletes); mp("reach", reaches);
    o << "\"asserts\":{"; { bool c = false; for (auto &p : asserts) { o << (c ? "," : "") << "\"" << jesc(p.first) << "\":{\"checked\":" << p.second.checked << ",\"constant\":" << p.second.constTrue << ",\"proved\":" << p.second.proved << ",\"failed\":" << p.second.failed << ",\"unknown\":" << p.second.unknown << "}"; c = true; } } o << "},\n";
    o << "\"functions\":["; { bool c = false; for (auto &p : execFuncs) { o << (c ? "," : "") << "\"" << jesc(p) << "\""; c = true; } } o << "],\n";
    o << "\"violations\":[";
    for (size_t i = 0; i < viols.size(); ++i) {
        auto &v = viols[i];
        o << (i ? ",\n" : "\n") << "{\"kind\":\"" << jesc(v.kind) << "\",\"label\":\"" << jesc(v.label) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"loc\":\"" << jesc(v.loc) << "\",\"count\":" << violCount[v.kind + ":" + v.label] << ",\"stack\":[";
        for (size_t k = 0; k < v.stack.size(); ++k) o << (k ? "," : "") << "\"" << jesc(v.stack[k]) << "\"";
        o << "],\"inputs\":"; writeInputs(o, v.inputs); o << "}";
    }
    o << "],\n\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i) { o << (i ? ",\n" : "\n") << "{\"hash\":\"" << samples[i].hash << "\",\"nobs\":" << samples[i].nobs << ",\"inputs\":"; writeInputs(o, samples[i].inputs); o << "}"; }
    o << "]}\n";
}
static size_t rssMB() {
    FILE *f = fopen("/proc/self/statm", "r");
    if (!f) return 0;
    long a, b = 0;
    if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0;
    fclose(f);
    return (size_t)b * 4096 / 1048576;
}

static void endPath(State *s, const PathEnd &p) {
    ends[p.kind.compare(0, 6, "error:") == 0 ? p.kind : p.kind]++;
    nPaths++;
    totalSteps += s->steps;
    if (p.kind == "done") {
        for (auto &r : s->reached) reaches[r]++;
        // reservoir of completed paths, replayed natively by the driver
        sampleSeen++;
        size_t k = samples.size();
        if (k >= maxSamples) { uint64_t j = rnd() % sampleSeen; if (j < maxSamples) k = j; else return; }
        else samples.emplace_back();
        Sample &sm = samples[k];
        sm.inputs.clear();
        for (auto &i : s->inputs) sm.inputs.push_back({i.name, {i.sym->w, evalE(i.sym, *s->model)}});
        uint64_t h = 1469598103934665603ull;
        for (auto &v : s->obs) { uint64_t x = v.e ? (uint64_t)evalE(v.e, *s->model) : v.c; for (int b = 0; b < 8; ++b) { h ^= (x >> (8 * b)) & 255; h *= 1099511628211ull; } }
        sm.hash = h; sm.nobs = s->obs.size();
    } else if (p.kind == "incomplete") {
        incompletes[p.msg]++;
        if (verbose) { fprintf(stderr, "INCOMPLETE %s\n", p.msg.c_str()); for (auto &l : stackTrace()) fprintf(stderr, "    %s\n", l.c_str()); }
    } else if (p.kind.compare(0, 6, "error:") == 0) {
        recordViolation(p.kind.substr(6), siteName(), p.msg, s->model);
    }
}

int main(int argc, char **argv) {
    T0 = std::chrono::steady_clock::now();
    const char *bc = nullptr, *dump = nullptr;
    unsigned rlimit = 400000000;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx();
        else if (a == "--param") { std::string p = nx(); size_t e = p.find('='); params[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
        else if (a == "--out") outFile = nx();
        else if (a == "--max-time") maxTime = atof(argv[++i]);
        else if (a == "--max-steps") maxSteps = atoll(argv[++i]);
        else if (a == "--max-paths") maxPaths = atoll(argv[++i]);
        else if (a == "--samples") maxSamples = atoi(argv[++i]);
        else if (a == "--seed") { rng ^= (uint64_t)atoll(argv[++i]) * 0x9E3779B97F4A7C15ull; if (!rng) rng = 1; }
        else if (a == "--mem") memLimitMB = atoll(argv[++i]);
        else if (a == "--rlimit") rlimit = atoll(argv[++i]);
        else if (a == "--dump") dump = argv[++i];
        else if (a == "-v") verbose = true;
        else bc = argv[i];
    }
    LLVMContext C;
    SMDiagnostic err;
    auto mod = parseIRFile(bc, err, C);
    if (!mod) { err.print("symx", errs()); return 2; }
    M = mod.get();
    DL = &M->getDataLayout();
    solverInit(rlimit, dump);
    registerNatives();
    S = new State;
    S->model = newModel(nullptr);
    layoutGlobals();
    Function *F = M->getFunction(entry);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
    // the constructors, then the harness, as a list of top-level calls
    std::vector<Function *> seq;
    if (auto *gc = M->getGlobalVariable("llvm.global_ctors")) if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, Function *>> v;
        for (auto &o : arr->operands()) { auto *cs = cast<ConstantStruct>(o); if (auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn}); }
        std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
        for (auto &p : v) seq.push_back(p.second);
    }
    for (auto *fn : seq) {
        try { pushFrame(S->th[0], fn, {}, true); for (;;) step(); }
        catch (PathEnd &p) {
            if (p.kind != "threadend") { fprintf(stderr, "constructor %s: %s %s\n", fn->getName().str().c_str(), p.kind.c_str(), p.msg.c_str()); if (verbose) for (auto &l : stackTrace()) fprintf(stderr, "    %s\n", l.c_str()); S->th[0].st.clear(); incomplete("constructor: " + p.msg); }
        }
    }
    execFuncs.clear();
    for (auto &p : dfuncs) p.second->counted = false;
    S->th[0] = Thread();
    S->steps = 0;
    pushFrame(S->th[0], F, {}, true);
    work.emplace_back(S);
    S = nullptr;
    std::string stop = "exhausted";
    bool exhausted = true;
    uint64_t tick = 0;
    while (!work.empty()) {
        std::unique_ptr<State> st = std::move(work.back());
        work.pop_back();
        S = st.get();
        try {
            for (;;) {
                step();
                if ((++tick & 1023) == 0) {
                    if (now() > maxTime) { stop = "time"; exhausted = false; break; }
                    if (S->steps > maxSteps) throw PathEnd{"error:nontermination", "path longer than " + std::to_string(maxSteps) + " instructions"};
                    if ((tick & 0xfffff) == 0 && rssMB() > memLimitMB) { stop = "memory"; exhausted = false; break; }
                }
            }
        } catch (PathEnd &p) {
            if (p.kind == "threadend") {
                if (S->cur == 0) endPath(S, PathEnd{"done", ""});
                else endPath(S, PathEnd{"incomplete", "thread returned without switching"});
            } else endPath(S, p);
        }
        if (!exhausted) break;
        if (nPaths >= maxPaths) { if (!work.empty()) { stop = "paths"; exhausted = false; } break; }
        if (viols.size() >= maxViol) { stop = "violations"; exhausted = work.empty(); break; }
        if (now() > maxTime && !work.empty()) { stop = "time"; exhausted = false; break; }
    }
    if (!outFile.empty()) report(exhausted, stop);
    fprintf(stderr, "%s: paths=%lu forks=%lu instr=%lu queries=%lu (%.2fs, max %.2f) cache=%lu viol=%zu incomplete=%zu %s wall=%.2f\n", entry.c_str(), nPaths, nForks, totalSteps, g_sstats.queries, g_sstats.secs, g_sstats.maxq, g_sstats.cacheHits, viols.size(), incompletes.size(), stop.c_str(), now());
    for (auto &p : incompletes) fprintf(stderr, "  incomplete: %s x%lu\n", p.first.c_str(), p.second);
    for (auto &p : forkAt) fprintf(stderr, "  fork x%lu %s\n", p.second, p.first.c_str());
    fflush(nullptr);
    _exit(0);
}
