#pragma once
#include "expr.h"
#include "solver.h"
#include <array>
#include <map>
#include <set>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>

struct Val {
    E e;            // symbolic (or wide constant) term, null when concrete
    uint64_t c;     // concrete value (w <= 64)
    uint16_t w;     // bits; 0 = aggregate
    std::vector<Val> *ag;
    Val() : e(nullptr), c(0), w(1), ag(nullptr) {}
    Val(uint64_t c, unsigned w) : e(nullptr), c(w >= 64 ? c : c & ((1ull << w) - 1)), w(w), ag(nullptr) {}
    bool conc() const { return !e && w; }
};
inline E toE(const Val &v) { return v.e ? v.e : mkConst(v.c, v.w); }
inline Val fromE(E e) {
    Val v;
    v.w = e->w;
    if (isC(e) && e->w <= 64) v.c = (uint64_t)e->v; else v.e = e;
    return v;
}

static const unsigned SLOT_BITS = 24;
static const unsigned CHUNK = 128;
static const uint64_t PAGE = 1024;

struct Page {
    std::vector<uint8_t> b;
    std::vector<E> s;      // empty, or one entry per byte (null = concrete)
};
enum ObjKind : uint8_t { O_HEAP, O_STACK, O_GLOBAL, O_FUNC };
struct Obj {
    uint64_t base, size;
    ObjKind kind;
    bool ro, freed;
    uint8_t fill;
    uint32_t nslots;
    std::vector<std::shared_ptr<Page>> pages;
    const char *what;
};
typedef std::shared_ptr<Obj> ObjP;
struct Chunk { std::array<ObjP, CHUNK> o; };

struct DFunc;
struct Frame {
    DFunc *f;
    uint32_t blk, idx, prevBlk;
    std::vector<Val> regs;
    std::vector<uint32_t> allocas;   // slots
    std::vector<Val> varargs;
    uint64_t vaObj;
    bool stop;                       // returning from this frame ends the nested call of a thread or constructor
};
struct Exc { uint64_t obj; uint64_t ti; };
struct Thread {
    std::vector<Frame> st;
    std::vector<Exc> caught;
    Exc cur{0, 0};
    bool done = false;
};
struct Input { std::string name; E sym; };

struct State {
    std::vector<std::shared_ptr<Chunk>> mem;
    uint32_t nextSlot = 1;
    std::vector<uint32_t> freeStack;
    std::vector<Thread> th{1};
    unsigned cur = 0;
    std::vector<E> pc;
    std::set<uint32_t> pcIds;
    ModelP model;
    std::vector<Input> inputs;
    std::vector<Val> obs;
    std::map<uint64_t, uint64_t> excTI;       // exception object -> type info
    std::vector<std::string> reached;
    uint64_t steps = 0;
    unsigned depth = 0;
};
