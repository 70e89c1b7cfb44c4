#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cassert>
#include <unordered_map>
#include <unordered_set>
#include <map>

std::vector<SymInfo> g_syms;
static uint64_t g_modelId = 1;
ModelP newModel(const Model *base) {
    ModelP m = std::make_shared<Model>();
    if (base) m->vals = base->vals;
    m->id = ++g_modelId;
    return m;
}

namespace {
struct Key { Kind k; uint16_t w; uint32_t off; E a, b, c; u128 v; };
struct Hash {
    size_t operator()(const Expr *e) const {
        uint64_t h = e->k * 0x9E3779B97F4A7C15ull + e->w;
        auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
        mix(e->off);
        mix(e->a ? e->a->id : 0); mix(e->b ? e->b->id : 0); mix(e->c ? e->c->id : 0);
        mix((uint64_t)e->v); mix((uint64_t)(e->v >> 64));
        return h ^ (h >> 29);
    }
};
struct Eq {
    bool operator()(const Expr *x, const Expr *y) const {
        return x->k == y->k && x->w == y->w && x->off == y->off && x->a == y->a && x->b == y->b && x->c == y->c && x->v == y->v;
    }
};
std::unordered_set<const Expr *, Hash, Eq> table;
uint32_t nextId = 1;
Expr *pool = nullptr;
size_t poolLeft = 0;
Expr *freshNode() {
    if (!poolLeft) { poolLeft = 4096; pool = (Expr *)calloc(poolLeft, sizeof(Expr)); }
    poolLeft--;
    return pool++;
}

void computeInterval(Expr *e) {
    u128 M = maskOf(e->w);
    e->lo = 0; e->hi = M;
    if (e->w > 64 && e->k != K_CONST && e->k != K_ZEXT) return;
    switch (e->k) {
    case K_CONST: e->lo = e->hi = e->v; break;
    case K_SYM: e->lo = g_syms[e->off].lo; e->hi = g_syms[e->off].hi; break;
    case K_ZEXT: e->lo = e->a->lo; e->hi = e->a->hi; break;
    case K_SEXT:
        if (e->a->hi < ((u128)1 << (e->a->w - 1))) { e->lo = e->a->lo; e->hi = e->a->hi; }
        break;
    case K_ADD:
        if (e->a->hi + e->b->hi <= M) { e->lo = e->a->lo + e->b->lo; e->hi = e->a->hi + e->b->hi; }
        else if (isC(e->b) && e->a->lo + e->b->v > M) { // always wraps (adding a negative constant)
            e->lo = (e->a->lo + e->b->v) & M; e->hi = (e->a->hi + e->b->v) & M;
        }
        break;
    case K_SUB:
        if (e->a->lo >= e->b->hi) { e->lo = e->a->lo - e->b->hi; e->hi = e->a->hi - e->b->lo; }
        break;
    case K_MUL:
        if (e->a->hi == 0 || e->b->hi <= M / e->a->hi) { e->lo = e->a->lo * e->b->lo; e->hi = e->a->hi * e->b->hi; }
        break;
    case K_UDIV: if (isC(e->b) && e->b->v) { e->lo = e->a->lo / e->b->v; e->hi = e->a->hi / e->b->v; } break;
    case K_UREM: if (isC(e->b) && e->b->v) { e->hi = std::min(e->a->hi, e->b->v - 1); if (e->a->hi < e->b->v) e->lo = e->a->lo; } break;
    case K_AND: e->hi = std::min(e->a->hi, e->b->hi); break;
    case K_OR: {
        u128 m = std::max(e->a->hi, e->b->hi), p = 1;
        while (p <= m && p < M) p = (p << 1) | 1;
        if (p > M) p = M;
        if (m == 0) p = 0;
        e->hi = std::min(p, M); e->lo = std::max(e->a->lo, e->b->lo);
        break;
    }
    case K_XOR: {
        u128 m = std::max(e->a->hi, e->b->hi), p = 1;
        while (p < m) p = (p << 1) | 1;
        if (m == 0) p = 0;
        e->hi = std::min(p, M);
        break;
    }
    case K_SHL: if (isC(e->b) && e->b->v < e->w && (e->a->hi << (unsigned)e->b->v) <= M) { e->lo = e->a->lo << (unsigned)e->b->v; e->hi = e->a->hi << (unsigned)e->b->v; } break;
    case K_LSHR: if (isC(e->b) && e->b->v < e->w) { e->lo = e->a->lo >> (unsigned)e->b->v; e->hi = e->a->hi >> (unsigned)e->b->v; } else e->hi = e->a->hi; break;
    case K_CONCAT: e->lo = (e->a->lo << e->b->w) | e->b->lo; e->hi = (e->a->hi << e->b->w) | e->b->hi; break;
    case K_EXTRACT:
        if (e->off == 0) { if (e->a->hi <= M) { e->lo = e->a->lo; e->hi = e->a->hi; } }
        else if (e->off + e->w == e->a->w && e->a->w <= 64) { e->lo = e->a->lo >> e->off; e->hi = e->a->hi >> e->off; }
        else if (e->a->w <= 64 && (e->a->hi >> e->off) <= M) { e->lo = e->a->lo >> e->off; e->hi = e->a->hi >> e->off; }
        break;
    case K_ITE: e->lo = std::min(e->b->lo, e->c->lo); e->hi = std::max(e->b->hi, e->c->hi); break;
    default: break;
    }
}

E intern(Kind k, unsigned w, uint32_t off, E a, E b, E c, u128 v) {
    Expr t;
    memset(&t, 0, sizeof t);
    t.k = k; t.w = w; t.off = off; t.a = a; t.b = b; t.c = c; t.v = v;
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    Expr *n = freshNode();
    *n = t;
    n->id = nextId++;
    computeInterval(n);
    table.insert(n);
    return n;
}

double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 applyFp(Kind k, u128 a, u128 b, unsigned wa, unsigned w) {
    switch (k) {
    case K_FPCAST:
        if (wa == w) return a;
        if (wa == 32) return fromD((double)asF(a));
        return fromF((float)asD(a));
    case K_UITOFP: return w == 64 ? fromD((double)(uint64_t)a) : fromF((float)(uint64_t)a);
    case K_SITOFP: return w == 64 ? fromD((double)(int64_t)sextOf(a, wa)) : fromF((float)(int64_t)sextOf(a, wa));
    case K_FPTOUI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -1 && d < 18446744073709551616.0)) return 0; return (u128)(uint64_t)d & maskOf(w); }
    case K_FPTOSI: { double d = wa == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9223372036854775808.0)) return (u128)((uint64_t)1 << 63) & maskOf(w); return (u128)(uint64_t)(int64_t)d & maskOf(w); }
    default: break;
    }
    if (wa == 64) {
        double x = asD(a), y = asD(b);
        switch (k) {
        case K_FADD: return fromD(x + y);
        case K_FSUB: return fromD(x - y);
        case K_FMUL: return fromD(x * y);
        case K_FDIV: return fromD(x / y);
        case K_FOEQ: return x == y;
        case K_FOLT: return x < y;
        case K_FOLE: return x <= y;
        case K_FUNO: return std::isnan(x) || std::isnan(y);
        default: break;
        }
    } else {
        float x = asF(a), y = asF(b);
        switch (k) {
        case K_FADD: return fromF(x + y);
        case K_FSUB: return fromF(x - y);
        case K_FMUL: return fromF(x * y);
        case K_FDIV: return fromF(x / y);
        case K_FOEQ: return x == y;
        case K_FOLT: return x < y;
        case K_FOLE: return x <= y;
        case K_FUNO: return std::isnan(x) || std::isnan(y);
        default: break;
        }
    }
    assert(0);
    return 0;
}

u128 applyBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 M = maskOf(w);
    switch (k) {
    case K_ADD: return (a + b) & M;
    case K_SUB: return (a - b) & M;
    case K_MUL: return (a * b) & M;
    case K_UDIV: return b ? a / b : M;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: { i128 x = sextOf(a, w), y = sextOf(b, w); if (!y) return (x < 0 ? 1 : M); if (y == -1) return (u128)(-x) & M; return (u128)(x / y) & M; }
    case K_SREM: { i128 x = sextOf(a, w), y = sextOf(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
    case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case K_ASHR: { i128 x = sextOf(a, w); return b >= w ? (x < 0 ? M : 0) : (u128)(x >> (unsigned)b) & M; }
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sextOf(a, w) < sextOf(b, w);
    case K_SLE: return sextOf(a, w) <= sextOf(b, w);
    default: assert(0); return 0;
    }
}
bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
bool isComm(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }
}

size_t exprCount() { return nextId; }

E mkConst(u128 v, unsigned w) { return intern(K_CONST, w, 0, nullptr, nullptr, nullptr, v & maskOf(w)); }

E mkSym(unsigned idx, const std::string &name, unsigned w, u128 lo, u128 hi) {
    static std::map<std::tuple<unsigned, std::string, unsigned, u128, u128>, uint32_t> dir;
    auto key = std::make_tuple(idx, name, w, lo, hi);
    auto it = dir.find(key);
    if (it != dir.end()) return g_syms[it->second].e;
    uint32_t id = g_syms.size();
    SymInfo s; s.name = name; s.w = w; s.lo = lo; s.hi = hi; s.e = nullptr;
    g_syms.push_back(s);
    E e = intern(K_SYM, w, id, nullptr, nullptr, nullptr, 0);
    g_syms[id].e = e;
    dir[key] = id;
    return e;
}

E mkNot(E a) {
    assert(a->w == 1);
    if (isC(a)) return mkBool(!a->v);
    if (a->k == K_XOR && isC(a->b) && a->b->v == 1) return a->a;
    if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
    if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
    if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
    if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
    return intern(K_XOR, 1, 0, a, mkConst(1, 1), nullptr, 0);
}

E mkBin(Kind k, E a, E b) {
    if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d %d %d\n", k, a->w, b->w); abort(); }
    unsigned w = a->w;
    unsigned rw = isCmp(k) ? 1 : w;
    if (isC(a) && isC(b)) return mkConst(applyBin(k, a->v, b->v, w), rw);
    if (isComm(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u128 M = maskOf(w);
    switch (k) {
    case K_ADD:
        if (isC(b) && b->v == 0) return a;
        if (isC(b) && a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->v + b->v, w));
        if (isC(b) && a->k == K_SUB && isC(a->a)) return mkBin(K_SUB, mkConst(a->a->v + b->v, w), a->b);
        if (a->k == K_SUB && a->b == b) return a->a;
        if (b->k == K_SUB && b->b == a) return b->a;
        // pull constants outwards
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
        if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
        if (w == 1) return mkBin(K_XOR, a, b);
        break;
    case K_SUB:
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(K_ADD, a, mkConst((~b->v + 1), w));
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
        if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(~b->b->v + 1, w));
        if (a->k == K_ADD && a->a == b) return a->b;
        if (a->k == K_ADD && a->b == b) return a->a;
        if (w == 1) return mkBin(K_XOR, a, b);
        break;
    case K_MUL:
        if (isC(b)) {
            if (b->v == 0) return b;
            if (b->v == 1) return a;
            if ((b->v & (b->v - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->v) s++; return mkBin(K_SHL, a, mkConst(s, w)); }
        }
        break;
    case K_UDIV:
        if (isC(b) && b->v) {
            if (b->v == 1) return a;
            if ((b->v & (b->v - 1)) == 0) { unsigned s = 0; while (((u128)1 << s) != b->v) s++; return mkBin(K_LSHR, a, mkConst(s, w)); }
            if (a->hi < b->v) return mkConst(0, w);
        }
        break;
    case K_UREM:
        if (isC(b) && b->v) {
            if ((b->v & (b->v - 1)) == 0) return mkBin(K_AND, a, mkConst(b->v - 1, w));
            if (a->hi < b->v) return a;
        }
        break;
    case K_SDIV: case K_SREM:
        if (w <= 64 && a->hi < ((u128)1 << (w - 1)) && b->hi < ((u128)1 << (w - 1)) && (isC(b) && b->v))
            return mkBin(k == K_SDIV ? K_UDIV : K_UREM, a, b);
        break;
    case K_AND:
        if (a == b) return a;
        if (isC(b)) {
            if (b->v == 0) return b;
            if (b->v == M) return a;
            if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->v & b->v, w));
            // low mask -> zext(extract)
            if (((b->v + 1) & b->v) == 0) {
                unsigned n = 0; while ((b->v >> n) & 1) n++;
                if (a->hi <= b->v) return a;
                return mkZExt(mkExtract(a, 0, n), w);
            }
            // contiguous mask [s, s+n): shl(zext(extract))
            {
                unsigned s = 0; while (!((b->v >> s) & 1)) s++;
                u128 r = b->v >> s;
                if (((r + 1) & r) == 0) {
                    unsigned n = 0; while ((r >> n) & 1) n++;
                    E mid = mkExtract(a, s, n);
                    E lowz = mkConcat(mid, mkConst(0, s));
                    return mkZExt(lowz, w);
                }
            }
        }
        if (w == 1 && a->k == K_XOR && isC(a->b) && a->a == b) return mkConst(0, 1);
        if (w == 1 && b->k == K_XOR && isC(b->b) && b->a == a) return mkConst(0, 1);
        break;
    case K_OR:
        if (a == b) return a;
        if (isC(b)) {
            if (b->v == 0) return a;
            if (b->v == M) return b;
        }
        if (w == 1 && a->k == K_XOR && isC(a->b) && a->a == b) return mkConst(1, 1);
        if (w == 1 && b->k == K_XOR && isC(b->b) && b->a == a) return mkConst(1, 1);
        // disjoint bit ranges: turn into concat
        if (w > 8) {
            E hiE = a, loE = b;
            for (int t = 0; t < 2; ++t, std::swap(hiE, loE)) {
                unsigned tz = trailingZeros(hiE);
                if (tz > 0 && tz < w && (w <= 64) && loE->hi <= maskOf(tz))
                    return mkConcat(mkExtract(hiE, tz, w - tz), mkExtract(loE, 0, tz));
            }
        }
        break;
    case K_XOR:
        if (a == b) return mkConst(0, w);
        if (isC(b) && b->v == 0) return a;
        if (w == 1 && isC(b) && b->v == 1) return mkNot(a);
        if (isC(b) && a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->v ^ b->v, w));
        break;
    case K_SHL:
        if (isC(b)) {
            if (b->v == 0) return a;
            if (b->v >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->v;
            return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
        }
        break;
    case K_LSHR:
        if (isC(b)) {
            if (b->v == 0) return a;
            if (b->v >= w) return mkConst(0, w);
            unsigned s = (unsigned)b->v;
            return mkZExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K_ASHR:
        if (isC(b)) {
            if (b->v == 0) return a;
            unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
            return mkSExt(mkExtract(a, s, w - s), w);
        }
        break;
    case K_EQ:
        if (a == b) return mkBool(true);
        if (a->hi < b->lo || b->hi < a->lo) return mkBool(false);
        if (w == 1 && isC(b)) return b->v ? a : mkNot(a);
        if (isC(b)) {
            if (a->k == K_ZEXT) return (b->v > maskOf(a->a->w)) ? mkBool(false) : mkBin(K_EQ, a->a, mkConst(b->v, a->a->w));
            if (a->k == K_SEXT) {
                u128 t = b->v & maskOf(a->a->w);
                if (((u128)sextOf(t, a->a->w) & M) != b->v) return mkBool(false);
                return mkBin(K_EQ, a->a, mkConst(t, a->a->w));
            }
            if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->v - a->b->v, w));
            if (a->k == K_SUB && isC(a->a)) return mkBin(K_EQ, a->b, mkConst(a->a->v - b->v, w));
            if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(b->v ^ a->b->v, w));
            if (a->k == K_CONCAT) {
                E h = mkBin(K_EQ, a->a, mkConst(b->v >> a->b->w, a->a->w));
                E l = mkBin(K_EQ, a->b, mkConst(b->v, a->b->w));
                return mkBin(K_AND, h, l);
            }
            if (a->k == K_ITE && isC(a->b) && isC(a->c)) {
                bool t = a->b->v == b->v, f = a->c->v == b->v;
                if (t && f) return mkBool(true);
                if (!t && !f) return mkBool(false);
                return t ? a->a : mkNot(a->a);
            }
            if (a->k == K_ITE && (isC(a->b) || isC(a->c)))
                return mkIte(a->a, mkBin(K_EQ, a->b, b), mkBin(K_EQ, a->c, b));
            if (a->k == K_SUB && b->v == 0) return mkBin(K_EQ, a->a, a->b);
        }
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
        if (a->k == K_ADD && b->k == K_ADD && isC(a->b) && isC(b->b)) return mkBin(K_EQ, a->a, mkBin(K_ADD, b->a, mkConst(b->b->v - a->b->v, w)));
        if (a->k == K_ADD && (a->a == b)) return mkBin(K_EQ, a->b, mkConst(0, w));
        if (b->k == K_ADD && (b->a == a)) return mkBin(K_EQ, b->b, mkConst(0, w));
        break;
    case K_ULT:
        if (a == b) return mkBool(false);
        if (a->hi < b->lo) return mkBool(true);
        if (a->lo >= b->hi) return mkBool(false);
        if (isC(b) && b->v == 1) return mkBin(K_EQ, a, mkConst(0, w));
        if (a->k == K_ZEXT && isC(b)) return mkBin(K_ULT, a->a, mkConst(b->v, a->a->w)); // b in range: interval test above
        if (b->k == K_ZEXT && isC(a)) return mkBin(K_ULT, mkConst(a->v, b->a->w), b->a);
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
        break;
    case K_ULE:
        if (a == b) return mkBool(true);
        if (a->hi <= b->lo) return mkBool(true);
        if (a->lo > b->hi) return mkBool(false);
        if (isC(b) && b->v == 0) return mkBin(K_EQ, a, b);
        if (isC(b)) return mkBin(K_ULT, a, mkConst(b->v + 1, w)); // no wrap: interval test above excludes b==max
        if (isC(a)) return mkBin(K_ULT, mkConst(a->v - 1, w), b);
        if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
        break;
    case K_SLT: case K_SLE: {
        if (a == b) return mkBool(k == K_SLE);
        if (w <= 64) {
            u128 half = (u128)1 << (w - 1);
            bool an = a->hi < half, bn = b->hi < half; // both non negative
            bool ag = a->lo >= half, bg = b->lo >= half;
            if ((an && bn) || (ag && bg)) return mkBin(k == K_SLT ? K_ULT : K_ULE, a, b);
            if (an && bg) return mkBool(false);
            if (ag && bn) return mkBool(true);
        }
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(k, a->a, b->a);
        if (a->k == K_SEXT && isC(b)) {
            i128 bv = sextOf(b->v, w); unsigned n = a->a->w;
            i128 mn = -((i128)1 << (n - 1)), mx = ((i128)1 << (n - 1)) - 1;
            if (bv > mx) return mkBool(true);
            if (bv < mn) return mkBool(false);
            return mkBin(k, a->a, mkConst((u128)bv, n));
        }
        if (b->k == K_SEXT && isC(a)) {
            i128 av = sextOf(a->v, w); unsigned n = b->a->w;
            i128 mn = -((i128)1 << (n - 1)), mx = ((i128)1 << (n - 1)) - 1;
            if (av > mx) return mkBool(false);
            if (av < mn) return mkBool(true);
            return mkBin(k, mkConst((u128)av, n), b->a);
        }
        break;
    }
    default: break;
    }
    if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->c) && k != K_UDIV && k != K_SDIV && k != K_UREM && k != K_SREM)
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (isC(a) && b->k == K_ITE && isC(b->b) && isC(b->c) && k != K_UDIV && k != K_SDIV && k != K_UREM && k != K_SREM)
        return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    return intern(k, rw, 0, a, b, nullptr, 0);
}

E mkIte(E c, E a, E b) {
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->v ? c : mkNot(c);
        if (isTrue(a)) return mkBin(K_OR, c, b);
        if (isFalse(a)) return mkBin(K_AND, mkNot(c), b);
        if (isTrue(b)) return mkBin(K_OR, mkNot(c), a);
        if (isFalse(b)) return mkBin(K_AND, c, a);
    }
    if (c->k == K_XOR && isC(c->b)) return mkIte(c->a, b, a);
    if (a->k == K_ITE && a->a == c) a = a->b;
    if (b->k == K_ITE && b->a == c) b = b->c;
    if (a == b) return a;
    return intern(K_ITE, a->w, 0, c, a, b, 0);
}

E mkExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    assert(off + w <= a->w);
    if (isC(a)) return mkConst(a->v >> off, w);
    switch (a->k) {
    case K_EXTRACT: return mkExtract(a->a, off + a->off, w);
    case K_CONCAT:
        if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
        if (off + w <= a->b->w) return mkExtract(a->b, off, w);
        return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
    case K_ZEXT:
        if (off >= a->a->w) return mkConst(0, w);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
    case K_SEXT:
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off < a->a->w) return mkSExt(mkExtract(a->a, off, a->a->w - off), w);
        break;
    case K_AND: case K_OR: case K_XOR:
        if (isC(a->b) || off == 0) return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
        break;
    case K_ADD: case K_SUB: case K_MUL:
        if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case K_ITE:
        {
            E x = mkExtract(a->b, off, w), y = mkExtract(a->c, off, w);
            if (isC(x) || isC(y) || x == y) return mkIte(a->a, x, y);
        }
        break;
    default: break;
    }
    if (a->w <= 64 && a->hi < ((u128)1 << off)) return mkConst(0, w);
    return intern(K_EXTRACT, w, off, a, nullptr, nullptr, 0);
}

E mkConcat(E h, E l) {
    if (l->w == 0) return h;
    if (h->w == 0) return l;
    unsigned w = h->w + l->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(h) && isC(l)) return mkConst((h->v << l->w) | l->v, w);
    if (isC(h) && h->v == 0) return mkZExt(l, w);
    if (h->k == K_EXTRACT && l->k == K_EXTRACT && h->a == l->a && h->off == l->off + l->w) return mkExtract(h->a, l->off, w);
    if (h->k == K_ZEXT) return mkZExt(mkConcat(h->a, l), w);
    // concat(h, concat(x, y)) -> concat(concat(h, x), y) when h and x merge
    if (l->k == K_CONCAT && h->k == K_EXTRACT && l->a->k == K_EXTRACT && h->a == l->a->a && h->off == l->a->off + l->a->w)
        return mkConcat(mkConcat(h, l->a), l->b);
    if (h->k == K_CONCAT && l->k == K_EXTRACT && h->b->k == K_EXTRACT && h->b->a == l->a && h->b->off == l->off + l->w)
        return mkConcat(h->a, mkConcat(h->b, l));
    if (h->k == K_CONCAT && isC(h->b) && isC(l)) return mkConcat(h->a, mkConcat(h->b, l));
    // whole value reassembled: concat(extract(a, n, ..), a'[0..n)) where l == trunc handled by extract rule above
    if (h->k == K_ITE && l->k == K_ITE && h->a == l->a) return mkIte(h->a, mkConcat(h->b, l->b), mkConcat(h->c, l->c));
    if (h->k == K_SEXT && h->a->k == K_EXTRACT && false) return nullptr;
    return intern(K_CONCAT, w, 0, h, l, nullptr, 0);
}

E mkZExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (isC(a)) return mkConst(a->v, w);
    if (a->k == K_ZEXT) return mkZExt(a->a, w);
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    // zext(extract(x,0,n)) where x already fits
    if (a->k == K_EXTRACT && a->off == 0 && a->a->w <= 64 && a->a->hi <= maskOf(a->w)) {
        return a->a->w == w ? a->a : (a->a->w < w ? mkZExt(a->a, w) : mkExtract(a->a, 0, w));
    }
    return intern(K_ZEXT, w, 0, a, nullptr, nullptr, 0);
}

E mkSExt(E a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) return mkExtract(a, 0, w);
    if (isC(a)) return mkConst((u128)sextOf(a->v, a->w), w);
    if (a->k == K_SEXT) return mkSExt(a->a, w);
    if (a->k == K_ZEXT) return mkZExt(a->a, w);
    if (a->w <= 64 && a->hi < ((u128)1 << (a->w - 1))) return mkZExt(a, w);
    if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return intern(K_SEXT, w, 0, a, nullptr, nullptr, 0);
}

E mkFp(Kind k, E a, E b, unsigned w) {
    if (isC(a) && (!b || isC(b))) return mkConst(applyFp(k, a->v, b ? b->v : 0, a->w, w), w);
    return intern(k, w, 0, a, b, nullptr, 0);
}

unsigned trailingZeros(E e) {
    switch (e->k) {
    case K_CONST: { if (!e->v) return e->w; unsigned n = 0; while (!((e->v >> n) & 1)) n++; return n; }
    case K_ADD: case K_SUB: case K_OR: case K_XOR: return std::min(trailingZeros(e->a), trailingZeros(e->b));
    case K_AND: return std::max(trailingZeros(e->a), trailingZeros(e->b));
    case K_MUL: return std::min<unsigned>(e->w, trailingZeros(e->a) + trailingZeros(e->b));
    case K_CONCAT: { unsigned t = trailingZeros(e->b); return t < e->b->w ? t : t + trailingZeros(e->a); }
    case K_ZEXT: { unsigned t = trailingZeros(e->a); return t == e->a->w ? e->w : t; }
    case K_SEXT: { unsigned t = trailingZeros(e->a); return t == e->a->w ? e->w : t; }
    case K_ITE: return std::min(trailingZeros(e->b), trailingZeros(e->c));
    default: return 0;
    }
}

u128 evalE(E e, const Model &m) {
    if (e->k == K_CONST) return e->v;
    if (e->epoch == m.id) return e->ev;
    u128 r = 0;
    switch (e->k) {
    case K_SYM: r = e->off < m.vals.size() ? m.vals[e->off] : g_syms[e->off].lo;
        if (r < e->lo || r > e->hi) r = e->lo;
        break;
    case K_CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    case K_EXTRACT: r = (evalE(e->a, m) >> e->off) & maskOf(e->w); break;
    case K_ZEXT: r = evalE(e->a, m); break;
    case K_SEXT: r = (u128)sextOf(evalE(e->a, m), e->a->w) & maskOf(e->w); break;
    case K_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->c, m); break;
    default:
        if (e->k >= K_FADD) r = applyFp(e->k, evalE(e->a, m), e->b ? evalE(e->b, m) : 0, e->a->w, e->w);
        else r = applyBin(e->k, evalE(e->a, m), evalE(e->b, m), e->a->w);
    }
    e->epoch = m.id;
    e->ev = r;
    return r;
}

const std::vector<uint32_t> &support(E e) {
    static const std::vector<uint32_t> empty;
    if (e->syms) return *e->syms;
    if (e->k == K_CONST) return *(e->syms = &empty);
    if (e->k == K_SYM) return *(e->syms = new std::vector<uint32_t>{e->off});
    const std::vector<uint32_t> *best = nullptr;
    std::vector<uint32_t> u;
    for (E x : {e->a, e->b, e->c}) if (x) {
        auto &s = support(x);
        if (u.empty()) { u = s; best = &s; continue; }
        std::vector<uint32_t> t;
        std::set_union(u.begin(), u.end(), s.begin(), s.end(), std::back_inserter(t));
        if (t.size() != u.size()) best = t.size() == s.size() ? &s : nullptr;
        u.swap(t);
    }
    if (best && best->size() == u.size()) return *(e->syms = best);
    return *(e->syms = new std::vector<uint32_t>(u));
}

std::string u128str(u128 v) {
    if (!v) return "0";
    std::string s;
    while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; }
    return s;
}

std::string toStr(E e, int d) {
    static const char *n[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","ite","eq","ult","ule","slt","sle","fadd","fsub","fmul","fdiv","foeq","folt","fole","funo","fpcast","uitofp","sitofp","fptoui","fptosi"};
    if (e->k == K_CONST) return u128str(e->v) + ":" + std::to_string(e->w);
    if (e->k == K_SYM) return g_syms[e->off].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + n[e->k];
    if (e->k == K_EXTRACT) s += "@" + std::to_string(e->off) + "+" + std::to_string(e->w);
    for (E x : {e->a, e->b, e->c}) if (x) s += " " + toStr(x, d - 1);
    return s + ")";
}
