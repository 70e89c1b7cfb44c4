// symx: expression DAG (hash-consed bit-vector terms).
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
    K_CONST, K_SYM,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
    // IEEE floating point over bit patterns (width 32 or 64)
    K_FADD, K_FSUB, K_FMUL, K_FDIV,
    K_FOEQ, K_FOLT, K_FOLE, K_FUNO,
    K_FPCAST, K_UITOFP, K_SITOFP, K_FPTOUI, K_FPTOSI
};

struct Expr;
typedef const Expr *E;

struct SymInfo {
    std::string name;
    uint16_t w;
    u128 lo, hi;   // intrinsic unsigned range: always part of every query that mentions the symbol
    E e;
};

struct Expr {
    Kind k;
    uint16_t w;
    uint32_t id;
    uint32_t off;          // extract offset / symbol id
    E a, b, c;
    u128 v;                // constant value
    u128 lo, hi;           // unsigned interval
    mutable uint64_t epoch;
    mutable u128 ev;
    mutable const std::vector<uint32_t> *syms;
    mutable void *z3;      // cached Z3_ast
};

struct Model {
    uint64_t id;
    std::vector<u128> vals;    // by symbol id
};
typedef std::shared_ptr<Model> ModelP;
ModelP newModel(const Model *base);

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextOf(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskOf(w);
    return (i128)((v ^ m) - m);
}

extern std::vector<SymInfo> g_syms;
E mkConst(u128 v, unsigned w);
// the i-th symbol asked for along a path: the same (i, name, width, range) always yields the same term
E mkSym(unsigned idx, const std::string &name, unsigned w, u128 lo, u128 hi);
E mkBin(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a);           // 1 bit
E mkFp(Kind k, E a, E b, unsigned w);
inline bool isC(E e) { return e->k == K_CONST; }
inline bool isTrue(E e) { return e->k == K_CONST && e->v != 0; }
inline bool isFalse(E e) { return e->k == K_CONST && e->v == 0; }
inline E mkEq(E a, E b) { return mkBin(K_EQ, a, b); }
inline E mkBool(bool b) { return mkConst(b, 1); }
u128 evalE(E e, const Model &m);
const std::vector<uint32_t> &support(E e);
unsigned trailingZeros(E e);
std::string toStr(E e, int depth = 5);
std::string u128str(u128 v);
size_t exprCount();
