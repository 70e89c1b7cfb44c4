// FILTER expressions: the predicates of the Selection operator against the values SPARQL gives them.
#include "memdb.h"
#include <rts/operator/Selection.hpp>
#include <trident/kb/dictmgmt.h>
#include <cmath>
typedef Selection S;
typedef S::Predicate P;
static Register R[4];
static const std::string XSD = "http://www.w3.org/2001/XMLSchema#";
// what a term is worth; kind as below
enum { UNB, NINT, NFLT, DINT, DSTR, IRI, TINT, TSTR, DDBL, BLANK, LANG, KINDS };
struct Term { int kind; uint64_t id; std::string text; bool num, dbl; int64_t iv; double dv; };
static MemDB *DB;
struct TypedDB : public MemDB { // literals are kept with their quotes, IRIs without brackets
    bool lookupById(uint64_t id, const char *&s, const char *&e, ::Type::ID &t, unsigned &st) {
        for (auto &d : dict) if (d.second == id) { s = d.first.c_str(); e = s + d.first.size(); t = d.first[0] == '"' ? ::Type::Literal : ::Type::URI; st = 0; return true; }
        return false;
    }
};
static std::string chars(const char *nm, unsigned n, const char *set) { // n symbolic characters from a list
    std::string r; size_t k = strlen(set);
    for (unsigned i = 0; i < n; i++) r += set[sx_concretize(sx_range((std::string(nm) + "c" + std::to_string(i)).c_str(), 0, k - 1))];
    return r;
}
static const char *DBLS[4] = {"2.5", "-0.5", "10.0", "1e3"}; static const double DVAL[4] = {2.5, -0.5, 10, 1000};
static Term term(const char *nm, int kind, uint64_t id) {
    Term t; t.kind = kind; t.id = id; t.num = t.dbl = false; t.iv = 0; t.dv = 0; std::string n(nm);
    switch (kind) {
    case UNB: t.id = UINT64_MAX; break;
    case NINT: { int64_t v = (int64_t)sx_u64((n + "v").c_str()); SX_ASSUME(v >= -(INT64_C(1) << 61) && v < (INT64_C(1) << 61)); t.iv = v; t.num = true; t.id = ((uint64_t)v & UINT64_C(0x3FFFFFFFFFFFFFFF)) | DICTMGMT_INTEGER; break; }
    case NFLT: { uint64_t b = sx_range((n + "f").c_str(), 0, 0xFFFFFFFF); SX_ASSUME((b & 0x7F800000) != 0x7F800000); uint32_t w = (uint32_t)b; float f; memcpy(&f, &w, 4); t.dv = f; t.num = t.dbl = true; t.id = DictMgmt::fromFloat(f); break; }
    case DINT: case TINT: {
        std::string d = chars(nm, sx_param("digits", 1), "0159"); bool neg = sx_concretize(sx_range((n + "neg").c_str(), 0, 1));
        t.iv = 0; for (char c : d) t.iv = t.iv * 10 + (c - '0'); if (neg) { t.iv = -t.iv; d = "-" + d; } t.num = true;
        t.text = kind == DINT ? "\"" + d + "\"^^<" + XSD + "integer>" : d; break; }
    case DDBL: { unsigned k = sx_concretize(sx_range((n + "d").c_str(), 0, 3)); t.dv = DVAL[k]; t.num = t.dbl = true; static const char *T[3] = {"double", "float", "decimal"}; t.text = std::string("\"") + DBLS[k] + "\"^^<" + XSD + T[sx_concretize(sx_range((n + "ty").c_str(), 0, 2))] + ">"; break; }
    case DSTR: case TSTR: { std::string d = chars(nm, sx_concretize(sx_range((n + "len").c_str(), 0, 2)), "ab!"); t.text = kind == DSTR ? "\"" + d + "\"" : d; break; }
    case IRI: t.text = "http://x/" + chars(nm, 1, "ab"); break;
    case BLANK: t.text = "_:" + chars(nm, 1, "ab"); break;
    case LANG: t.text = "\"" + chars(nm, 1, "ab") + "\"@en"; break;
    }
    return t;
}
static std::string lex(const Term &t) { if (t.text.empty() || t.text[0] != '"') return t.text; return t.text.substr(1, t.text.rfind('"') - 1); }
// the same term has one id
static void intern(Term &a) { if (a.kind == UNB || a.kind == NINT || a.kind == NFLT || a.kind == TINT || a.kind == TSTR) return; for (auto &d : DB->dict) if (d.first == a.text) { a.id = d.second; return; } DB->dict.push_back({a.text, a.id}); }
static P *pred(const Term &t, Register &r) {
    if (t.kind == TINT || t.kind == TSTR) return new S::TemporaryConstantLiteral(t.text);
    r.value = t.id; return new S::Variable(&r);
}
static bool numLt(const Term &a, const Term &b) { return a.dbl ? (b.dbl ? a.dv < b.dv : a.dv < (double)b.iv) : b.dbl ? (double)a.iv < b.dv : a.iv < b.iv; }
static bool numLe(const Term &a, const Term &b) { return a.dbl ? (b.dbl ? a.dv <= b.dv : a.dv <= (double)b.iv) : b.dbl ? (double)a.iv <= b.dv : a.iv <= b.iv; }
struct Env {
    TypedDB db; Runtime rt; Bag rows; Selection *sel; 
    Env() : rt(db), sel(nullptr) { DB = &db; for (auto &r : R) r.reset(); }
    bool run(P *p) { Bag one; one.push_back(Tup{{0}, 3}); Selection s(new Src(one, {&R[3]}), rt, p, 1); uint64_t c = s.first(); SX_ASSERT((c == 3) | (c == 0), "filter: keeps a row with its multiplicity"); bool r = c != 0; if (r) { SX_ASSERT(s.next() == 0, "filter: a row comes once"); } sx_obs(r); return r; }
};
SX_ENTRY h_compare() {
    Env &e = *new Env(); int ka = sx_param("a", DINT), kb = sx_param("b", DINT);
    Term a = term("a", ka, 11), b = term("b", kb, 12); intern(a); intern(b);
    bool both = a.num && b.num, unb = ka == UNB || kb == UNB;
    bool lt = both ? numLt(a, b) : lex(a) < lex(b), le = both ? numLe(a, b) : lex(a) <= lex(b);
    if (unb) lt = le = false;
    SX_ASSERT(e.run(new S::Less(pred(a, R[0]), pred(b, R[1]))) == lt, "filter: < compares numbers by value, other literals by their text and is not true on an unbound variable");
    SX_ASSERT(e.run(new S::LessOrEqual(pred(a, R[0]), pred(b, R[1]))) == le, "filter: <= compares numbers by value, other literals by their text and is not true on an unbound variable");
    if (lt) sx_reach("less"); if (!le) sx_reach("greater");
}
// equality of terms; a constant outside the dictionary equals no term
SX_ENTRY h_equal() {
    Env &e = *new Env(); int ka = sx_param("a", DINT), kb = sx_param("b", DINT);
    Term a = term("a", ka, 11), b = term("b", kb, 12); intern(a); intern(b);
    bool unb = ka == UNB || kb == UNB, tmp = ka == TINT || ka == TSTR || kb == TINT || kb == TSTR;
    bool comp = tmp || ka == NINT || kb == NINT;
    bool eq = comp && a.num && b.num ? !numLt(a, b) && !numLt(b, a) : ka == kb && !unb && (tmp ? a.text == b.text : a.id == b.id);
    if (!unb) SX_ASSERT(e.run(new S::Equal(pred(a, R[0]), pred(b, R[1]))) == eq, "filter: = holds between equal terms only");
    SX_ASSERT(e.run(new S::NotEqual(pred(a, R[0]), pred(b, R[1]))) == (!eq && !unb), "filter: != holds between different terms only, and not on an unbound variable");
    if (!unb && ka == kb && !tmp) { SX_ASSERT(e.run(new S::BuiltinSameTerm(pred(a, R[0]), pred(b, R[1]))) == eq, "filter: sameTerm holds between equal terms only"); }
    if (eq) sx_reach("equal");
    if (!eq) sx_reach("different");
}
// connectives over three comparisons of symbolic ids
static P *leaf(unsigned k) { return new S::Equal(new S::Variable(&R[k]), new S::ConstantIRI(7)); }
SX_ENTRY h_connectives() {
    Env &e = *new Env(); uint64_t v[3]; bool t[3];
    for (int i = 0; i < 3; i++) { v[i] = sx_u64(("v" + std::to_string(i)).c_str()); SX_ASSUME((v[i] < (UINT64_C(1) << 40)) | (v[i] == UINT64_MAX)); R[i].value = v[i]; t[i] = v[i] == 7; }
    uint64_t op = sx_param("op", 0);
    bool got, want;
    switch (op) {
    case 0: got = e.run(new S::And(leaf(0), leaf(1))); want = t[0] & t[1]; break;
    case 1: got = e.run(new S::Or(leaf(0), leaf(1))); want = t[0] | t[1]; break;
    case 2: got = e.run(new S::Not(leaf(0))); want = !t[0]; break;
    case 3: got = e.run(new S::Or(new S::And(leaf(0), leaf(1)), new S::Not(leaf(2)))); want = (t[0] & t[1]) | !t[2]; break;
    case 4: got = e.run(new S::And(new S::Or(leaf(0), leaf(1)), new S::Not(new S::And(leaf(1), leaf(2))))); want = (t[0] | t[1]) & !(t[1] & t[2]); break;
    case 5: got = e.run(new S::BuiltinBound(&R[0])); want = v[0] != UINT64_MAX; break;
    case 6: { std::set<std::string> none; got = e.run(new S::BuiltinIn(new S::Variable(&R[0]), {new S::Variable(&R[1]), new S::Variable(&R[2]), new S::ConstantIRI(9)}, none, true)); want = (v[0] == v[1]) | (v[0] == v[2]) | (v[0] == 9); break; }
    default: got = e.run(new S::Not(new S::Not(leaf(0)))); want = t[0];
    }
    SX_ASSERT(got == want, "filter: and, or, not, bound and in have their logical value");
    want = sx_concretize(want); if (want) sx_reach("true"); if (!want) sx_reach("false");
}
// kinds of terms, text functions
SX_ENTRY h_functions() {
    Env &e = *new Env(); int ka = sx_param("a", DSTR);
    Term a = term("a", ka, 11); intern(a);
    bool iri = ka == IRI || ka == BLANK, lit = ka == DINT || ka == DSTR || ka == DDBL || ka == LANG;
    SX_ASSERT(e.run(new S::BuiltinIsIRI(pred(a, R[0]))) == iri, "filter: isIRI holds for IRIs only");
    SX_ASSERT(e.run(new S::BuiltinIsLiteral(pred(a, R[0]))) == lit, "filter: isLiteral holds for literals only");
    SX_ASSERT(e.run(new S::BuiltinIsBlank(pred(a, R[0]))) == (ka == BLANK), "filter: isBlank holds for blank nodes only");
    std::string needle = chars("n", sx_concretize(sx_range("nlen", 0, 2)), "ab");
    if (ka != DINT && ka != DDBL) SX_ASSERT(e.run(new S::BuiltinContains(new S::BuiltinStr(pred(a, R[0])), new S::TemporaryConstantLiteral(needle))) == (lex(a).find(needle) != std::string::npos), "filter: contains holds if the text of the first term has the second");
    std::string other = sx_concretize(sx_range("o", 0, 1)) ? a.text : a.text + "x";
    SX_ASSERT(e.run(new S::Equal(new S::BuiltinStr(pred(a, R[0])), new S::TemporaryConstantLiteral(other))) == (a.text == other), "filter: str gives the text of the term");
    sx_reach("functions");
}
// arithmetic on stored and computed numbers; small values, printed exactly
SX_ENTRY h_arith() {
    Env &e = *new Env(); int ka = sx_param("a", DINT), kb = sx_param("b", DINT), op = sx_param("op", 0);
    Term a = term("a", ka, 11), b = term("b", kb, 12); intern(a); intern(b);
    double x = a.dbl ? a.dv : a.iv, y = b.dbl ? b.dv : b.iv, z;
    P *p, *l = pred(a, R[0]), *r = pred(b, R[1]);
    switch (op) {
    case 0: p = new S::Plus(l, r); z = x + y; break;
    case 1: p = new S::Minus(l, r); z = x - y; break;
    case 2: p = new S::Mul(l, r); z = x * y; break;
    case 3: if (y == 0) sx_stop(); p = new S::Div(l, r); z = x / y; break;
    default: p = new S::Neg(l); delete r; z = -x;
    }
    // compared with a bound that decides it
    static const int C[3] = {-1, 0, 8};
    int c = C[sx_concretize(sx_range("c", 0, 2))];
    R[2].value = ((uint64_t)(int64_t)c & UINT64_C(0x3FFFFFFFFFFFFFFF)) | DICTMGMT_INTEGER;
    SX_ASSERT(e.run(new S::Less(p, new S::Variable(&R[2]))) == (z < c), "filter: arithmetic has the value of its operands");
    if (z < c) sx_reach("less"); else sx_reach("not less");
}
// malformed numbers and dates are no numbers, and no crash
SX_ENTRY h_malformed() {
    Env &e = *new Env(); static const char *BAD[6] = {"", "x", "1x", "-", "99999999999999999999", "2020-01"}; static const char *TY[5] = {"integer", "double", "date", "dateTime", "decimal"};
    Term a; a.kind = DSTR; a.id = 11; a.text = std::string("\"") + BAD[sx_concretize(sx_range("bad", 0, 5))] + "\"^^<" + XSD + TY[sx_concretize(sx_range("ty", 0, 4))] + ">"; a.num = false; intern(a);
    Term b = term("b", sx_param("b", DINT), 12); intern(b);
    bool x = e.run(new S::Less(pred(a, R[0]), pred(b, R[1]))), y = e.run(new S::LessOrEqual(pred(b, R[1]), pred(a, R[0])));
    (void)x; (void)y;
    sx_reach("malformed");
}
// dates: the order of time
SX_ENTRY h_dates() {
    Env &e = *new Env(); static const char *D[8] = {"2019-12-31", "2020-01-01", "2020-01-02", "2020-02-01", "2020-10-01", "2021-01-01", "1999-12-31", "2020-01-31"}; static const int ORD[8] = {1, 2, 3, 5, 6, 7, 0, 4};
    static const char *T[8] = {"2020-01-01T00:00:00", "2020-01-01T00:00:01", "2020-01-01T00:01:00", "2020-01-01T01:00:00", "2020-01-01T23:59:59", "2020-01-02T00:00:00", "2019-12-31T23:59:59", "2020-01-01T00:00:59"}; static const int TORD[8] = {1, 2, 4, 5, 6, 7, 0, 3};
    bool time = sx_param("time", 0); Term t[2]; int o[2];
    for (int i = 0; i < 2; i++) { unsigned k = sx_concretize(sx_range(i ? "b" : "a", 0, 7)); o[i] = time ? TORD[k] : ORD[k]; t[i].kind = DSTR; t[i].id = 11 + i; t[i].text = std::string("\"") + (time ? T[k] : D[k]) + "\"^^<" + XSD + (time ? "dateTime>" : "date>"); intern(t[i]); }
    SX_ASSERT(e.run(new S::Less(pred(t[0], R[0]), pred(t[1], R[1]))) == (o[0] < o[1]), "filter: dates compare by time");
    SX_ASSERT(e.run(new S::LessOrEqual(pred(t[0], R[0]), pred(t[1], R[1]))) == (o[0] <= o[1]), "filter: dates compare by time");
    sx_reach("dates");
}
// a filter keeps the rows of its input that satisfy it, in order, with their multiplicities
SX_ENTRY h_selection_rows() {
    Env &e = *new Env(); unsigned n = sx_param("n", 3); Bag in = symBag("r", n, 2, (UINT64_C(1) << 40), -1, 2);
    Selection s(new Src(in, {&R[0], &R[1]}), e.rt, new S::Or(new S::Equal(new S::Variable(&R[0]), new S::Variable(&R[1])), leaf(0)), 1);
    Bag out = drain(s, {&R[0], &R[1]}, n), ref;
    for (auto &t : in) if (t.v[0] == t.v[1] || t.v[0] == 7) ref.push_back(t);
    SX_ASSERT(out.size() == ref.size(), "filter: keeps the rows that satisfy it");
    for (size_t i = 0; i < out.size() && i < ref.size(); i++) SX_ASSERT(sameTup(out[i].v, ref[i].v) & (uint64_t)(out[i].c == ref[i].c), "filter: keeps the rows that satisfy it, in order");
    SX_ASSERT(s.getObservedOutputCardinality() == (double)total(out), "filter: reports the number of rows it produced");
    if (out.size() > 1) sx_reach("several rows");
}
// ids that are numbers: value, order and text
SX_ENTRY h_number_ids() {
    int ka = sx_param("a", NINT), kb = sx_param("b", NINT);
    Env &e = *new Env(); Term a = term("a", ka, 0), b = term("b", kb, 0);
    SX_ASSERT(DictMgmt::isnumeric(a.id) & !DictMgmt::isnumeric(UINT64_MAX), "number id: told from the ids of terms and from unbound");
    uint64_t d = sx_range("dictid", 0, (UINT64_C(1) << 62) - 1);
    SX_ASSERT(!DictMgmt::isnumeric(d), "number id: the id of a term is no number");
    SX_ASSERT(DictMgmt::getType(a.id) == (ka == NINT ? DICTMGMT_INTEGER : DICTMGMT_FLOAT), "number id: keeps its type");
    if (ka == NINT) { SX_ASSERT(DictMgmt::fromInt(a.iv) == a.id, "number id: integers are kept in 62 bits"); SX_ASSERT(DictMgmt::getIntValue(a.id) == a.iv, "number id: an integer keeps its value"); }
    else SX_ASSERT(DictMgmt::getFloatValue(a.id) == (float)a.dv, "number id: a float keeps its value");
    int c = DictMgmt::compare(DictMgmt::getType(a.id), a.id, DictMgmt::getType(b.id), b.id);
    // integers next to floats are compared as floats
    bool lt, gt;
    if (ka == NINT && kb == NINT) { lt = a.iv < b.iv; gt = a.iv > b.iv; } else { float x = ka == NINT ? (float)a.iv : (float)a.dv, y = kb == NINT ? (float)b.iv : (float)b.dv; lt = x < y; gt = x > y; }
    SX_ASSERT(((c < 0) == lt) & ((c > 0) == gt), "number id: compares by value");
    sx_reach("numbers");
}
