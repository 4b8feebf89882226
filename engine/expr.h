// Hash-consed bit-vector expressions used by the verifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <bitset>

using u128 = unsigned __int128;
using i128 = __int128;

enum class Op : uint8_t {
    Const, Var, Tab,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Concat, Extract, ZExt, SExt,
    // IEEE floating point over bit patterns (width 32 or 64)
    FAdd, FSub, FMul, FDiv, FEq, FLt, FLe, FIsNan, SIToFP, UIToFP, FPToSI, FPToUI, FPExt, FPTrunc, FAbs, FSqrt,
    Select, // uninterpreted function application: k[0], k[1] args, c = symbol
};

struct Expr {
    Op op;
    uint16_t w;
    uint32_t id;
    u128 c;  // Const: value, Var: variable index, Tab: variable index, Extract: low bit, UF: symbol
    const Expr* k[3];
    const std::vector<uint64_t>* tab;
    uint8_t hasSym;  // unused
};
using E = const Expr*;

constexpr int MaxDom = 192;
using Dom = std::bitset<MaxDom>;

struct VarInfo {
    std::string name;
    unsigned w;
    int domSize;  // 0: ordinary variable; >0: domain variable with this many kinds
};
extern std::vector<VarInfo> g_vars;

inline u128 maskOf(unsigned w) { return w >= 128 ? ~u128(0) : ((u128(1) << w) - 1); }
inline i128 sextOf(u128 v, unsigned w) {
    if(w >= 128) return (i128)v;
    u128 s = u128(1) << (w - 1);
    v &= maskOf(w);
    return (i128)((v ^ s)) - (i128)s;
}

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w);
// creates a domain variable; returns its index
unsigned newDomVar(const std::string& name, int n);
E mkTab(unsigned var, const std::vector<uint64_t>& vals, unsigned w);
E mkBin(Op op, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkRawExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkNot(E a);
E mkFp(Op op, unsigned w, E a, E b = nullptr);
E mkUF(unsigned sym, unsigned w, E a, E b = nullptr);
inline E mkTrue() { return mkConst(1, 1); }
inline E mkFalse() { return mkConst(0, 1); }
inline E mkAnd(E a, E b) { return mkBin(Op::And, a, b); }
inline E mkOr(E a, E b) { return mkBin(Op::Or, a, b); }
inline bool isC(E e) { return e->op == Op::Const; }
inline bool isTrue(E e) { return e->op == Op::Const && e->c == 1 && e->w == 1; }
inline bool isFalse(E e) { return e->op == Op::Const && e->c == 0 && e->w == 1; }

struct Model {
    std::unordered_map<unsigned, u128> v;
};
// evaluation (missing variables are 0)
struct Evaluator {
    const Model& m;
    std::unordered_map<E, u128> memo;
    bool ok = true;  // false when an op could not be evaluated
    explicit Evaluator(const Model& mm) : m(mm) {}
    u128 eval(E e);
};
// variables (sorted, memoised)
const std::vector<unsigned>& varsOf(E e);
// ring normalisation
E normalize(E e);
// same operator over other operands
E rebuildExpr(E e, E const k[3]);
std::string toStr(E e, int depth = 6);
std::string smtName(unsigned var);
// SMT-LIB2 script for the conjunction of cs
std::string toSmt(const std::vector<E>& cs);
size_t exprCount();
