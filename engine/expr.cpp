#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <sstream>

std::vector<VarInfo> g_vars;

namespace {
    struct H {
        size_t operator()(E e) const {
            size_t h = (size_t)e->op * 0x9E3779B97F4A7C15ull + e->w * 131;
            auto mix = [&](size_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); };
            mix((size_t)e->c);
            mix((size_t)(e->c >> 64));
            for(int i = 0; i < 3; ++i)
                mix(e->k[i] ? e->k[i]->id + 1 : 0);
            if(e->tab)
                for(auto v : *e->tab)
                    mix(v);
            return h;
        }
    };
    struct Eq_ {
        bool operator()(E a, E b) const {
            if(a->op != b->op || a->w != b->w || a->c != b->c || a->k[0] != b->k[0] || a->k[1] != b->k[1] || a->k[2] != b->k[2])
                return false;
            if(a->tab || b->tab)
                return a->tab && b->tab && *a->tab == *b->tab;
            return true;
        }
    };
    std::unordered_set<E, H, Eq_> table;
    uint32_t nextId = 1;
    E intern(Op op, unsigned w, u128 c, E a = nullptr, E b = nullptr, E d = nullptr, const std::vector<uint64_t>* tab = nullptr) {
        Expr tmp{ op, (uint16_t)w, 0, c, { a, b, d }, tab, 0 };
        auto it = table.find(&tmp);
        if(it != table.end())
            return *it;
        auto* e = new Expr(tmp);
        e->id = nextId++;
        if(tab)
            e->tab = new std::vector<uint64_t>(*tab);
        table.insert(e);
        return e;
    }
    E smallConst[65][4];

    u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
        u128 m = maskOf(w);
        switch(op) {
            case Op::Add: return (a + b) & m;
            case Op::Sub: return (a - b) & m;
            case Op::Mul: return (a * b) & m;
            case Op::UDiv: return b ? a / b : m;
            case Op::URem: return b ? a % b : a;
            case Op::SDiv: {
                i128 x = sextOf(a, w), y = sextOf(b, w);
                if(y == 0)
                    return x < 0 ? 1 : m;
                if(y == -1)
                    return (u128(0) - (u128)x) & m;
                return (u128)(x / y) & m;
            }
            case Op::SRem: {
                i128 x = sextOf(a, w), y = sextOf(b, w);
                if(y == 0)
                    return a;
                if(y == -1)
                    return 0;
                return (u128)(x % y) & m;
            }
            case Op::Shl: return b >= w ? 0 : (a << b) & m;
            case Op::LShr: return b >= w ? 0 : (a >> b);
            case Op::AShr: {
                i128 x = sextOf(a, w);
                return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m;
            }
            case Op::And: return a & b;
            case Op::Or: return a | b;
            case Op::Xor: return a ^ b;
            case Op::Eq: return a == b;
            case Op::Ult: return a < b;
            case Op::Ule: return a <= b;
            case Op::Slt: return sextOf(a, w) < sextOf(b, w);
            case Op::Sle: return sextOf(a, w) <= sextOf(b, w);
            default: abort();
        }
    }
    bool isCmp(Op op) { return op == Op::Eq || op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle; }
    template <class T, class F>
    T bits(F f) {
        T t;
        static_assert(sizeof(T) == sizeof(F));
        memcpy(&t, &f, sizeof(t));
        return t;
    }
    double fval(u128 v, unsigned w) {
        if(w == 32)
            return bits<float>((uint32_t)v);
        return bits<double>((uint64_t)v);
    }
    u128 fput(double d, unsigned w) {
        if(w == 32)
            return bits<uint32_t>((float)d);
        return bits<uint64_t>(d);
    }
    bool foldFp(Op op, unsigned w, u128 a, unsigned wa, u128 b, u128& out) {
        switch(op) {
            case Op::FAdd:
            case Op::FSub:
            case Op::FMul:
            case Op::FDiv:
                if(w == 32) {
                    float x = bits<float>((uint32_t)a), y = bits<float>((uint32_t)b), r = 0;
                    r = op == Op::FAdd ? x + y : op == Op::FSub ? x - y : op == Op::FMul ? x * y : x / y;
                    out = bits<uint32_t>(r);
                } else {
                    double x = fval(a, 64), y = fval(b, 64), r;
                    r = op == Op::FAdd ? x + y : op == Op::FSub ? x - y : op == Op::FMul ? x * y : x / y;
                    out = bits<uint64_t>(r);
                }
                return true;
            case Op::FEq: out = fval(a, wa) == fval(b, wa); return true;
            case Op::FLt: out = fval(a, wa) < fval(b, wa); return true;
            case Op::FLe: out = fval(a, wa) <= fval(b, wa); return true;
            case Op::FIsNan: out = std::isnan(fval(a, wa)); return true;
            case Op::FAbs: out = a & (maskOf(w) >> 1); return true;
            case Op::FSqrt: out = w == 32 ? bits<uint32_t>(std::sqrt(bits<float>((uint32_t)a))) : (u128)bits<uint64_t>(std::sqrt(fval(a, 64))); return true;
            case Op::FPExt: out = bits<uint64_t>((double)bits<float>((uint32_t)a)); return true;
            case Op::FPTrunc: out = bits<uint32_t>((float)fval(a, 64)); return true;
            case Op::SIToFP: {
                if(wa > 64)
                    return false;
                int64_t v = (int64_t)sextOf(a, wa);
                out = w == 32 ? (u128)bits<uint32_t>((float)v) : (u128)bits<uint64_t>((double)v);
                return true;
            }
            case Op::UIToFP: {
                if(wa > 64)
                    return false;
                uint64_t v = (uint64_t)a;
                out = w == 32 ? (u128)bits<uint32_t>((float)v) : (u128)bits<uint64_t>((double)v);
                return true;
            }
            case Op::FPToSI: {
                double d = std::trunc(fval(a, wa));
                if(!(d >= -std::ldexp(1.0, w - 1) && d < std::ldexp(1.0, w - 1)))
                    return false;
                out = (u128)(int64_t)d & maskOf(w);
                return true;
            }
            case Op::FPToUI: {
                double d = std::trunc(fval(a, wa));
                if(!(d >= 0 && d < std::ldexp(1.0, w)))
                    return false;
                out = (u128)(uint64_t)d & maskOf(w);
                return true;
            }
            default: return false;
        }
    }
}  // namespace

size_t exprCount() { return table.size(); }

E mkConst(u128 v, unsigned w) {
    v &= maskOf(w);
    if(v < 4 && w <= 64) {
        E& s = smallConst[w][(int)v];
        if(!s)
            s = intern(Op::Const, w, v);
        return s;
    }
    return intern(Op::Const, w, v);
}
E mkVar(const std::string& name, unsigned w) {
    g_vars.push_back({ name, w, 0 });
    return intern(Op::Var, w, g_vars.size() - 1);
}
unsigned newDomVar(const std::string& name, int n) {
    if(n > MaxDom) {
        fprintf(stderr, "domain too large\n");
        exit(2);
    }
    g_vars.push_back({ name, 8, n });
    return g_vars.size() - 1;
}
E mkTab(unsigned var, const std::vector<uint64_t>& vals, unsigned w) {
    bool same = true;
    for(auto v : vals)
        if(v != vals[0])
            same = false;
    if(same)
        return mkConst(vals[0], w);
    return intern(Op::Tab, w, var, nullptr, nullptr, nullptr, &vals);
}

static bool tabbable(E a, E b, unsigned& var) {
    bool ta = a->op == Op::Tab, tb = b && b->op == Op::Tab;
    if(!ta && !tb)
        return false;
    if(ta)
        var = (unsigned)a->c;
    else
        var = (unsigned)b->c;
    if(ta && tb)
        return a->c == b->c;
    if(ta)
        return !b || isC(b);
    return isC(a);
}
static uint64_t tv(E e, size_t i) { return e->op == Op::Tab ? (*e->tab)[i] : (uint64_t)e->c; }

E mkNot(E a) { return mkBin(Op::Xor, a, mkConst(~u128(0), a->w)); }

static bool iteConsts(E e) { return e->op == Op::Ite && isC(e->k[1]) && isC(e->k[2]); }

// top bit when it is evident, else -1
static int signBit(E e) {
    switch(e->op) {
        case Op::Const: return (int)((e->c >> (e->w - 1)) & 1);
        case Op::Concat: return signBit(e->k[0]);
        case Op::SExt: return signBit(e->k[0]);
        case Op::ZExt: return 0;
        case Op::Or: {
            int a = signBit(e->k[0]), b = signBit(e->k[1]);
            return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1;
        }
        case Op::And: {
            int a = signBit(e->k[0]), b = signBit(e->k[1]);
            return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1;
        }
        default: return -1;
    }
}
E mkBin(Op op, E a, E b) {
    unsigned w = a->w;
    if(a->w != b->w) {
        fprintf(stderr, "width mismatch %d vs %d op %d: %s %s\n", a->w, b->w, (int)op, toStr(a).c_str(), toStr(b).c_str());
        abort();
    }
    unsigned rw = isCmp(op) ? 1 : w;
    if(isC(a) && isC(b))
        return mkConst(foldBin(op, a->c, b->c, w), rw);
    unsigned var;
    if(w <= 64 && tabbable(a, b, var)) {
        size_t n = (a->op == Op::Tab ? a : b)->tab->size();
        std::vector<uint64_t> r(n);
        for(size_t i = 0; i < n; ++i)
            r[i] = (uint64_t)foldBin(op, tv(a, i), tv(b, i), w);
        return mkTab(var, r, rw);
    }
    u128 ones = maskOf(w);
    // commutative: constant right
    switch(op) {
        case Op::Add:
        case Op::Mul:
        case Op::And:
        case Op::Or:
        case Op::Xor:
        case Op::Eq:
            if(isC(a) || (!isC(b) && a->id > b->id))
                std::swap(a, b);
            break;
        default: break;
    }
    // distribute over ite with constant arms when other is constant
    if(isC(b) && iteConsts(a))
        return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
    if(isC(a) && iteConsts(b))
        return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
    switch(op) {
        case Op::Add:
            if(isC(b)) {
                if(b->c == 0)
                    return a;
                if(a->op == Op::Add && isC(a->k[1]))
                    return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + b->c, w));
            }
            if(w == 1)
                return mkBin(Op::Xor, a, b);
            break;
        case Op::Sub:
            if(a == b)
                return mkConst(0, w);
            if(isC(b))
                return mkBin(Op::Add, a, mkConst(u128(0) - b->c, w));
            if(w == 1)
                return mkBin(Op::Xor, a, b);
            if(a->op == Op::Add && isC(a->k[1]) && a->k[0] == b)
                return a->k[1];
            break;
        case Op::Mul:
            if(isC(b)) {
                if(b->c == 0)
                    return b;
                if(b->c == 1)
                    return a;
            }
            if(w == 1)
                return mkBin(Op::And, a, b);
            break;
        case Op::UDiv:
            if(isC(b) && b->c == 1)
                return a;
            break;
        case Op::SDiv:
            if(isC(b) && b->c == 1 && w > 1)
                return a;
            break;
        case Op::URem:
            if(isC(b) && b->c == 1)
                return mkConst(0, w);
            break;
        case Op::SRem:
            if(isC(b) && b->c == 1 && w > 1)
                return mkConst(0, w);
            break;
        case Op::Shl:
        case Op::LShr:
        case Op::AShr:
            if(isC(b) && b->c == 0)
                return a;
            if(isC(b) && b->c >= w && op != Op::AShr)
                return mkConst(0, w);
            if(isC(b) && op != Op::Shl && b->c < w) {
                E x = mkExtract(a, (unsigned)b->c, w - (unsigned)b->c);
                if(x->op != Op::Extract || x->k[0] != a)
                    return op == Op::LShr ? mkZExt(x, w) : mkSExt(x, w);
            }
            break;
        case Op::And:
            if(a == b)
                return a;
            if(isC(b)) {
                if(b->c == 0)
                    return b;
                if(b->c == ones)
                    return a;
                if(a->op == Op::And && isC(a->k[1]))
                    return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & b->c, w));
                // low mask
                if(a->op == Op::ZExt) {
                    u128 inner = maskOf(a->k[0]->w);
                    if((b->c & inner) == inner)
                        return a;
                    return mkZExt(mkBin(Op::And, a->k[0], mkConst(b->c & inner, a->k[0]->w)), w);
                }
            }
            if(w == 1 && a == mkNot(b))
                return mkConst(0, 1);
            break;
        case Op::Or:
            if(a == b)
                return a;
            if(isC(b)) {
                if(b->c == 0)
                    return a;
                if(b->c == ones)
                    return b;
            }
            if(w == 1 && a == mkNot(b))
                return mkConst(1, 1);
            break;
        case Op::Xor:
            if(a == b)
                return mkConst(0, w);
            if(isC(b)) {
                if(b->c == 0)
                    return a;
                if(a->op == Op::Xor && isC(a->k[1]))
                    return mkBin(Op::Xor, a->k[0], mkConst(a->k[1]->c ^ b->c, w));
                if(w == 1) {
                    // negation of comparisons
                    switch(a->op) {
                        case Op::Ult: return mkBin(Op::Ule, a->k[1], a->k[0]);
                        case Op::Ule: return mkBin(Op::Ult, a->k[1], a->k[0]);
                        case Op::Slt: return mkBin(Op::Sle, a->k[1], a->k[0]);
                        case Op::Sle: return mkBin(Op::Slt, a->k[1], a->k[0]);
                        default: break;
                    }
                }
            }
            break;
        case Op::Eq:
            if(a == b)
                return mkTrue();
            if(w == 1) {
                if(isC(b))
                    return b->c ? a : mkNot(a);
            }
            if(isC(b)) {
                switch(a->op) {
                    case Op::ZExt:
                        if((b->c & ~maskOf(a->k[0]->w)) != 0)
                            return mkFalse();
                        return mkBin(Op::Eq, a->k[0], mkConst(b->c, a->k[0]->w));
                    case Op::SExt: {
                        u128 lo = b->c & maskOf(a->k[0]->w);
                        if(((u128)sextOf(lo, a->k[0]->w) & ones) != b->c)
                            return mkFalse();
                        return mkBin(Op::Eq, a->k[0], mkConst(lo, a->k[0]->w));
                    }
                    case Op::Add:
                        if(isC(a->k[1]))
                            return mkBin(Op::Eq, a->k[0], mkConst(b->c - a->k[1]->c, w));
                        break;
                    case Op::Xor:
                        if(isC(a->k[1]))
                            return mkBin(Op::Eq, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
                        break;
                    case Op::Concat: {
                        unsigned lw = a->k[1]->w;
                        return mkAnd(mkBin(Op::Eq, a->k[0], mkConst(b->c >> lw, a->k[0]->w)), mkBin(Op::Eq, a->k[1], mkConst(b->c, lw)));
                    }
                    case Op::Ite:
                        if(isC(a->k[1]) && a->k[1]->c != b->c)
                            return mkAnd(mkNot(a->k[0]), mkBin(Op::Eq, a->k[2], b));
                        if(isC(a->k[2]) && a->k[2]->c != b->c)
                            return mkAnd(a->k[0], mkBin(Op::Eq, a->k[1], b));
                        break;
                    default: break;
                }
            }
            if((a->op == Op::ZExt && b->op == Op::ZExt) || (a->op == Op::SExt && b->op == Op::SExt))
                if(a->k[0]->w == b->k[0]->w)
                    return mkBin(Op::Eq, a->k[0], b->k[0]);
            break;
        case Op::Ult:
            if(a == b)
                return mkFalse();
            if(isC(b) && b->c == 0)
                return mkFalse();
            if(isC(b) && b->c == 1)
                return mkBin(Op::Eq, a, mkConst(0, w));
            if(isC(a) && a->c == ones)
                return mkFalse();
            goto zz;
        case Op::Ule:
            if(a == b)
                return mkTrue();
            if(isC(a) && a->c == 0)
                return mkTrue();
            if(isC(b) && b->c == ones)
                return mkTrue();
            if(isC(b) && b->c == 0)
                return mkBin(Op::Eq, a, b);
            goto zz;
        case Op::Slt:
            if(a == b)
                return mkFalse();
            goto zz;
        case Op::Sle:
            if(a == b)
                return mkTrue();
        zz: {
            bool sgn = op == Op::Slt || op == Op::Sle;
            if(sgn) {
                int sa = signBit(a), sb = signBit(b);
                if(sa >= 0 && sb >= 0 && sa != sb)
                    return sa ? mkTrue() : mkFalse();
            }
            bool strict = op == Op::Slt || op == Op::Ult;
            Op uop = strict ? Op::Ult : Op::Ule;
            auto inner = [&](E x) -> E { return (x->op == Op::ZExt || x->op == Op::SExt) ? x->k[0] : nullptr; };
            E ia = inner(a), ib = inner(b);
            if(ia && ib && a->op == b->op && ia->w == ib->w) {
                if(a->op == Op::ZExt)
                    return mkBin(uop, ia, ib);
                return mkBin(op, ia, ib);  // sext preserves both orders
            }
            // zext vs constant
            if(a->op == Op::ZExt && isC(b)) {
                unsigned iw = a->k[0]->w;
                i128 lo = 0, hi = (i128)maskOf(iw);
                if(w < 128 || !sgn) {
                    if(sgn) {
                        i128 v = sextOf(b->c, w);
                        if(strict ? v > hi : v >= hi)
                            return mkTrue();
                        if(strict ? v <= lo : v < lo)
                            return mkFalse();
                        return mkBin(uop, a->k[0], mkConst((u128)v, iw));
                    }
                    if(b->c > (u128)hi)
                        return mkTrue();
                    return mkBin(uop, a->k[0], mkConst(b->c, iw));
                }
            }
            if(b->op == Op::ZExt && isC(a)) {
                unsigned iw = b->k[0]->w;
                i128 lo = 0, hi = (i128)maskOf(iw);
                if(w < 128 || !sgn) {
                    if(sgn) {
                        i128 v = sextOf(a->c, w);
                        if(strict ? v < lo : v <= lo)
                            return mkTrue();
                        if(strict ? v >= hi : v > hi)
                            return mkFalse();
                        return mkBin(uop, mkConst((u128)v, iw), b->k[0]);
                    }
                    if(a->c > (u128)hi)
                        return mkFalse();
                    return mkBin(uop, mkConst(a->c, iw), b->k[0]);
                }
            }
            if(sgn && a->op == Op::SExt && isC(b)) {
                unsigned iw = a->k[0]->w;
                i128 hi = (i128)(maskOf(iw) >> 1), lo = -hi - 1, v = sextOf(b->c, w);
                if(strict ? v > hi : v >= hi)
                    return mkTrue();
                if(strict ? v <= lo : v < lo)
                    return mkFalse();
                return mkBin(op, a->k[0], mkConst((u128)v, iw));
            }
            if(sgn && b->op == Op::SExt && isC(a)) {
                unsigned iw = b->k[0]->w;
                i128 hi = (i128)(maskOf(iw) >> 1), lo = -hi - 1, v = sextOf(a->c, w);
                if(strict ? v < lo : v <= lo)
                    return mkTrue();
                if(strict ? v >= hi : v > hi)
                    return mkFalse();
                return mkBin(op, mkConst((u128)v, iw), b->k[0]);
            }
            break;
        }
        default: break;
    }
    return intern(op, rw, 0, a, b);
}

E mkIte(E c, E a, E b) {
    if(isC(c))
        return c->c ? a : b;
    if(a == b)
        return a;
    if(c->op == Op::Xor && isC(c->k[1]))
        return mkIte(c->k[0], b, a);
    if(a->w == 1) {
        if(isTrue(a) && isFalse(b))
            return c;
        if(isFalse(a) && isTrue(b))
            return mkNot(c);
        if(isTrue(a))
            return mkOr(c, b);
        if(isFalse(a))
            return mkAnd(mkNot(c), b);
        if(isTrue(b))
            return mkOr(mkNot(c), a);
        if(isFalse(b))
            return mkAnd(c, a);
    }
    if(c->op == Op::Tab && a->w <= 64) {
        bool ok = true;
        for(E x : { a, b })
            if(!(isC(x) || (x->op == Op::Tab && x->c == c->c)))
                ok = false;
        if(ok) {
            size_t n = c->tab->size();
            std::vector<uint64_t> r(n);
            for(size_t i = 0; i < n; ++i)
                r[i] = (*c->tab)[i] ? tv(a, i) : tv(b, i);
            return mkTab((unsigned)c->c, r, a->w);
        }
    }
    if(a->op == Op::Ite && a->k[0] == c)
        a = a->k[1];
    if(b->op == Op::Ite && b->k[0] == c)
        b = b->k[2];
    if(a == b)
        return a;
    return intern(Op::Ite, a->w, 0, c, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w) {
    if(lo == 0 && w == a->w)
        return a;
    if(isC(a))
        return mkConst(a->c >> lo, w);
    if(a->op == Op::Tab) {
        std::vector<uint64_t> r = *a->tab;
        for(auto& v : r)
            v = (v >> lo) & (uint64_t)maskOf(w);
        return mkTab((unsigned)a->c, r, w);
    }
    switch(a->op) {
        case Op::Extract: return mkExtract(a->k[0], lo + (unsigned)a->c, w);
        case Op::Concat: {
            unsigned lw = a->k[1]->w;
            if(lo >= lw)
                return mkExtract(a->k[0], lo - lw, w);
            if(lo + w <= lw)
                return mkExtract(a->k[1], lo, w);
            return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
        }
        case Op::ZExt: {
            unsigned iw = a->k[0]->w;
            if(lo >= iw)
                return mkConst(0, w);
            if(lo + w <= iw)
                return mkExtract(a->k[0], lo, w);
            return mkZExt(mkExtract(a->k[0], lo, iw - lo), w);
        }
        case Op::SExt: {
            unsigned iw = a->k[0]->w;
            if(lo + w <= iw)
                return mkExtract(a->k[0], lo, w);
            if(lo < iw)
                return mkSExt(mkExtract(a->k[0], lo, iw - lo), w);
            break;
        }
        case Op::Ite:
            if(isC(a->k[1]) || isC(a->k[2]) || w > 8)
                return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
            break;
        case Op::Add:
        case Op::Sub:
        case Op::Mul:
            if(lo == 0 && w > 8)
                return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
            break;
        case Op::And:
        case Op::Or:
        case Op::Xor:
            if((lo == 0 && w > 8) || isC(a->k[1]))
                return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
            break;
        case Op::Shl:
            if(lo == 0 && w > 8 && isC(a->k[1]))
                return mkBin(Op::Shl, mkExtract(a->k[0], 0, w), mkConst(a->k[1]->c >= w ? w : a->k[1]->c, w));
            if(isC(a->k[1]) && a->k[1]->c < a->w && lo >= a->k[1]->c)
                return mkExtract(a->k[0], lo - (unsigned)a->k[1]->c, w);
            break;
        case Op::LShr:
        case Op::AShr:
            if(isC(a->k[1]) && a->k[1]->c < a->w && lo + w + (unsigned)a->k[1]->c <= a->w)
                return mkExtract(a->k[0], lo + (unsigned)a->k[1]->c, w);
            break;
        default: break;
    }
    return intern(Op::Extract, w, lo, a);
}

E mkRawExtract(E a, unsigned lo, unsigned w) {
    return intern(Op::Extract, w, lo, a);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if(isC(hi) && isC(lo))
        return mkConst((hi->c << lo->w) | lo->c, w);
    if(isC(hi) && hi->c == 0)
        return mkZExt(lo, w);
    unsigned var;
    if(w <= 64 && tabbable(hi, lo, var)) {
        size_t n = (hi->op == Op::Tab ? hi : lo)->tab->size();
        std::vector<uint64_t> r(n);
        for(size_t i = 0; i < n; ++i)
            r[i] = (tv(hi, i) << lo->w) | tv(lo, i);
        return mkTab(var, r, w);
    }
    if(hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] && (unsigned)hi->c == (unsigned)lo->c + lo->w)
        return mkExtract(hi->k[0], (unsigned)lo->c, w);
    // lo byte may be the simplified full value / hi nested
    if(hi->op == Op::Concat && hi->k[1]->op == Op::Extract && lo->op == Op::Extract && hi->k[1]->k[0] == lo->k[0] &&
       (unsigned)hi->k[1]->c == (unsigned)lo->c + lo->w)
        return mkConcat(hi->k[0], mkExtract(lo->k[0], (unsigned)lo->c, hi->k[1]->w + lo->w));
    if(hi->op == Op::Ite && lo->op == Op::Ite && hi->k[0] == lo->k[0])
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
    if(hi->op == Op::Ite && isC(lo) && iteConsts(hi))
        return mkIte(hi->k[0], mkConcat(hi->k[1], lo), mkConcat(hi->k[2], lo));
    if(lo->op == Op::Ite && isC(hi) && iteConsts(lo))
        return mkIte(lo->k[0], mkConcat(hi, lo->k[1]), mkConcat(hi, lo->k[2]));
    return intern(Op::Concat, w, 0, hi, lo);
}
E mkZExt(E a, unsigned w) {
    if(w == a->w)
        return a;
    if(isC(a))
        return mkConst(a->c, w);
    if(a->op == Op::ZExt)
        return mkZExt(a->k[0], w);
    if(a->op == Op::Tab && w <= 64)
        return mkTab((unsigned)a->c, *a->tab, w);
    if(iteConsts(a))
        return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
    return intern(Op::ZExt, w, 0, a);
}
E mkSExt(E a, unsigned w) {
    if(w == a->w)
        return a;
    if(isC(a))
        return mkConst((u128)sextOf(a->c, a->w), w);
    if(a->op == Op::SExt)
        return mkSExt(a->k[0], w);
    if(a->op == Op::ZExt)
        return mkZExt(a->k[0], w);
    if(a->op == Op::Tab && w <= 64) {
        auto r = *a->tab;
        for(auto& v : r)
            v = (uint64_t)((u128)sextOf(v, a->w) & maskOf(w));
        return mkTab((unsigned)a->c, r, w);
    }
    if(iteConsts(a))
        return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return intern(Op::SExt, w, 0, a);
}
E mkFp(Op op, unsigned w, E a, E b) {
    if(isC(a) && (!b || isC(b))) {
        u128 out;
        if(foldFp(op, w, a->c, a->w, b ? b->c : 0, out))
            return mkConst(out, w);
    }
    if(op == Op::FAbs)
        return mkBin(Op::And, a, mkConst(maskOf(w) >> 1, w));
    return intern(op, w, 0, a, b);
}
E mkUF(unsigned sym, unsigned w, E a, E b) { return intern(Op::Select, w, sym, a, b); }

u128 Evaluator::eval(E e) {
    if(e->op == Op::Const)
        return e->c;
    auto it = memo.find(e);
    if(it != memo.end())
        return it->second;
    u128 r = 0;
    switch(e->op) {
        case Op::Var: {
            auto f = m.v.find((unsigned)e->c);
            r = f == m.v.end() ? 0 : f->second;
            break;
        }
        case Op::Tab: {
            auto f = m.v.find((unsigned)e->c);
            size_t i = f == m.v.end() ? 0 : (size_t)f->second;
            if(i >= e->tab->size())
                i = 0;
            r = (*e->tab)[i];
            break;
        }
        case Op::Ite: r = eval(e->k[0]) ? eval(e->k[1]) : eval(e->k[2]); break;
        case Op::Concat: {
            u128 h = eval(e->k[0]);
            r = (h << e->k[1]->w) | eval(e->k[1]);
            break;
        }
        case Op::Extract: r = (eval(e->k[0]) >> (unsigned)e->c) & maskOf(e->w); break;
        case Op::ZExt: r = eval(e->k[0]); break;
        case Op::SExt: r = (u128)sextOf(eval(e->k[0]), e->k[0]->w) & maskOf(e->w); break;
        case Op::Select: ok = false; r = 0; break;
        default:
            if((int)e->op >= (int)Op::FAdd) {
                u128 a = eval(e->k[0]), b = e->k[1] ? eval(e->k[1]) : 0;
                if(!foldFp(e->op, e->w, a, e->k[0]->w, b, r)) {
                    ok = false;
                    r = 0;
                }
            } else {
                u128 a = eval(e->k[0]);
                u128 b = eval(e->k[1]);
                r = foldBin(e->op, a, b, e->k[0]->w);
            }
    }
    memo.emplace(e, r);
    return r;
}

const std::vector<unsigned>& varsOf(E e) {
    static std::unordered_map<E, std::vector<unsigned>> memo;
    static const std::vector<unsigned> none;
    if(e->op == Op::Const)
        return none;
    auto it = memo.find(e);
    if(it != memo.end())
        return it->second;
    std::vector<unsigned> r;
    if(e->op == Op::Var || e->op == Op::Tab)
        r.push_back((unsigned)e->c);
    else {
        for(int i = 0; i < 3; ++i)
            if(e->k[i]) {
                auto& v = varsOf(e->k[i]);
                std::vector<unsigned> t;
                t.reserve(r.size() + v.size());
                std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(t));
                r.swap(t);
            }
    }
    return memo.emplace(e, std::move(r)).first->second;
}

// ---- ring normal form ----
namespace {
    using Mono = std::vector<uint32_t>;  // sorted atom ids
    using Poly = std::map<Mono, u128>;
    std::unordered_map<uint32_t, E> atomById;
    void addTo(Poly& p, const Mono& m, u128 c, u128 mask) {
        auto& r = p[m];
        r = (r + c) & mask;
        if(r == 0)
            p.erase(m);
    }
    bool polyOf(E e, Poly& out, int depth);
    std::unordered_map<E, E> normMemo;
    E normAtom(E e);
    bool polyOf(E e, Poly& out, int depth) {
        u128 mask = maskOf(e->w);
        out.clear();
        switch(e->op) {
            case Op::Const: addTo(out, {}, e->c, mask); return true;
            case Op::Add:
            case Op::Sub: {
                Poly b;
                if(!polyOf(e->k[0], out, depth) || !polyOf(e->k[1], b, depth))
                    return false;
                for(auto& [m, c] : b)
                    addTo(out, m, e->op == Op::Sub ? (u128(0) - c) & mask : c, mask);
                return out.size() <= 64;
            }
            case Op::Mul: {
                Poly a, b;
                if(!polyOf(e->k[0], a, depth) || !polyOf(e->k[1], b, depth))
                    return false;
                if(a.size() * b.size() > 64)
                    return false;
                for(auto& [m1, c1] : a)
                    for(auto& [m2, c2] : b) {
                        Mono m = m1;
                        m.insert(m.end(), m2.begin(), m2.end());
                        if(m.size() > 8)
                            return false;
                        std::sort(m.begin(), m.end());
                        addTo(out, m, (c1 * c2) & mask, mask);
                    }
                return true;
            }
            case Op::Xor:
                if(isC(e->k[1]) && e->k[1]->c == mask && e->w > 1) {  // ~x = -1 - x
                    Poly a;
                    if(!polyOf(e->k[0], a, depth))
                        return false;
                    for(auto& [m, c] : a)
                        addTo(out, m, (u128(0) - c) & mask, mask);
                    addTo(out, {}, mask, mask);
                    return true;
                }
                break;
            case Op::Shl:
                if(isC(e->k[1])) {
                    Poly a;
                    if(!polyOf(e->k[0], a, depth))
                        return false;
                    for(auto& [m, c] : a)
                        addTo(out, m, e->k[1]->c >= e->w ? 0 : (c << (unsigned)e->k[1]->c) & mask, mask);
                    return true;
                }
                break;
            default: break;
        }
        E a = normAtom(e);
        if(a->op == Op::Const) {
            addTo(out, {}, a->c, mask);
            return true;
        }
        atomById[a->id] = a;
        addTo(out, { a->id }, 1, mask);
        return true;
    }
    E buildPoly(const Poly& p, unsigned w) {
        E acc = nullptr;
        E cst = nullptr;
        for(auto& [m, c] : p) {
            if(m.empty()) {
                cst = mkConst(c, w);
                continue;
            }
            E t = nullptr;
            for(auto a : m)
                t = t ? mkBin(Op::Mul, t, atomById[a]) : atomById[a];
            if(c != 1)
                t = mkBin(Op::Mul, t, mkConst(c, w));
            acc = acc ? mkBin(Op::Add, acc, t) : t;
        }
        if(!acc)
            return cst ? cst : mkConst(0, w);
        if(cst)
            acc = mkBin(Op::Add, acc, cst);
        return acc;
    }
    E normAtom(E e) {
        // normalise children, rebuild
        switch(e->op) {
            case Op::Const:
            case Op::Var:
            case Op::Tab: return e;
            case Op::Ite: return mkIte(normalize(e->k[0]), normalize(e->k[1]), normalize(e->k[2]));
            case Op::Concat: return mkConcat(normalize(e->k[0]), normalize(e->k[1]));
            case Op::Extract: return mkExtract(normalize(e->k[0]), (unsigned)e->c, e->w);
            case Op::ZExt: return mkZExt(normalize(e->k[0]), e->w);
            case Op::SExt: return mkSExt(normalize(e->k[0]), e->w);
            case Op::Select: return mkUF((unsigned)e->c, e->w, normalize(e->k[0]), e->k[1] ? normalize(e->k[1]) : nullptr);
            case Op::Eq: {
                E a = normalize(e->k[0]), b = normalize(e->k[1]);
                if(a == b)
                    return mkTrue();
                if(a->w > 1) {
                    Poly p, q;
                    u128 mask = maskOf(a->w);
                    if(polyOf(a, p, 0) && polyOf(b, q, 0)) {
                        for(auto& [m, c] : q)
                            addTo(p, m, (u128(0) - c) & mask, mask);
                        if(p.empty())
                            return mkTrue();
                        if(p.size() == 1 && p.begin()->first.empty())
                            return mkFalse();
                    }
                }
                return mkBin(Op::Eq, a, b);
            }
            default:
                if((int)e->op >= (int)Op::FAdd)
                    return mkFp(e->op, e->w, normalize(e->k[0]), e->k[1] ? normalize(e->k[1]) : nullptr);
                return mkBin(e->op, normalize(e->k[0]), normalize(e->k[1]));
        }
    }
}  // namespace
E normalize(E e) {
    if(e->op == Op::Const || e->op == Op::Var || e->op == Op::Tab)
        return e;
    auto it = normMemo.find(e);
    if(it != normMemo.end())
        return it->second;
    E r;
    switch(e->op) {
        case Op::Add:
        case Op::Sub:
        case Op::Mul:
        case Op::Shl:
        case Op::Xor: {
            Poly p;
            if(e->w > 1 && polyOf(e, p, 0))
                r = buildPoly(p, e->w);
            else if(e->op == Op::Add || e->op == Op::Sub || e->op == Op::Mul || e->op == Op::Shl || e->op == Op::Xor)
                r = mkBin(e->op, normalize(e->k[0]), normalize(e->k[1]));
            else
                r = normAtom(e);
            break;
        }
        default: r = normAtom(e);
    }
    normMemo.emplace(e, r);
    return r;
}

E rebuildExpr(E e, E const k[3]) {
    switch(e->op) {
        case Op::Const:
        case Op::Var:
        case Op::Tab: return e;
        case Op::Ite: return mkIte(k[0], k[1], k[2]);
        case Op::Concat: return mkConcat(k[0], k[1]);
        case Op::Extract: return mkExtract(k[0], (unsigned)e->c, e->w);
        case Op::ZExt: return mkZExt(k[0], e->w);
        case Op::SExt: return mkSExt(k[0], e->w);
        case Op::Select: return mkUF((unsigned)e->c, e->w, k[0], k[1]);
        default:
            if((int)e->op >= (int)Op::FAdd)
                return mkFp(e->op, e->w, k[0], k[1]);
            return mkBin(e->op, k[0], k[1]);
    }
}
static const char* opName(Op op) {
    static const char* n[] = { "const", "var", "tab", "bvadd", "bvsub", "bvmul", "bvudiv", "bvsdiv", "bvurem", "bvsrem", "bvshl", "bvlshr", "bvashr", "bvand", "bvor", "bvxor",
                               "=", "bvult", "bvule", "bvslt", "bvsle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "fisnan",
                               "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fabs", "fsqrt", "uf" };
    return n[(int)op];
}
static std::string u128s(u128 v) {
    if(v == 0)
        return "0";
    std::string s;
    while(v) {
        s += char('0' + (int)(v % 10));
        v /= 10;
    }
    std::reverse(s.begin(), s.end());
    return s;
}
std::string toStr(E e, int d) {
    std::ostringstream o;
    if(e->op == Op::Const) {
        o << u128s(e->c) << ":" << e->w;
    } else if(e->op == Op::Var) {
        o << g_vars[(unsigned)e->c].name;
    } else if(e->op == Op::Tab) {
        o << "tab(" << g_vars[(unsigned)e->c].name << ")";
    } else if(d <= 0) {
        o << "...";
    } else {
        o << "(" << opName(e->op);
        if(e->op == Op::Extract || e->op == Op::ZExt || e->op == Op::SExt)
            o << "[" << (unsigned)e->c << "," << e->w << "]";
        for(int i = 0; i < 3; ++i)
            if(e->k[i])
                o << " " << toStr(e->k[i], d - 1);
        o << ")";
    }
    return o.str();
}
std::string smtName(unsigned v) {
    std::string s = "|v" + std::to_string(v) + "_";
    for(char ch : g_vars[v].name)
        s += (ch == '|' || ch == '\\') ? '_' : ch;
    return s + "|";
}
// SMT-LIB printing: every node is a bit-vector (width 1 for booleans)
std::string toSmt(const std::vector<E>& cs) {
    std::ostringstream o;
    o << "(set-logic ALL)\n";
    std::unordered_set<E> seen;
    std::vector<E> order;
    std::function<void(E)> visit = [&](E e) {
        if(!seen.insert(e).second)
            return;
        for(int i = 0; i < 3; ++i)
            if(e->k[i])
                visit(e->k[i]);
        order.push_back(e);
    };
    for(E c : cs)
        visit(c);
    std::unordered_set<unsigned> vars;
    std::unordered_map<unsigned, std::string> ufs;
    for(E e : order)
        if(e->op == Op::Var || e->op == Op::Tab)
            if(vars.insert((unsigned)e->c).second)
                o << "(declare-const " << smtName((unsigned)e->c) << " (_ BitVec " << g_vars[(unsigned)e->c].w << "))\n";
    auto nm = [&](E e) -> std::string {
        if(e->op == Op::Const)
            return "(_ bv" + u128s(e->c) + " " + std::to_string(e->w) + ")";
        if(e->op == Op::Var)
            return smtName((unsigned)e->c);
        return "n" + std::to_string(e->id);
    };
    auto fpSort = [](unsigned w) -> std::string { return w == 32 ? "8 24" : "11 53"; };
    auto asFp = [&](E e) { return "((_ to_fp " + fpSort(e->w) + ") " + nm(e) + ")"; };
    for(E e : order) {
        if(e->op == Op::Const || e->op == Op::Var)
            continue;
        if(e->op == Op::Select) {
            auto key = (unsigned)e->c;
            if(!ufs.count(key)) {
                ufs[key] = "uf" + std::to_string(key);
                o << "(declare-fun uf" << key << " ((_ BitVec " << e->k[0]->w << ")";
                if(e->k[1])
                    o << " (_ BitVec " << e->k[1]->w << ")";
                o << ") (_ BitVec " << e->w << "))\n";
            }
        }
        if((int)e->op >= (int)Op::FAdd && e->op != Op::Select) {
            // result as fresh bv constrained through to_fp where result is floating
            std::string v = "n" + std::to_string(e->id);
            auto a = e->k[0];
            auto b = e->k[1];
            std::string fx;
            switch(e->op) {
                case Op::FAdd: fx = "(fp.add RNE " + asFp(a) + " " + asFp(b) + ")"; break;
                case Op::FSub: fx = "(fp.sub RNE " + asFp(a) + " " + asFp(b) + ")"; break;
                case Op::FMul: fx = "(fp.mul RNE " + asFp(a) + " " + asFp(b) + ")"; break;
                case Op::FDiv: fx = "(fp.div RNE " + asFp(a) + " " + asFp(b) + ")"; break;
                case Op::FSqrt: fx = "(fp.sqrt RNE " + asFp(a) + ")"; break;
                case Op::FPExt:
                case Op::FPTrunc: fx = "((_ to_fp " + fpSort(e->w) + ") RNE " + asFp(a) + ")"; break;
                case Op::SIToFP: fx = "((_ to_fp " + fpSort(e->w) + ") RNE " + nm(a) + ")"; break;
                case Op::UIToFP: fx = "((_ to_fp_unsigned " + fpSort(e->w) + ") RNE " + nm(a) + ")"; break;
                default: break;
            }
            if(!fx.empty()) {
                o << "(declare-const " << v << " (_ BitVec " << e->w << "))\n(assert (= ((_ to_fp " << fpSort(e->w) << ") " << v << ") " << fx << "))\n";
                continue;
            }
            std::string ex;
            switch(e->op) {
                case Op::FEq: ex = "(ite (fp.eq " + asFp(a) + " " + asFp(b) + ") #b1 #b0)"; break;
                case Op::FLt: ex = "(ite (fp.lt " + asFp(a) + " " + asFp(b) + ") #b1 #b0)"; break;
                case Op::FLe: ex = "(ite (fp.leq " + asFp(a) + " " + asFp(b) + ") #b1 #b0)"; break;
                case Op::FIsNan: ex = "(ite (fp.isNaN " + asFp(a) + ") #b1 #b0)"; break;
                case Op::FPToSI: ex = "((_ fp.to_sbv " + std::to_string(e->w) + ") RTZ " + asFp(a) + ")"; break;
                case Op::FPToUI: ex = "((_ fp.to_ubv " + std::to_string(e->w) + ") RTZ " + asFp(a) + ")"; break;
                default: abort();
            }
            o << "(define-fun " << v << " () (_ BitVec " << e->w << ") " << ex << ")\n";
            continue;
        }
        o << "(define-fun n" << e->id << " () (_ BitVec " << e->w << ") ";
        switch(e->op) {
            case Op::Tab: {
                // group by value
                std::string s;
                int closes = 0;
                for(size_t i = 0; i + 1 < e->tab->size(); ++i) {
                    s += "(ite (= " + smtName((unsigned)e->c) + " (_ bv" + std::to_string(i) + " 8)) (_ bv" + std::to_string((*e->tab)[i]) + " " + std::to_string(e->w) + ") ";
                    ++closes;
                }
                s += "(_ bv" + std::to_string(e->tab->back()) + " " + std::to_string(e->w) + ")";
                s += std::string(closes, ')');
                o << s;
                break;
            }
            case Op::Ite: o << "(ite (= " << nm(e->k[0]) << " #b1) " << nm(e->k[1]) << " " << nm(e->k[2]) << ")"; break;
            case Op::Concat: o << "(concat " << nm(e->k[0]) << " " << nm(e->k[1]) << ")"; break;
            case Op::Extract: o << "((_ extract " << (unsigned)e->c + e->w - 1 << " " << (unsigned)e->c << ") " << nm(e->k[0]) << ")"; break;
            case Op::ZExt: o << "((_ zero_extend " << e->w - e->k[0]->w << ") " << nm(e->k[0]) << ")"; break;
            case Op::SExt: o << "((_ sign_extend " << e->w - e->k[0]->w << ") " << nm(e->k[0]) << ")"; break;
            case Op::Eq:
            case Op::Ult:
            case Op::Ule:
            case Op::Slt:
            case Op::Sle: o << "(ite (" << opName(e->op) << " " << nm(e->k[0]) << " " << nm(e->k[1]) << ") #b1 #b0)"; break;
            case Op::Select:
                o << "(uf" << (unsigned)e->c << " " << nm(e->k[0]);
                if(e->k[1])
                    o << " " << nm(e->k[1]);
                o << ")";
                break;
            default: o << "(" << opName(e->op) << " " << nm(e->k[0]) << " " << nm(e->k[1]) << ")"; break;
        }
        o << ")\n";
    }
    for(E c : cs)
        o << "(assert (= " << nm(c) << " #b1))\n";
    return o.str();
}
