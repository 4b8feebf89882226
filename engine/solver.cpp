#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
#include <z3.h>

SolverStats g_stats;
double nowSec() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

namespace {
    Z3_context ctx = nullptr;
    std::unordered_map<E, Z3_ast> memo;
    std::unordered_map<unsigned, Z3_ast> varAst;
    std::unordered_map<unsigned, Z3_func_decl> ufDecl;
    void init() {
        if(ctx)
            return;
        Z3_config cfg = Z3_mk_config();
        Z3_set_param_value(cfg, "model", "true");
        ctx = Z3_mk_context(cfg);
        Z3_del_config(cfg);
        Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(2); });
    }
    Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
    Z3_ast num(u128 v, unsigned w) {
        if(w <= 64)
            return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(w));
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bv(64));
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64) & (uint64_t)maskOf(w - 64), bv(w - 64));
        return Z3_mk_concat(ctx, hi, lo);
    }
    // node of width 1 -> Bool
    Z3_ast tr(E e);
    Z3_ast asBv(E e) {
        Z3_ast a = tr(e);
        if(e->w == 1)
            return Z3_mk_ite(ctx, a, num(1, 1), num(0, 1));
        return a;
    }
    Z3_ast toBool(Z3_ast b1) { return Z3_mk_eq(ctx, b1, num(1, 1)); }
    Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
    Z3_ast asFp(E e) { return Z3_mk_fpa_to_fp_bv(ctx, asBv(e), fps(e->w)); }
    Z3_ast tr0(E e) {
        auto and2 = [&](Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_and(ctx, 2, x); };
        auto or2 = [&](Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_or(ctx, 2, x); };
        switch(e->op) {
            case Op::Const:
                if(e->w == 1)
                    return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
                return num(e->c, e->w);
            case Op::Var:
            case Op::Tab: {
                unsigned v = (unsigned)e->c;
                auto it = varAst.find(v);
                Z3_ast va;
                if(it == varAst.end()) {
                    Z3_symbol s = Z3_mk_string_symbol(ctx, ("v" + std::to_string(v)).c_str());
                    va = Z3_mk_const(ctx, s, g_vars[v].w == 1 ? Z3_mk_bool_sort(ctx) : bv(g_vars[v].w));
                    Z3_inc_ref(ctx, va);
                    varAst[v] = va;
                } else
                    va = it->second;
                if(e->op == Op::Var)
                    return va;
                auto mk = [&](uint64_t x) { return e->w == 1 ? (x ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(x, e->w); };
                Z3_ast r = mk(e->tab->back());
                for(int i = (int)e->tab->size() - 2; i >= 0; --i)
                    r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, va, num(i, 8)), mk((*e->tab)[i]), r);
                return r;
            }
            case Op::Ite: return Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2]));
            case Op::Concat: return Z3_mk_concat(ctx, asBv(e->k[0]), asBv(e->k[1]));
            case Op::Extract: {
                Z3_ast r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, asBv(e->k[0]));
                return e->w == 1 ? toBool(r) : r;
            }
            case Op::ZExt:
                if(e->k[0]->w == 1)
                    return Z3_mk_ite(ctx, tr(e->k[0]), num(1, e->w), num(0, e->w));
                return Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, tr(e->k[0]));
            case Op::SExt:
                if(e->k[0]->w == 1)
                    return Z3_mk_ite(ctx, tr(e->k[0]), num(~u128(0) & maskOf(e->w), e->w), num(0, e->w));
                return Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, tr(e->k[0]));
            case Op::Eq: return Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1]));
            case Op::Select: {
                unsigned s = (unsigned)e->c;
                if(!ufDecl.count(s)) {
                    Z3_sort d[2] = { bv(e->k[0]->w), e->k[1] ? bv(e->k[1]->w) : nullptr };
                    auto fd = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("uf" + std::to_string(s)).c_str()), e->k[1] ? 2 : 1, d, bv(e->w));
                    Z3_inc_ref(ctx, Z3_func_decl_to_ast(ctx, fd));
                    ufDecl[s] = fd;
                }
                Z3_ast args[2] = { asBv(e->k[0]), e->k[1] ? asBv(e->k[1]) : nullptr };
                Z3_ast r = Z3_mk_app(ctx, ufDecl[s], e->k[1] ? 2 : 1, args);
                return e->w == 1 ? toBool(r) : r;
            }
            default: break;
        }
        if((int)e->op >= (int)Op::FAdd) {
            Z3_ast rne = Z3_mk_fpa_rne(ctx);
            auto ieee = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); };
            switch(e->op) {
                case Op::FAdd: return ieee(Z3_mk_fpa_add(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
                case Op::FSub: return ieee(Z3_mk_fpa_sub(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
                case Op::FMul: return ieee(Z3_mk_fpa_mul(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
                case Op::FDiv: return ieee(Z3_mk_fpa_div(ctx, rne, asFp(e->k[0]), asFp(e->k[1])));
                case Op::FSqrt: return ieee(Z3_mk_fpa_sqrt(ctx, rne, asFp(e->k[0])));
                case Op::FEq: return Z3_mk_fpa_eq(ctx, asFp(e->k[0]), asFp(e->k[1]));
                case Op::FLt: return Z3_mk_fpa_lt(ctx, asFp(e->k[0]), asFp(e->k[1]));
                case Op::FLe: return Z3_mk_fpa_leq(ctx, asFp(e->k[0]), asFp(e->k[1]));
                case Op::FIsNan: return Z3_mk_fpa_is_nan(ctx, asFp(e->k[0]));
                case Op::SIToFP: return ieee(Z3_mk_fpa_to_fp_signed(ctx, rne, asBv(e->k[0]), fps(e->w)));
                case Op::UIToFP: return ieee(Z3_mk_fpa_to_fp_unsigned(ctx, rne, asBv(e->k[0]), fps(e->w)));
                case Op::FPToSI: {
                    Z3_ast r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), asFp(e->k[0]), e->w);
                    return e->w == 1 ? toBool(r) : r;
                }
                case Op::FPToUI: {
                    Z3_ast r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), asFp(e->k[0]), e->w);
                    return e->w == 1 ? toBool(r) : r;
                }
                case Op::FPExt:
                case Op::FPTrunc: return ieee(Z3_mk_fpa_to_fp_float(ctx, rne, asFp(e->k[0]), fps(e->w)));
                default: abort();
            }
        }
        Z3_ast a = tr(e->k[0]), b = tr(e->k[1]);
        if(e->k[0]->w == 1) {
            switch(e->op) {
                case Op::And: return and2(a, b);
                case Op::Or: return or2(a, b);
                case Op::Xor: return isC(e->k[1]) && e->k[1]->c ? Z3_mk_not(ctx, a) : Z3_mk_xor(ctx, a, b);
                case Op::Ult: return and2(Z3_mk_not(ctx, a), b);
                case Op::Ule: return or2(Z3_mk_not(ctx, a), b);
                case Op::Slt: return and2(a, Z3_mk_not(ctx, b));
                case Op::Sle: return or2(a, Z3_mk_not(ctx, b));
                default: a = asBv(e->k[0]); b = asBv(e->k[1]); break;
            }
        }
        Z3_ast r;
        switch(e->op) {
            case Op::Add: r = Z3_mk_bvadd(ctx, a, b); break;
            case Op::Sub: r = Z3_mk_bvsub(ctx, a, b); break;
            case Op::Mul: r = Z3_mk_bvmul(ctx, a, b); break;
            case Op::UDiv: r = Z3_mk_bvudiv(ctx, a, b); break;
            case Op::SDiv: r = Z3_mk_bvsdiv(ctx, a, b); break;
            case Op::URem: r = Z3_mk_bvurem(ctx, a, b); break;
            case Op::SRem: r = Z3_mk_bvsrem(ctx, a, b); break;
            case Op::Shl: r = Z3_mk_bvshl(ctx, a, b); break;
            case Op::LShr: r = Z3_mk_bvlshr(ctx, a, b); break;
            case Op::AShr: r = Z3_mk_bvashr(ctx, a, b); break;
            case Op::And: r = Z3_mk_bvand(ctx, a, b); break;
            case Op::Or: r = Z3_mk_bvor(ctx, a, b); break;
            case Op::Xor: r = Z3_mk_bvxor(ctx, a, b); break;
            case Op::Ult: return Z3_mk_bvult(ctx, a, b);
            case Op::Ule: return Z3_mk_bvule(ctx, a, b);
            case Op::Slt: return Z3_mk_bvslt(ctx, a, b);
            case Op::Sle: return Z3_mk_bvsle(ctx, a, b);
            default: abort();
        }
        return e->w == 1 ? toBool(r) : r;
    }
    Z3_ast tr(E e) {
        auto it = memo.find(e);
        if(it != memo.end())
            return it->second;
        Z3_ast r = tr0(e);
        Z3_inc_ref(ctx, r);
        memo[e] = r;
        return r;
    }
    bool hasFp(E e) {
        static std::unordered_map<E, bool> m;
        if(e->op == Op::Const || e->op == Op::Var || e->op == Op::Tab)
            return false;
        auto it = m.find(e);
        if(it != m.end())
            return it->second;
        bool r = (int)e->op >= (int)Op::FAdd;
        for(int i = 0; i < 3 && !r; ++i)
            if(e->k[i])
                r = hasFp(e->k[i]);
        m[e] = r;
        return r;
    }
    struct VH {
        size_t operator()(const std::vector<uint32_t>& v) const {
            size_t h = v.size();
            for(auto x : v)
                h = h * 1000003u ^ x;
            return h;
        }
    };
    struct CacheEnt {
        Sat r;
        std::shared_ptr<Model> m;
    };
    std::unordered_map<std::vector<uint32_t>, CacheEnt, VH> cache;
    uint64_t sinceReset = 0;
}  // namespace

static std::vector<E> withDomains(const std::vector<E>& cs) { return cs; }

Sat solverCheck(const std::vector<E>& cs0, Model* model, unsigned timeoutMs) {
    std::vector<E> cs;
    for(E c : cs0) {
        if(isTrue(c))
            continue;
        if(isFalse(c))
            return Sat::Unsat;
        cs.push_back(c);
    }
    if(cs.empty())
        return Sat::Sat;
    std::vector<uint32_t> key;
    for(E c : cs)
        key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key);
    if(it != cache.end() && it->second.r != Sat::Unknown) {
        ++g_stats.cacheHits;
        if(model && it->second.m)
            for(auto& kv : it->second.m->v)
                model->v[kv.first] = kv.second;
        return it->second.r;
    }
    init();
    if(++sinceReset > 20000 || memo.size() > 3000000) {
        // keep z3 memory bounded
        for(auto& kv : memo)
            Z3_dec_ref(ctx, kv.second);
        memo.clear();
        for(auto& kv : varAst)
            Z3_dec_ref(ctx, kv.second);
        varAst.clear();
        sinceReset = 0;
    }
    double t0 = nowSec();
    ++g_stats.queries;
    bool fp = false;
    for(E c : cs)
        fp |= hasFp(c);
    bool uf = false;
    Z3_solver s;
    if(fp || uf)
        s = Z3_mk_solver(ctx);
    else
    {
        static Z3_tactic tac = nullptr;
        if(!tac) {
            tac = Z3_mk_tactic(ctx, "qfbv");
            Z3_tactic_inc_ref(ctx, tac);
        }
        if(true) s = Z3_mk_solver_from_tactic(ctx, tac); else
        s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    }
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for(E c : cs)
        Z3_solver_assert(ctx, s, tr(c));
    Z3_lbool r = Z3_solver_check(ctx, s);
    CacheEnt ent{ Sat::Unknown, nullptr };
    if(r == Z3_L_FALSE) {
        ent.r = Sat::Unsat;
        ++g_stats.unsat;
    } else if(r == Z3_L_TRUE) {
        ent.r = Sat::Sat;
        ++g_stats.sat;
        ent.m = std::make_shared<Model>();
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        std::vector<unsigned> vs;
        for(E c : cs)
            for(unsigned v : varsOf(c))
                vs.push_back(v);
        std::sort(vs.begin(), vs.end());
        vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
        for(unsigned v : vs) {
            auto va = varAst.find(v);
            if(va == varAst.end())
                continue;
            Z3_ast out = nullptr;
            if(!Z3_model_eval(ctx, m, va->second, true, &out))
                continue;
            if(g_vars[v].w == 1) {
                ent.m->v[v] = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
            } else {
                uint64_t x = 0;
                if(g_vars[v].w <= 64 && Z3_get_numeral_uint64(ctx, out, &x))
                    ent.m->v[v] = g_vars[v].domSize && x >= (uint64_t)g_vars[v].domSize ? g_vars[v].domSize - 1 : x;
                else {
                    std::string str = Z3_get_numeral_string(ctx, out);
                    u128 y = 0;
                    for(char ch : str)
                        y = y * 10 + (ch - '0');
                    ent.m->v[v] = y;
                }
            }
        }
        Z3_model_dec_ref(ctx, m);
        if(model)
            for(auto& kv : ent.m->v)
                model->v[kv.first] = kv.second;
    } else
        ++g_stats.unknown;
    Z3_solver_dec_ref(ctx, s);
    g_stats.time += nowSec() - t0;
    if(cache.size() > 500000)
        cache.clear();
    cache[key] = ent;
    return ent.r;
}

// ---------- integer translation ----------
// Every bit-vector term is translated to its unsigned or signed integer value; interval
// bounds decide where no wrap-around is possible.  Terms without an arithmetic reading
// become arbitrary integers of their range, so only Unsat carries over.
namespace {
    struct IntTr {
        struct T {
            Z3_ast t;
            i128 lo, hi;
        };
        std::unordered_map<E, T> mu, ms;
        std::unordered_map<E, Z3_ast> mb;
        std::unordered_map<unsigned, T> vars;
        std::vector<Z3_ast> side;
        Z3_sort I;
        unsigned cnt = 0;
        IntTr() { I = Z3_mk_int_sort(ctx); }
        static i128 p2(unsigned w) { return (i128)1 << w; }
        Z3_ast n(i128 v) {
            bool neg = v < 0;
            u128 u = neg ? (u128)0 - (u128)v : (u128)v;
            std::string s;
            if(u == 0)
                s = "0";
            while(u) {
                s += char('0' + (int)(u % 10));
                u /= 10;
            }
            if(neg)
                s += '-';
            std::reverse(s.begin(), s.end());
            return Z3_mk_numeral(ctx, s.c_str(), I);
        }
        Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_add(ctx, 2, x); }
        Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_sub(ctx, 2, x); }
        Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_mul(ctx, 2, x); }
        Z3_ast and2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_and(ctx, 2, x); }
        Z3_ast or2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = { a, b }; return Z3_mk_or(ctx, 2, x); }
        T fresh(i128 lo, i128 hi) {
            Z3_ast v = Z3_mk_fresh_const(ctx, "i", I);
            side.push_back(Z3_mk_ge(ctx, v, n(lo)));
            side.push_back(Z3_mk_le(ctx, v, n(hi)));
            return { v, lo, hi };
        }
        bool isConstT(const T& t) { return t.lo == t.hi; }
        // product interval, false on 128-bit danger
        static bool mulIv(const T& a, const T& b, i128& lo, i128& hi) {
            auto big = [](i128 x) { return x > ((i128)1 << 64) || x < -((i128)1 << 64); };
            if(big(a.lo) || big(a.hi) || big(b.lo) || big(b.hi))
                return false;
            auto lim = [](i128 x) { return x > ((i128)1 << 63) || x < -((i128)1 << 63); };
            if((lim(a.lo) || lim(a.hi)) && (lim(b.lo) || lim(b.hi)))
                return false;
            if((lim(a.lo) || lim(a.hi) || lim(b.lo) || lim(b.hi))) {
                auto sm = [](i128 x) { return x < ((i128)1 << 62) && x > -((i128)1 << 62); };
                if(!((sm(a.lo) && sm(a.hi)) || (sm(b.lo) && sm(b.hi))))
                    return false;
            }
            i128 c[4] = { a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi };
            lo = *std::min_element(c, c + 4);
            hi = *std::max_element(c, c + 4);
            return true;
        }
        static bool nonlinear(const T& a, const T& b) { return a.lo != a.hi && b.lo != b.hi; }
        // exact signed / unsigned result of + - *, if it cannot wrap
        bool arith(Op op, const T& a, const T& b, i128 lo, i128 hi, T& r) {
            if(op == Op::Add) {
                if(a.lo + b.lo < lo || a.hi + b.hi > hi)
                    return false;
                r = { add(a.t, b.t), a.lo + b.lo, a.hi + b.hi };
                return true;
            }
            if(op == Op::Sub) {
                if(a.lo - b.hi < lo || a.hi - b.lo > hi)
                    return false;
                r = { sub(a.t, b.t), a.lo - b.hi, a.hi - b.lo };
                return true;
            }
            i128 l, h;
            if(!mulIv(a, b, l, h) || l < lo || h > hi)
                return false;
            r = { mul(a.t, b.t), l, h };
            return true;
        }
        T toU(const T& s, unsigned w) {
            if(s.lo >= 0)
                return s;
            if(s.hi < 0)
                return { add(s.t, n(p2(w))), s.lo + p2(w), s.hi + p2(w) };
            return { Z3_mk_ite(ctx, Z3_mk_lt(ctx, s.t, n(0)), add(s.t, n(p2(w))), s.t), 0, p2(w) - 1 };
        }
        T toS(const T& u, unsigned w) {
            if(u.hi < p2(w - 1))
                return u;
            if(u.lo >= p2(w - 1))
                return { sub(u.t, n(p2(w))), u.lo - p2(w), u.hi - p2(w) };
            return { Z3_mk_ite(ctx, Z3_mk_ge(ctx, u.t, n(p2(w - 1))), sub(u.t, n(p2(w))), u.t), -p2(w - 1), p2(w - 1) - 1 };
        }
        T modT(Z3_ast x, i128 lo, i128 hi, unsigned w) {  // x mod 2^w, x in [lo,hi]
            if(lo >= 0 && hi < p2(w))
                return { x, lo, hi };
            return { Z3_mk_mod(ctx, x, n(p2(w))), 0, p2(w) - 1 };
        }
        T U(E e) {
            auto it = mu.find(e);
            if(it != mu.end())
                return it->second;
            T r = U0(e);
            mu[e] = r;
            return r;
        }
        T S(E e) {
            auto it = ms.find(e);
            if(it != ms.end())
                return it->second;
            T r = S0(e);
            ms[e] = r;
            return r;
        }
        T U0(E e) {
            unsigned w = e->w;
            if(w > 100)
                return { Z3_mk_fresh_const(ctx, "big", I), -(p2(125)), p2(125) };
            i128 top = p2(w) - 1;
            if(w == 1) {
                if(e->op == Op::Const)
                    return { n(e->c != 0), (i128)(e->c != 0), (i128)(e->c != 0) };
                return { Z3_mk_ite(ctx, B(e), n(1), n(0)), 0, 1 };
            }
            switch(e->op) {
                case Op::Const: return { n((i128)e->c), (i128)e->c, (i128)e->c };
                case Op::Var: {
                    auto it = vars.find((unsigned)e->c);
                    if(it != vars.end())
                        return it->second;
                    T t = fresh(0, top);
                    vars[(unsigned)e->c] = t;
                    return t;
                }
                case Op::ZExt: return U(e->k[0]);
                case Op::SExt: return toU(S(e), w);
                case Op::Add:
                case Op::Sub:
                case Op::Mul: {
                    T a = U(e->k[0]), b = U(e->k[1]), r;
                    if(arith(e->op, a, b, 0, top, r))
                        return r;
                    if(arith(e->op, S(e->k[0]), S(e->k[1]), -p2(w - 1), p2(w - 1) - 1, r))
                        return toU(r, w);
                    if(e->op == Op::Add) {
                        Z3_ast s = add(a.t, b.t);
                        return { Z3_mk_ite(ctx, Z3_mk_gt(ctx, s, n(top)), sub(s, n(p2(w))), s), 0, top };
                    }
                    if(e->op == Op::Sub) {
                        Z3_ast s = sub(a.t, b.t);
                        return { Z3_mk_ite(ctx, Z3_mk_lt(ctx, s, n(0)), add(s, n(p2(w))), s), 0, top };
                    }
                    return { Z3_mk_mod(ctx, mul(a.t, b.t), n(p2(w))), 0, top };
                }
                case Op::UDiv: {
                    T a = U(e->k[0]), b = U(e->k[1]);
                    Z3_ast q = Z3_mk_div(ctx, a.t, b.t);
                    if(b.lo > 0)
                        return { q, a.lo / b.hi, a.hi / b.lo };
                    return { Z3_mk_ite(ctx, Z3_mk_eq(ctx, b.t, n(0)), n(top), q), 0, top };
                }
                case Op::URem: {
                    T a = U(e->k[0]), b = U(e->k[1]);
                    Z3_ast q = Z3_mk_mod(ctx, a.t, b.t);
                    if(b.lo > 0)
                        return { q, 0, std::min(a.hi, b.hi - 1) };
                    return { Z3_mk_ite(ctx, Z3_mk_eq(ctx, b.t, n(0)), a.t, q), 0, top };
                }
                case Op::SDiv:
                case Op::SRem:
                case Op::AShr: return toU(S(e), w);
                case Op::Shl:
                    if(isC(e->k[1]) && e->k[1]->c < w && e->k[1]->c < 64) {
                        T a = U(e->k[0]);
                        unsigned c = (unsigned)e->k[1]->c;
                        if(a.hi > (p2(120) >> c))
                            return fresh(0, top);
                        return modT(mul(a.t, n(p2(c))), a.lo * p2(c), a.hi * p2(c), w);
                    }
                    return fresh(0, top);
                case Op::LShr: {
                    T a = U(e->k[0]);
                    if(isC(e->k[1]) && e->k[1]->c < w) {
                        unsigned c = (unsigned)e->k[1]->c;
                        return { Z3_mk_div(ctx, a.t, n(p2(c))), a.lo >> c, a.hi >> c };
                    }
                    T f = fresh(0, top);
                    side.push_back(Z3_mk_le(ctx, f.t, a.t));
                    return f;
                }
                case Op::And: {
                    for(int i = 0; i < 2; ++i)
                        if(isC(e->k[i])) {
                            u128 m = e->k[i]->c;
                            if((m & (m + 1)) == 0) {  // low mask
                                unsigned k = 0;
                                while(m >> k)
                                    ++k;
                                T a = U(e->k[1 - i]);
                                return modT(a.t, a.lo, a.hi, k);
                            }
                        }
                    T a = U(e->k[0]), b = U(e->k[1]);
                    T f = fresh(0, std::min(a.hi, b.hi));
                    side.push_back(Z3_mk_le(ctx, f.t, a.t));
                    side.push_back(Z3_mk_le(ctx, f.t, b.t));
                    return f;
                }
                case Op::Or: {
                    T a = U(e->k[0]), b = U(e->k[1]);
                    T f = fresh(0, top);
                    side.push_back(Z3_mk_ge(ctx, f.t, a.t));
                    side.push_back(Z3_mk_ge(ctx, f.t, b.t));
                    side.push_back(Z3_mk_le(ctx, f.t, add(a.t, b.t)));
                    return f;
                }
                case Op::Xor: {
                    for(int i = 0; i < 2; ++i)
                        if(isC(e->k[i]) && e->k[i]->c == (u128)top) {
                            T a = U(e->k[1 - i]);
                            return { sub(n(top), a.t), top - a.hi, top - a.lo };
                        }
                    T a = U(e->k[0]), b = U(e->k[1]);
                    T f = fresh(0, top);
                    side.push_back(Z3_mk_le(ctx, f.t, add(a.t, b.t)));
                    return f;
                }
                case Op::Ite: {
                    T a = U(e->k[1]), b = U(e->k[2]);
                    return { Z3_mk_ite(ctx, B(e->k[0]), a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi) };
                }
                case Op::Concat: {
                    T h = U(e->k[0]), l = U(e->k[1]);
                    i128 m = p2(e->k[1]->w);
                    return { add(mul(h.t, n(m)), l.t), h.lo * m + l.lo, h.hi * m + l.hi };
                }
                case Op::Extract: {
                    E k = e->k[0];
                    unsigned lo = (unsigned)e->c;
                    if(lo == 0 && k->w <= 100) {
                        T a = U(k);
                        if(a.hi <= top)
                            return a;
                        T s = S(k);
                        if(s.lo >= -p2(w - 1) && s.hi < p2(w - 1))
                            return toU(s, w);
                        return { Z3_mk_mod(ctx, a.t, n(p2(w))), 0, top };
                    }
                    if(k->w > 100)
                        return fresh(0, top);
                    T a = U(k);
                    return modT(Z3_mk_div(ctx, a.t, n(p2(lo))), a.lo >> lo, a.hi >> lo, w);
                }
                default: return fresh(0, top);
            }
        }
        Z3_ast absT(const T& a) { return a.lo >= 0 ? a.t : Z3_mk_ite(ctx, Z3_mk_lt(ctx, a.t, n(0)), Z3_mk_unary_minus(ctx, a.t), a.t); }
        T S0(E e) {
            unsigned w = e->w;
            if(w > 100)
                return { Z3_mk_fresh_const(ctx, "big", I), -(p2(125)), p2(125) };
            if(w == 1)
                return { Z3_mk_ite(ctx, B(e), n(-1), n(0)), -1, 0 };
            i128 lo = -p2(w - 1), hi = p2(w - 1) - 1;
            switch(e->op) {
                case Op::Const: {
                    i128 v = sextOf(e->c, w);
                    return { n(v), v, v };
                }
                case Op::SExt: return S(e->k[0]);
                case Op::ZExt: return U(e->k[0]);
                case Op::Add:
                case Op::Sub:
                case Op::Mul: {
                    T r;
                    if(arith(e->op, S(e->k[0]), S(e->k[1]), lo, hi, r))
                        return r;
                    return toS(U(e), w);
                }
                case Op::Ite: {
                    T a = S(e->k[1]), b = S(e->k[2]);
                    return { Z3_mk_ite(ctx, B(e->k[0]), a.t, b.t), std::min(a.lo, b.lo), std::max(a.hi, b.hi) };
                }
                case Op::AShr:
                    if(isC(e->k[1]) && e->k[1]->c < w) {
                        T a = S(e->k[0]);
                        unsigned c = (unsigned)e->k[1]->c;
                        return { Z3_mk_div(ctx, a.t, n(p2(c))), a.lo >> c, a.hi >> c };
                    }
                    return fresh(lo, hi);
                case Op::SDiv: {
                    T a = S(e->k[0]), b = S(e->k[1]);
                    Z3_ast q = Z3_mk_div(ctx, absT(a), absT(b));
                    Z3_ast neg = a.lo >= 0 ? Z3_mk_lt(ctx, b.t, n(0)) : b.lo >= 0 ? Z3_mk_lt(ctx, a.t, n(0)) : Z3_mk_xor(ctx, Z3_mk_lt(ctx, a.t, n(0)), Z3_mk_lt(ctx, b.t, n(0)));
                    Z3_ast r = Z3_mk_ite(ctx, neg, Z3_mk_unary_minus(ctx, q), q);
                    if(a.lo == lo)
                        r = Z3_mk_ite(ctx, Z3_mk_gt(ctx, r, n(hi)), n(lo), r);
                    if(b.lo <= 0 && b.hi >= 0)  // SMT-LIB: x/0 = x<0 ? 1 : -1
                        r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, b.t, n(0)), Z3_mk_ite(ctx, Z3_mk_lt(ctx, a.t, n(0)), n(1), n(-1)), r);
                    i128 m = std::max(a.hi, -a.lo);
                    return { r, std::max(lo, std::min((i128)-1, -m)), std::min(hi, std::max((i128)1, m)) };
                }
                case Op::SRem: {
                    T a = S(e->k[0]), b = S(e->k[1]);
                    Z3_ast m = Z3_mk_mod(ctx, absT(a), absT(b));
                    Z3_ast r = a.lo >= 0 ? m : Z3_mk_ite(ctx, Z3_mk_lt(ctx, a.t, n(0)), Z3_mk_unary_minus(ctx, m), m);
                    if(b.lo <= 0 && b.hi >= 0)
                        r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, b.t, n(0)), a.t, r);
                    return { r, std::min(a.lo, (i128)0), std::max(a.hi, (i128)0) };
                }
                default: return toS(U(e), w);
            }
        }
        bool natS(E e) {
            return e->op == Op::SExt || e->op == Op::SDiv || e->op == Op::SRem || e->op == Op::AShr ||
                ((e->op == Op::Add || e->op == Op::Sub || e->op == Op::Mul) && (natS(e->k[0]) || natS(e->k[1]))) ||
                (e->op == Op::Ite && (natS(e->k[1]) || natS(e->k[2])));
        }
        Z3_ast B(E e) {
            auto it = mb.find(e);
            if(it != mb.end())
                return it->second;
            Z3_ast r = B0(e);
            mb[e] = r;
            return r;
        }
        Z3_ast B0(E e) {
            if(e->op == Op::Const)
                return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
            auto opaque = [&]() { return Z3_mk_fresh_const(ctx, "b", Z3_mk_bool_sort(ctx)); };
            E a = e->k[0], b = e->k[1];
            switch(e->op) {
                case Op::Eq:
                    if(a->w == 1)
                        return Z3_mk_iff(ctx, B(a), B(b));
                    if(natS(a) || natS(b))
                        return Z3_mk_eq(ctx, S(a).t, S(b).t);
                    return Z3_mk_eq(ctx, U(a).t, U(b).t);
                case Op::Ult: return Z3_mk_lt(ctx, U(a).t, U(b).t);
                case Op::Ule: return Z3_mk_le(ctx, U(a).t, U(b).t);
                case Op::Slt: return Z3_mk_lt(ctx, S(a).t, S(b).t);
                case Op::Sle: return Z3_mk_le(ctx, S(a).t, S(b).t);
                case Op::And: return and2(B(a), B(b));
                case Op::Or: return or2(B(a), B(b));
                case Op::Xor: return Z3_mk_xor(ctx, B(a), B(b));
                case Op::Ite: return Z3_mk_ite(ctx, B(a), B(b), B(e->k[2]));
                case Op::Extract: {
                    if(a->w > 100)
                        return opaque();
                    unsigned lo = (unsigned)e->c;
                    if(lo == a->w - 1)
                        return natS(a) ? Z3_mk_lt(ctx, S(a).t, n(0)) : Z3_mk_ge(ctx, U(a).t, n(p2(lo)));
                    T x = U(a);
                    Z3_ast d = lo ? Z3_mk_div(ctx, x.t, n(p2(lo))) : x.t;
                    return Z3_mk_eq(ctx, Z3_mk_mod(ctx, d, n(2)), n(1));
                }
                case Op::Tab:
                case Op::Var:
                default: return opaque();
            }
        }
    };
}  // namespace
Sat intCheck(const std::vector<E>& cs, unsigned timeoutMs) {
    init();
    double t0 = nowSec();
    for(E c : cs)
        if(hasFp(c))
            return Sat::Unknown;
    IntTr tr;
    // fresh asts are not ref-counted while we build: use a dedicated context-wide
    // solver that takes ownership immediately afterwards
    std::vector<Z3_ast> as;
    for(E c : cs)
        as.push_back(tr.B(c));
    Z3_solver s = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for(auto a : as)
        Z3_solver_assert(ctx, s, a);
    for(auto a : tr.side)
        Z3_solver_assert(ctx, s, a);
    if(getenv("DVC_INTDUMP"))
        fprintf(stderr, "%s(check-sat)\n", Z3_solver_to_string(ctx, s));
    Z3_lbool r = Z3_solver_check(ctx, s);
    Z3_solver_dec_ref(ctx, s);
    g_stats.intTime += nowSec() - t0;
    ++g_stats.intQueries;
    return r == Z3_L_FALSE ? Sat::Unsat : Sat::Unknown;
}

// ---------- external portfolio ----------
static bool parseModel(const std::string& out, Model& m) {
    // ((|v3_name| #x0000))
    size_t p = 0;
    while((p = out.find("(|v", p)) != std::string::npos) {
        p += 3;
        unsigned idx = (unsigned)strtoul(out.c_str() + p, nullptr, 10);
        size_t q = out.find('|', p);
        if(q == std::string::npos)
            return false;
        ++q;
        while(q < out.size() && isspace(out[q]))
            ++q;
        u128 v = 0;
        if(out.compare(q, 2, "#x") == 0) {
            for(q += 2; isxdigit(out[q]); ++q)
                v = v * 16 + (isdigit(out[q]) ? out[q] - '0' : (tolower(out[q]) - 'a' + 10));
        } else if(out.compare(q, 2, "#b") == 0) {
            for(q += 2; out[q] == '0' || out[q] == '1'; ++q)
                v = v * 2 + (out[q] - '0');
        } else if(out.compare(q, 5, "(_ bv") == 0) {
            for(q += 5; isdigit(out[q]); ++q)
                v = v * 10 + (out[q] - '0');
        } else
            return false;
        m.v[idx] = g_vars[idx].domSize && v >= g_vars[idx].domSize ? g_vars[idx].domSize - 1 : v;
        p = q;
    }
    return true;
}

Sat portfolioCheck(const std::vector<E>& cs, Model* model, unsigned timeoutSec, std::string& which) {
    double t0 = nowSec();
    std::string base = "/tmp/dvc_" + std::to_string(getpid()) + "_" + std::to_string(g_stats.queries++);
    std::string script = toSmt(cs);
    std::vector<unsigned> vs;
    for(E c : cs)
        for(unsigned v : varsOf(c))
            vs.push_back(v);
    std::sort(vs.begin(), vs.end());
    vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
    std::string getv;
    for(unsigned v : vs)
        getv += " " + smtName(v);
    std::string file = base + ".smt2";
    {
        std::ofstream f(file);
        f << "(set-option :produce-models true)\n" << script << "(check-sat)\n";
        if(!vs.empty())
            f << "(get-value (" << getv << "))\n";
    }
    struct P {
        std::string name;
        std::vector<std::string> argv;
        pid_t pid = -1;
        std::string out;
        bool done = false;
    };
    std::string T = std::to_string(timeoutSec);
    std::vector<P> ps = {
        { "z3-5.3", { "z3-new", "-T:" + T, "-memory:6000", file }, -1, "", false },
        { "cvc5", { "cvc5", "--tlimit=" + T + "000", file }, -1, "", false },
        { "z3-4.8", { "z3", "-T:" + T, "-memory:6000", file }, -1, "", false },
        { "cvc5-bv-as-int", { "cvc5", "--solve-bv-as-int=sum", "--tlimit=" + T + "000", file }, -1, "", false },
    };
    for(auto& p : ps) {
        p.out = base + "." + p.name;
        p.pid = fork();
        if(p.pid == 0) {
            int fd = open(p.out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600);
            dup2(fd, 1);
            dup2(fd, 2);
            std::vector<char*> av;
            for(auto& a : p.argv)
                av.push_back((char*)a.c_str());
            av.push_back(nullptr);
            execvp(av[0], av.data());
            _exit(127);
        }
    }
    Sat res = Sat::Unknown;
    double deadline = nowSec() + timeoutSec + 2;
    size_t left = ps.size();
    while(left && res == Sat::Unknown) {
        bool any = false;
        for(auto& p : ps) {
            if(p.done)
                continue;
            int st;
            pid_t r = waitpid(p.pid, &st, WNOHANG);
            if(r == p.pid) {
                any = true;
                p.done = true;
                --left;
                std::ifstream f(p.out);
                std::stringstream ss;
                ss << f.rdbuf();
                std::string o = ss.str();
                if(o.compare(0, 5, "unsat") == 0) {
                    res = Sat::Unsat;
                    which = p.name;
                } else if(o.compare(0, 3, "sat") == 0) {
                    Model m;
                    bool good = parseModel(o, m);
                    if(good) {
                        // validate
                        Evaluator ev(m);
                        for(E c : cs)
                            if(!ev.eval(c))
                                good = false;
                        if(!ev.ok)
                            good = true;
                    }
                    if(good) {
                        res = Sat::Sat;
                        which = p.name;
                        if(model)
                            for(auto& kv : m.v)
                                model->v[kv.first] = kv.second;
                    }
                }
                break;
            }
        }
        if(nowSec() > deadline)
            break;
        if(!any)
            usleep(3000);
    }
    for(auto& p : ps)
        if(!p.done) {
            kill(p.pid, SIGKILL);
            int st;
            waitpid(p.pid, &st, 0);
        }
    if(!getenv("DVC_KEEP"))
        unlink(file.c_str());
    for(auto& p : ps)
        unlink(p.out.c_str());
    g_stats.portfolioTime += nowSec() - t0;
    return res;
}
