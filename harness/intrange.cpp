// Contracts for cmmc/Analysis/IntegerRange.{hpp,cpp}: the abstract domain used by
// every range-driven rewrite.  gamma(r) = values within the unsigned bounds, the
// signed bounds and the known bits.  Each operation must contain the result of the
// 32-bit operation on every pair of members.
#include "arith_lemmas.hpp"
#include <cmmc/Analysis/IntegerRange.hpp>
#include <algorithm>
#include <new>
using namespace cmmc;

static inline bool wf(const IntegerRange& r) {
    return (r.mMaxUnsignedValue <= 0xffffffffULL) & (r.mMinUnsignedValue <= 0xffffffffULL) &
        (r.mMinSignedValue >= -(1LL << 31)) & (r.mMinSignedValue <= INT32_MAX) & (r.mMaxSignedValue <= INT32_MAX) &
        (r.mMaxSignedValue >= -(1LL << 31));
}
static inline bool member(const IntegerRange& r, uint32_t a) {
    const int64_t s = static_cast<int32_t>(a);
    const uint64_t u = a;
    return (r.mMinUnsignedValue <= u) & (u <= r.mMaxUnsignedValue) & (r.mMinSignedValue <= s) & (s <= r.mMaxSignedValue) &
        ((a & r.mKnownZeros) == 0) & ((~a & r.mKnownOnes) == 0);
}
static inline bool bitsOk(const IntegerRange& r, uint32_t a) {
    return ((a & r.mKnownZeros) | (~a & r.mKnownOnes)) == 0;
}
static bool knownMember(const IntegerRange& r, uint32_t a) {
    const int64_t s = static_cast<int32_t>(a);
    const uint64_t u = a;
    return vf_known(r.mMinUnsignedValue <= u) && vf_known(u <= r.mMaxUnsignedValue) && vf_known(r.mMinSignedValue <= s) &&
        vf_known(s <= r.mMaxSignedValue) && vf_known(bitsOk(r, a));
}
static void arbitrary(IntegerRange& r) {
    r.mKnownZeros = vf_sym("zeros", 32);
    r.mKnownOnes = vf_sym("ones", 32);
    r.mMinUnsignedValue = vf_sym("minU", 32);
    r.mMaxUnsignedValue = vf_sym("maxU", 32);
    r.mMinSignedValue = static_cast<int32_t>(vf_sym("minS", 32));
    r.mMaxSignedValue = static_cast<int32_t>(vf_sym("maxS", 32));
}
// part 0: bounds, part 1: known bits (each part proves its own half of the result)
static void lemmasMul(const IntegerRange& x, const IntegerRange& y, uint32_t ua, uint32_t ub, uint64_t part) {
    using namespace lem;
    const int64_t a = static_cast<int32_t>(ua), b = static_cast<int32_t>(ub);
    if(part == 0) {
        mulFits(Use, ua, ub);
        mulCorners(Use, x.mMinSignedValue, x.mMaxSignedValue, y.mMinSignedValue, y.mMaxSignedValue, a, b);
        mulCornersU(Use, x.mMinUnsignedValue, x.mMaxUnsignedValue, y.mMinUnsignedValue, y.mMaxUnsignedValue, ua, ub);
        return;
    }
    const auto [s, n] = x.inferSuffix();
    const auto [t, k] = y.inferSuffix();
    auto mask = [](uint64_t len) { return static_cast<uint32_t>((1ULL << len) - 1); };
    auto low = [](uint64_t z) { return static_cast<uint32_t>((z & (0 - z)) - 1); };  // bits below the lowest one
    const uint32_t mn = mask(n), mk = mask(k);
    mulLow(Use, ua, s, ub, t, mn & mk);
    mulLow(Use, ua, 0, ub, ub, low(s) & mn);
    mulLow(Use, ua, ua, ub, 0, low(t) & mk);
}
static void lemmasSDiv(const IntegerRange& x, const IntegerRange& y, uint32_t ua, uint32_t ub) {
    using namespace lem;
    const int64_t a = static_cast<int32_t>(ua), b = static_cast<int32_t>(ub);
    const int64_t y0 = y.mMinSignedValue, y1 = y.mMaxSignedValue;
    if(b > 0)
        sdivCorners(Use, x.mMinSignedValue, x.mMaxSignedValue, std::max(int64_t(1), y0), std::max(int64_t(1), y1), a, b);
    else
        sdivCorners(Use, x.mMinSignedValue, x.mMaxSignedValue, std::min(int64_t(-1), y0), std::min(int64_t(-1), y1), a, b);
}
static void lemmasUDiv(const IntegerRange& x, const IntegerRange& y, uint32_t a, uint32_t b) {
    using namespace lem;
    udivMono(Use, x.mMinUnsignedValue, a, b, y.mMaxUnsignedValue);
    udivMono(Use, a, x.mMaxUnsignedValue, y.mMinUnsignedValue ? y.mMinUnsignedValue : 1, b);
}
// Ghost trace of the calls made under contract.  Their postconditions hold for every
// value; they are instantiated at the witnesses after the operation has returned, so
// that the operation itself is executed for all ranges at once.
enum Kind { Refine, Sync, Union, Intersect, Mul };
struct Call {
    Kind kind;
    IntegerRange a, b, out;
};
static Call* trace;
static int nTrace;
static void traceBegin() {
    if(vf_engine())
        trace = static_cast<Call*>(__builtin_malloc(sizeof(Call) * 400));
}
static IntegerRange& contractCall(Kind k, const IntegerRange& a, const IntegerRange& b) {
    Call& c = trace[nTrace++];
    c.kind = k;
    c.a = a;
    c.b = b;
    IntegerRange& r = c.out;
    r.mKnownZeros = vf_fresh(32);
    r.mKnownOnes = vf_fresh(32);
    r.mMinUnsignedValue = vf_fresh(32);
    r.mMaxUnsignedValue = vf_fresh(32);
    r.mMinSignedValue = static_cast<int32_t>(vf_fresh(32));
    r.mMaxSignedValue = static_cast<int32_t>(vf_fresh(32));
    return r;
}
// the five refinement steps of sync: no member is lost
#define REFINE(i, sym)                                                        \
    extern "C" void refine##i(IntegerRange*) __asm__(sym) __attribute__((weak)); \
    extern "C" void vfc_refine##i(IntegerRange* self) __asm__("vfc_" sym) __attribute__((used)); \
    void vfc_refine##i(IntegerRange* self) {                                  \
        vf_assert(wf(*self), "IntegerRange::sync/steps-keep-32-bit-bounds");  \
        *self = contractCall(Refine, *self, *self);                           \
    }
REFINE(0, "_ZN4cmmc12IntegerRange12bit2UnsignedEv")
REFINE(1, "_ZN4cmmc12IntegerRange12unsigned2BitEv")
REFINE(2, "_ZN4cmmc12IntegerRange10signed2BitEv")
REFINE(3, "_ZN4cmmc12IntegerRange15unsigned2SignedEv")
REFINE(4, "_ZN4cmmc12IntegerRange15signed2UnsignedEv")
extern "C" void vfc__ZN4cmmc12IntegerRange4syncEv(IntegerRange* self) {
    vf_assert(wf(*self), "IntegerRange::sync/requires-32-bit-bounds");
    *self = contractCall(Sync, *self, *self);
}
#define SYNC "_ZN4cmmc12IntegerRange4syncEv"
extern "C" void vfc__ZNK4cmmc12IntegerRange8unionSetERKS0_(IntegerRange* out, const IntegerRange* self, const IntegerRange* rhs) {
    *out = contractCall(Union, *self, *rhs);
}
#define UNION "_ZNK4cmmc12IntegerRange8unionSetERKS0_"
extern "C" void vfc__ZNK4cmmc12IntegerRange12intersectSetERKS0_(IntegerRange* out, const IntegerRange* self,
                                                                const IntegerRange* rhs) {
    *out = contractCall(Intersect, *self, *rhs);
}
#define INTERSECT "_ZNK4cmmc12IntegerRange12intersectSetERKS0_"
extern "C" void vfc__ZNK4cmmc12IntegerRangemlERKS0_(IntegerRange* out, const IntegerRange* self, const IntegerRange* rhs) {
    *out = contractCall(Mul, *self, *rhs);
}
#define MUL "_ZNK4cmmc12IntegerRangemlERKS0_"
// rely on the postconditions at the witness v (and x, y with v = x * y for products)
static void instantiate(uint32_t v, uint32_t x = 0, uint32_t y = 0) {
    for(int i = 0; i < nTrace; ++i) {
        Call& c = trace[i];
        bool in = false;
        switch(c.kind) {
            case Refine:
            case Sync: in = knownMember(c.a, v); break;
            case Union: in = knownMember(c.a, v) || knownMember(c.b, v); break;
            case Intersect: in = knownMember(c.a, v) && knownMember(c.b, v); break;
            case Mul: in = knownMember(c.a, x) && knownMember(c.b, y); break;
        }
        if(in)
            vf_assume(member(c.out, v));
    }
}
static bool identical(const IntegerRange& a, const IntegerRange& b) {
    return vf_known((a.mMinUnsignedValue == b.mMinUnsignedValue) & (a.mMaxUnsignedValue == b.mMaxUnsignedValue) &
                    (a.mMinSignedValue == b.mMinSignedValue) & (a.mMaxSignedValue == b.mMaxSignedValue) &
                    (a.mKnownZeros == b.mKnownZeros) & (a.mKnownOnes == b.mKnownOnes));
}

enum Part { All, Bounds, Bits };
static Part part = All;
static void check(const IntegerRange& r, uint32_t v, const char* ub, const char* sb, const char* kb) {
    const int64_t s = static_cast<int32_t>(v);
    if(part != Bits) {
        vf_assert(r.mMinUnsignedValue <= v, ub);
        vf_assert(v <= r.mMaxUnsignedValue, ub);
        vf_assert(r.mMinSignedValue <= s, sb);
        vf_assert(s <= r.mMaxSignedValue, sb);
    }
    if(part != Bounds)
        vf_assert(bitsOk(r, v), kb);
}
static void ensures(const IntegerRange& r, uint32_t v, const char* ub, const char* sb, const char* kb, const char* w) {
    if(vf_engine() && nTrace) {
        // the range returned is the last one refined: it must contain v beforehand
        Call& last = trace[nTrace - 1];
        if(last.kind == Sync && identical(last.out, r)) {
            check(last.a, v, ub, sb, kb);
            vf_assume(member(last.a, v));  // the other half is proved by the other part
            vf_assume(member(last.out, v));
        }
    }
    check(r, v, ub, sb, kb);
    vf_assert(wf(r), w);
}
#define ENSURES(op)                                                                                                       \
    ensures(r, v, #op "/unsigned-bounds-contain-result", #op "/signed-bounds-contain-result", #op "/known-bits-agree-with-result", \
            #op "/32-bit-bounds")
static void nonEmpty(const IntegerRange& r) {
    vf_assume((r.mMinUnsignedValue <= r.mMaxUnsignedValue) & (r.mMinSignedValue <= r.mMaxSignedValue) &
              ((r.mKnownZeros & r.mKnownOnes) == 0));
}

VF_ENTRY void ir_sync() {
    traceBegin();
    vf_disable_contract(SYNC);
    IntegerRange r;
    arbitrary(r);
    const uint32_t v = vf_sym("a", 32);
    vf_assume(member(r, v));
    vf_cover("sync");
    r.sync();
    instantiate(v);
    ENSURES(sync);
}
VF_ENTRY void ir_refine(uint64_t k) {
    static void (*const steps[])(IntegerRange*) = { refine0, refine1, refine2, refine3, refine4 };
    static const char* const names[] = { "_ZN4cmmc12IntegerRange12bit2UnsignedEv", "_ZN4cmmc12IntegerRange12unsigned2BitEv",
                                         "_ZN4cmmc12IntegerRange10signed2BitEv", "_ZN4cmmc12IntegerRange15unsigned2SignedEv",
                                         "_ZN4cmmc12IntegerRange15signed2UnsignedEv" };
    if(!steps[k]) {
        vf_cover("no such step");  // nothing relies on its contract either
        return;
    }
    vf_disable_contract(names[k]);
    IntegerRange r;
    arbitrary(r);
    const uint32_t v = vf_sym("a", 32);
    vf_assume(member(r, v));
    vf_cover("step");
    steps[k](&r);
    ENSURES(sync);
}

// the operation runs first; operands and result values are introduced afterwards
#define OP(id, name, call, lemma, pre, val)       \
    case id: {                                    \
        vf_disable_contract(#name[0] == 'm' ? MUL : "-"); \
        const IntegerRange r = call;              \
        vf_assume(member(x, a));                  \
        vf_assume(member(y, b));                  \
        vf_assume(pre);                           \
        vf_cover(#name);                          \
        lemma;                                    \
        const uint32_t v = val;                   \
        ENSURES(name);                            \
        break;                                    \
    }
VF_ENTRY void ir_binary(uint64_t op) {
    traceBegin();
    IntegerRange x, y;
    arbitrary(x);
    arbitrary(y);
    nonEmpty(x);
    nonEmpty(y);
    const uint32_t a = vf_sym("a", 32), b = vf_sym("b", 32);
    const int32_t sa = a, sb = b;
    switch(op) {
        OP(0, add, x + y, , true, a + b)
        OP(1, sub, x - y, , true, a - b)
        OP(2, mul, x* y, (part = Bounds, lemmasMul(x, y, a, b, 0)), true, a* b)
        OP(20, mul, x* y, (part = Bits, lemmasMul(x, y, a, b, 1)), true, a* b)
        OP(3, sdiv, x.sdiv(y), lemmasSDiv(x, y, a, b), (sb != 0) & !((sa == INT32_MIN) & (sb == -1)), static_cast<int64_t>(sa) / sb)
        OP(4, udiv, x.udiv(y), lemmasUDiv(x, y, a, b), b != 0, static_cast<uint64_t>(a) / b)
        OP(5, srem, x.srem(y), , (sb != 0) & !((sa == INT32_MIN) & (sb == -1)), static_cast<int64_t>(sa) % sb)
        OP(6, urem, x.urem(y), , b != 0, static_cast<uint64_t>(a) % b)
        OP(7, and, x& y, , true, a& b)
        OP(8, or, x | y, , true, a | b)
        OP(9, xor, x ^ y, , true, a ^ b)
        OP(13, smax, x.smax(y), , true, sa > sb ? a : b)
        OP(14, smin, x.smin(y), , true, sa < sb ? a : b)
        default: __builtin_trap();
    }
}
VF_ENTRY void ir_unary(uint64_t op) {
    traceBegin();
    IntegerRange x, y;
    arbitrary(x);
    nonEmpty(x);
    const uint32_t a = vf_sym("a", 32), b = a;
    const int32_t sa = a;
    y = x;
    switch(op) {
        OP(0, neg, x.neg(), , true, -a)
        OP(1, abs, x.abs(), , sa != INT32_MIN, sa < 0 ? -a : a)
        default: __builtin_trap();
    }
}
// one proof per least shift amount beg
VF_ENTRY void ir_shift(uint64_t op, uint64_t beg) {
    traceBegin();
    IntegerRange x, y;
    arbitrary(x);
    arbitrary(y);
    // beg 32: every negative lower bound
    y.mMinSignedValue = beg == 32 ? static_cast<int64_t>(vf_sym("minS_neg", 31) | 0xffffffff80000000ULL) : beg;
    beg &= 31;
    nonEmpty(x);
    nonEmpty(y);
    vf_assume(y.mMaxSignedValue >= 0);
    // only shift amounts up to 31 are defined
    const int64_t end = vf_concretize(y.mMaxSignedValue >= 31 ? 31 : y.mMaxSignedValue);
    IntegerRange r;
    switch(op) {
        case 0: r = x.shl(y); break;
        case 1: r = x.lshr(y); break;
        case 2: r = x.ashr(y); break;
        default: __builtin_trap();
    }
    const uint32_t a = vf_sym("a", 32);
    vf_assume(member(x, a));
    uint32_t b = vf_sym("b", 32);
    vf_assume((b >= beg) & (b <= end));
    vf_assume(member(y, b));
    b = vf_concretize(b);
    const uint32_t v = op == 0 ? a << b : op == 1 ? a >> b : static_cast<int32_t>(a) >> b;
    if(vf_engine()) {
        if(op == 0)
            instantiate(1U << b);
        instantiate(v, a, 1U << b);
    }
    switch(op) {
        case 0: vf_cover("shl"); ENSURES(shl); break;
        case 1: vf_cover("lshr"); ENSURES(lshr); break;
        case 2: vf_cover("ashr"); ENSURES(ashr); break;
    }
}
VF_ENTRY void ir_sets(uint64_t op) {
    IntegerRange x, y;
    arbitrary(x);
    arbitrary(y);
    const uint32_t v = vf_sym("a", 32);
    traceBegin();
    vf_disable_contract(UNION);
    vf_disable_contract(INTERSECT);
    switch(op) {
        case 0: {
            vf_assume(member(x, v) | member(y, v));
            vf_cover("union");
            const IntegerRange r = x.unionSet(y);
            ENSURES(union);
            break;
        }
        case 1: {
            vf_assume(member(x, v) & member(y, v));
            vf_cover("intersect");
            const IntegerRange r = x.intersectSet(y);
            ENSURES(intersect);
            vf_assert(x.intersectWith(y), "intersectWith/overlapping-ranges-are-reported");
            break;
        }
        case 2: {
            vf_assume(member(x, v));
            vf_cover("inferConstant");
            const auto c = x.inferConstant();
            if(c.has_value())
                vf_assert(*c == static_cast<int32_t>(v), "inferConstant/only-member");
            break;
        }
        case 3: {
            vf_assume(member(x, v));
            vf_cover("inferSuffix");
            const auto [s, len] = x.inferSuffix();
            vf_assert(len <= 32, "inferSuffix/length");
            const uint64_t mask = (1ULL << len) - 1;
            vf_assert((v & mask) == s, "inferSuffix/suffix-of-every-member");
            break;
        }
        case 4: {
            vf_assume(member(x, v));
            vf_cover("predicates");
            if(x.isNonNegative())
                vf_assert(static_cast<int32_t>(v) >= 0, "isNonNegative");
            if(x.isPositive())
                vf_assert(static_cast<int32_t>(v) > 0, "isPositive");
            if(x.isNoSignedOverflow())
                vf_assert((static_cast<int32_t>(v) != INT32_MAX) & (static_cast<int32_t>(v) != INT32_MIN), "isNoSignedOverflow");
            break;
        }
        case 5: {
            vf_cover("constructors");
            const IntegerRange full;
            vf_assert(member(full, v) & wf(full), "IntegerRange()/contains-everything");
            const IntegerRange c(static_cast<int64_t>(static_cast<int32_t>(v)));
            vf_assert(member(c, v) & wf(c), "IntegerRange(int64)/contains-the-constant");
            const IntegerRange cz(static_cast<int64_t>(v));
            vf_assert(member(cz, v) & wf(cz), "IntegerRange(int64)/contains-the-zero-extended-constant");
            vf_assert(!full.isFull() || member(full, v), "isFull");
            vf_assume(static_cast<int32_t>(v) >= 0);
            const IntegerRange nn = IntegerRange::getNonNegative();
            instantiate(v);
            vf_assert(member(nn, v) & wf(nn), "getNonNegative/contains-every-non-negative-value");
            break;
        }
        case 6: {
            vf_assume(member(x, v));
            vf_cover("isFull");
            if(x.isFull()) {
                const uint32_t o = vf_sym("other", 32);
                vf_assert(member(x, o), "isFull/contains-everything");
            }
            if(x == y)
                vf_assert(member(y, v), "operator==/same-members");
            break;
        }
        default: __builtin_trap();
    }
}
