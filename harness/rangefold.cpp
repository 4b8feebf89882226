// Contract of the rewriting that relies on value ranges, cmmc/Transforms/Combine/RangeAwareArithReduce.cpp:
// whatever ranges the analysis reports, if they contain the values the operands have, then a
// replaced instruction and its replacement have the same value.
#include "irlazy.hpp"
#include "arith_lemmas.hpp"
#include <cmmc/Analysis/DominateAnalysis.hpp>
#include <cmmc/Analysis/IntegerRangeAnalysis.hpp>
using namespace cmmc;
static uint64_t anyResult[64];
CMMC_NAMESPACE_BEGIN
template <>
inline const auto& AnalysisPassManager::get<IntegerRangeAnalysis>(Function&) {
    return *reinterpret_cast<const IntegerRangeAnalysisResult*>(anyResult);
}
template <>
inline const auto& AnalysisPassManager::get<DominateAnalysis>(Function&) {
    return *reinterpret_cast<const DominateAnalysisResult*>(anyResult);
}
CMMC_NAMESPACE_END
#include VF_SOURCE
using namespace lazyir;

// ---- contract of the analysis: any range that contains the value ------------------------
struct Query {
    Value* value;
    IntegerRange* range;
};
static Query queries[64];
static int numQueries;
static uint64_t symField(const char* what, int i, unsigned bits) {
    char buf[32];
    nameOf(buf, what, static_cast<unsigned>(i));
    return vf_sym(buf, bits);
}
static unsigned widthOf(Value* v) {
    return static_cast<const IntegerType*>(v->getType())->getBitwidth();
}
IntegerRange IntegerRangeAnalysisResult::query(Value* val, const DominateAnalysisResult&, Instruction*, uint32_t) const {
    IntegerRange r;
    if(widthOf(val) != 32)
        return r;
    const int code = codeOf(val);
    for(int i = 0; i < numQueries; ++i)
        if(queries[i].value == val)
            return *queries[i].range;
    if(numQueries == 64) {
        vf_assert(false, "harness/too-many-queries");
        vf_stop();
    }
    // (named after the position in the expression, not after the order of the questions)
    const int id = code < 0 ? 500 + numQueries : code;
    const uint64_t minS = symField("minS", id, 32), maxS = symField("maxS", id, 32);
    r.mMinSignedValue = static_cast<int32_t>(minS);
    r.mMaxSignedValue = static_cast<int32_t>(maxS);
    r.mMinUnsignedValue = symField("minU", id, 32);
    r.mMaxUnsignedValue = symField("maxU", id, 32);
    r.mKnownZeros = static_cast<uint32_t>(symField("zeros", id, 32));
    r.mKnownOnes = static_cast<uint32_t>(symField("ones", id, 32));
    queries[numQueries].value = val;
    queries[numQueries++].range = new IntegerRange(r);
    return r;
}
// ((x % m) * y) % m = (x * y) % m if x * y does not overflow: proved in lemmas/mulrem.v
static Node* compound(Value* v, I id) {
    const int code = codeOf(v);
    if(code < 0)
        return nullptr;
    Node& n = nodes[code];
    if(n.kind <= KOpaque || !n.operandsKnown || n.width != 32)
        return nullptr;
    settleNode(n);
    return n.kind > KOpaque && kindInfo(n, n.kind).id == id ? &n : nullptr;
}
static const IntegerRange* rangeOf(Value* v) {
    for(int i = 0; i < numQueries; ++i)
        if(queries[i].value == v)
            return queries[i].range;
    return nullptr;
}
static void lemmaMulRem() {
    Node* mul = compound(nodes[0].op[0], I::Mul);
    if(!mul)
        return;
    for(int i = 0; i < 2; ++i)
        if(Node* rem = compound(mul->op[i], I::SRem)) {
            const Val x = evalValue(rem->op[0], true), m = evalValue(rem->op[1], true), y = evalValue(mul->op[1 - i], true);
            const IntegerRange *r = rangeOf(rem->op[0]), *q = rangeOf(mul->op[1 - i]);
            if(!r || !q)
                continue;
            // a product of members lies between the products of the bounds, and is the 32-bit
            // product if it fits
            vf_assert(!(x.poison | y.poison | m.poison), "range/operands-defined");
            lem::mulCorners(lem::Use, r->mMinSignedValue, r->mMaxSignedValue, q->mMinSignedValue, q->mMaxSignedValue, static_cast<int32_t>(x.v), static_cast<int32_t>(y.v));
            lem::mulFits(lem::Use, static_cast<uint32_t>(x.v), static_cast<uint32_t>(y.v));
            const auto mulOf = [&](Val a) { return i == 0 ? evalBinary(I::Mul, 32, a, y, true) : evalBinary(I::Mul, 32, y, a, true); };
            const Val old = evalBinary(I::SRem, 32, mulOf(evalBinary(I::SRem, 32, x, m, true)), m, true);
            const Val p = evalBinary(I::Mul, 32, x, y, true);
            const Val now = evalBinary(I::SRem, 32, p, m, true);
            vf_assume(p.poison | now.poison | (now.v == old.v));
        }
}
// the ranges contain the values; those of constants are exact
static void rangesHold() {
    for(int i = 0; i < numQueries; ++i) {
        const IntegerRange& r = *queries[i].range;
        const Val x = evalValue(queries[i].value, true);
        const uint64_t v = x.v;
        const int64_t s = static_cast<int32_t>(v);
        const bool in = (r.mMinSignedValue <= s) & (s <= r.mMaxSignedValue) & (r.mMinUnsignedValue <= v) & (v <= r.mMaxUnsignedValue) &
            ((v & r.mKnownZeros) == 0) & ((~v & r.mKnownOnes) == 0);
        vf_assume(x.poison | in);
        const int code = codeOf(queries[i].value);
        if(code >= 0 && vf_is_concrete(nodes[code].kind) && nodes[code].kind == KConst)
            vf_assume((r.mMinSignedValue == s) & (r.mMaxSignedValue == s) & (r.mMinUnsignedValue == v) & (r.mMaxUnsignedValue == v) &
                      (r.mKnownOnes == v) & (r.mKnownZeros == (~v & 0xffffffffULL)));
    }
}

static void checkPass(unsigned width, bool boolRoot, uint64_t kind) {
    setup(width);
    sampleDivisors = width >= 16;
    static char storage[sizeof(Scene)];
    Scene& s = *new(storage) Scene;
    makeScene(s, boolRoot ? 1 : width, 1ULL << kind);
    AnalysisPassManager analysis{ s.module };
    alignas(RangeAwareArithReduce) static char pass[sizeof(RangeAwareArithReduce)];
    const bool changed = (new(pass) RangeAwareArithReduce)->run(*s.func, analysis);
    Value* now = s.ret->getOperand(0);
    vf_cover("ran");
    if(now == s.root) {
        if(!changed)
            return;
        replaced = s.root;
    }
    const Val before = evalNode(0, true);
    vf_assume(!before.poison);
    rangesHold();
    if(!boolRoot && intKinds[kind].id == I::SRem)
        lemmaMulRem();
    const Val after = evalValue(now, false);
    vf_cover("rewritten");
    vf_assert(!after.poison, "range/defined-where-the-original-is");
    vf_assert(after.v == before.v, "range/same-value");
}
VF_ENTRY void rf_int(uint64_t width, uint64_t kind) {
    checkPass(static_cast<unsigned>(width), false, kind);
}
VF_ENTRY void rf_bool(uint64_t width, uint64_t kind) {
    checkPass(static_cast<unsigned>(width), true, kind);
}
