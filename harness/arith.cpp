// Contract of the expression rewriting of cmmc/Transforms/Combine/ArithmeticReduce.cpp:
// a replaced instruction and its replacement have the same value for all operands.
#include "irlazy.hpp"
#include VF_SOURCE
using namespace lazyir;

// Known finding: (x <= y) & (x < z) becomes x < smin(y + 1, z), also if y + 1 wraps
// around (and the mirrored x > smax(y - 1, z)).
static bool boundPlusOneWraps() {
    const Node& r = nodes[0];
    if(r.width != 1 || boolKinds[r.kind].id != I::And || !r.operandsKnown)
        return false;
    struct Cmp {
        Value *x, *y;
        CompareOp op;
        bool ok;
    } c[2];
    for(int i = 0; i < 2; ++i) {
        const int code = codeOf(r.op[i]);
        if(code < 0)
            return false;
        Node& n = nodes[code];
        if(n.width != 1 || !n.operandsKnown || n.kind < KFirst || boolKinds[n.kind].id != I::ICmp)
            return false;
        c[i] = { n.op[0], n.op[1], static_cast<CompareOp>(vf_concretize(n.cmp)), true };
    }
    bool wraps = false;
    const auto atLimit = [](Value* v, bool upper) {
        const Node& n = nodes[codeOf(v)];
        if(n.width == 1)
            return false;
        return n.memo.v == (upper ? (1ULL << (n.width - 1)) - 1 : 1ULL << (n.width - 1));
    };
    for(int i = 0; i < 2; ++i)
        for(int swap = 0; swap < 4; ++swap) {
            Cmp a = c[i], b = c[1 - i];
            if(swap & 1)
                a = { a.y, a.x, getReversedOp(a.op), true };
            if(swap & 2)
                b = { b.y, b.x, getReversedOp(b.op), true };
            if(a.x != b.x)
                continue;
            if(a.op == CompareOp::ICmpSignedLessEqual && b.op == CompareOp::ICmpSignedLessThan)
                wraps |= atLimit(a.y, true);
            if(a.op == CompareOp::ICmpSignedGreaterEqual && b.op == CompareOp::ICmpSignedGreaterThan)
                wraps |= atLimit(a.y, false);
        }
    return wraps;
}

static void checkPass(const TransformPass<Function>& pass, unsigned width, bool boolRoot, uint64_t kinds, bool native) {
    setup(width);
    sampleDivisors = width >= 16;
    static char storage[sizeof(Scene)];
    Scene& s = *new(storage) Scene;
    s.target.native = native;
    makeScene(s, boolRoot ? 1 : width, kinds);
    AnalysisPassManager analysis{ s.module };
    const bool changed = pass.run(*s.func, analysis);
    Value* now = s.ret->getOperand(0);
    vf_cover("ran");
    if(now == s.root) {
        // nothing replaced; operands may have been rearranged
        if(!changed)
            return;
        replaced = s.root;
    }
    const Val before = evalNode(0, true);
    vf_assume(!before.poison);
    const Val after = evalValue(now, false);
    vf_cover("rewritten");
    const bool known = boundPlusOneWraps();
    if(known & (after.v != before.v)) {
        vf_cover("finding/bound-plus-one-wraps");
        return;
    }
    vf_assert(!after.poison, "rewrite/defined-where-the-original-is");
    vf_assert(after.v == before.v, "rewrite/same-value");
}
VF_ENTRY void ar_int(uint64_t width, uint64_t kind, uint64_t native) {
    alignas(ArithmeticReduce) static char pass[sizeof(ArithmeticReduce)];
    checkPass(*new(pass) ArithmeticReduce, static_cast<unsigned>(width), false, 1ULL << kind, native);
}
VF_ENTRY void ar_bool(uint64_t width, uint64_t kind, uint64_t native) {
    alignas(ArithmeticReduce) static char pass[sizeof(ArithmeticReduce)];
    checkPass(*new(pass) ArithmeticReduce, static_cast<unsigned>(width), true, 1ULL << kind, native);
}
