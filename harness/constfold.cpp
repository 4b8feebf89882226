// Contract of the constant folding of cmmc/Transforms/Combine/ConstantPropagation.cpp:
// an instruction whose operands are constants is replaced by the value it computes.
#include "irlazy.hpp"
#include VF_SOURCE
#include <cmath>
using namespace lazyir;

// the blocks in dominance order: there is one
static DominateAnalysisResult* theOrder;
extern "C" const void* dominance(AnalysisPassManager*, Function*) __asm__("vfc__ZN4cmmc19AnalysisPassManager3getINS_16DominateAnalysisEvEERKDaRNS_8FunctionE") __attribute__((used));
const void* dominance(AnalysisPassManager*, Function* f) {
    theOrder = static_cast<DominateAnalysisResult*>(operator new(sizeof(DominateAnalysisResult)));
    new(&theOrder->mOrder) std::vector<Block*>();
    for(auto b : f->blocks())
        theOrder->mOrder.push_back(b);
    return theOrder;
}

static const ConstantPropagation& thePass() {
    alignas(ConstantPropagation) static char pass[sizeof(ConstantPropagation)];
    return *new(pass) ConstantPropagation;
}
// integer operators, comparisons, conversions and selects of a given width
static void checkInt(unsigned width, bool boolRoot, uint64_t kind) {
    setup(width);
    constOperands = true;
    static char storage[sizeof(Scene)];
    Scene& s = *new(storage) Scene;
    makeScene(s, boolRoot ? 1 : width, 1ULL << kind);
    AnalysisPassManager analysis{ s.module };
    thePass().run(*s.func, analysis);
    Value* now = s.ret->getOperand(0);
    vf_cover("ran");
    if(now == s.root)
        return;
    const Val before = evalNode(0, true);
    vf_assume(!before.poison);
    vf_cover("rewritten");
    vf_assert(now->getType()->isSame(s.root->getType()), "fold/same-type");
    auto c = dynamic_cast<ConstantInteger*>(now);
    vf_assert(c != nullptr, "fold/constant");
    if(!c)
        return;
    const unsigned w = boolRoot ? 1 : width;
    vf_assert((c->getZeroExtended() & maskOf(w)) == before.v, "fold/same-value");
    vf_assert(c->getZeroExtended() == before.v, "fold/zero-extended");
    vf_assert(static_cast<uint64_t>(c->getSignExtended()) == (w == 1 ? before.v : static_cast<uint64_t>(sx(before.v, w))), "fold/sign-extended");
}
VF_ENTRY void cf_int(uint64_t width, uint64_t kind) {
    checkInt(static_cast<unsigned>(width), false, kind);
}
VF_ENTRY void cf_bool(uint64_t width, uint64_t kind) {
    checkInt(static_cast<unsigned>(width), true, kind);
}

// ---- floating point -------------------------------------------------------------------
static double bitsToDouble(uint64_t v) {
    double d;
    __builtin_memcpy(&d, &v, 8);
    return d;
}
static float bitsToFloat(uint64_t v) {
    float d;
    const auto u = static_cast<uint32_t>(v);
    __builtin_memcpy(&d, &u, 4);
    return d;
}
static uint64_t floatBits(float f) {
    uint32_t u;
    __builtin_memcpy(&u, &f, 4);
    return u;
}
static uint64_t doubleBits(double f) {
    uint64_t u;
    __builtin_memcpy(&u, &f, 8);
    return u;
}
struct FpScene {
    AnyTarget target;
    Module* module;
    Function* func;
    Block* block;
    ReturnInst* ret;
    Value* run(Instruction* root) {
        module = static_cast<Module*>(operator new(sizeof(Module)));
        *const_cast<const mir::Target**>(&module->mTarget) = &target;
        func = new Function(String(), make<FunctionType>(VoidType::get(), Vector<const Type*>{}));
        block = make<Block>(func);
        func->blocks().push_back(block);
        root->insertBefore(block, block->instructions().end());
        ret = make<ReturnInst>(root);
        ret->insertBefore(block, block->instructions().end());
        AnalysisPassManager analysis{ module };
        thePass().run(*func, analysis);
        vf_cover("ran");
        return ret->getOperand(0);
    }
};
static char fpStorage[sizeof(FpScene)];
static const Type* fpType(unsigned bytes) {
    return FloatingPointType::get(bytes == 4);
}
// an arbitrary constant
struct FpConst {
    ConstantFloatingPoint* c;
    double value;
};
static FpConst fpConst(const char* name, unsigned bytes) {
    double v;
    if(bytes == 8)
        v = bitsToDouble(vf_sym(name, 64));
    else
        v = bitsToFloat(vf_sym(name, 32));
    return { make<ConstantFloatingPoint>(fpType(bytes), v), v };
}
static void sameFp(Value* now, Instruction* root, unsigned bytes, double expected, float expectedF) {
    if(now == root)
        return;
    vf_cover("rewritten");
    auto c = dynamic_cast<ConstantFloatingPoint*>(now);
    vf_assert(c != nullptr, "fold/constant");
    if(!c)
        return;
    vf_assert(c->getType()->isSame(root->getType()), "fold/same-type");
    const bool nan = bytes == 8 ? expected != expected : expectedF != expectedF;
    const double v = c->getValue();
    if(bytes == 8)
        vf_assert(nan ? v != v : doubleBits(v) == doubleBits(expected), "fold/same-value");
    else
        vf_assert(nan ? v != v : doubleBits(v) == doubleBits(static_cast<double>(expectedF)), "fold/same-value");
}
// a constant of a type has a value of that type
VF_ENTRY void cf_fpValue(uint64_t bytes) {
    const double d = bitsToDouble(vf_sym("a", 64));
    auto c = make<ConstantFloatingPoint>(fpType(bytes), d);
    vf_cover("ran");
    const double v = c->getValue();
    if(bytes == 8)
        vf_assert(d != d ? v != v : doubleBits(v) == doubleBits(d), "constant/value");
    else
        vf_assert(d != d ? v != v : doubleBits(v) == doubleBits(static_cast<double>(static_cast<float>(d))), "constant/value");
}
VF_ENTRY void cf_fpUnary(uint64_t bytes, uint64_t op) {
    FpScene& s = *new(fpStorage) FpScene;
    const auto a = fpConst("a", bytes);
    static const I ids[] = { I::FNeg, I::FAbs };
    auto root = make<UnaryInst>(ids[op], a.c);
    const double e = op == 0 ? -a.value : std::fabs(a.value);
    sameFp(s.run(root), root, bytes, e, static_cast<float>(e));
}
VF_ENTRY void cf_fpBinary(uint64_t bytes, uint64_t op) {
    FpScene& s = *new(fpStorage) FpScene;
    const auto a = fpConst("a", bytes), b = fpConst("b", bytes);
    static const I ids[] = { I::FAdd, I::FSub, I::FMul, I::FDiv };
    auto root = make<BinaryInst>(ids[op], a.c, b.c);
    const double x = a.c->getValue(), y = b.c->getValue();
    const double e = op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y;
    // a double operation rounded to float is the float operation for these four (Figueroa 1995);
    // the specification uses the same fact instead of the correctly rounded float operation
    sameFp(s.run(root), root, bytes, e, static_cast<float>(e));
}
VF_ENTRY void cf_fpCompare(uint64_t bytes, uint64_t op) {
    FpScene& s = *new(fpStorage) FpScene;
    const auto a = fpConst("a", bytes), b = fpConst("b", bytes);
    static const CompareOp ops[] = { CompareOp::FCmpOrderedEqual, CompareOp::FCmpUnorderedNotEqual, CompareOp::FCmpOrderedLessThan, CompareOp::FCmpOrderedLessEqual,
                                     CompareOp::FCmpOrderedGreaterThan, CompareOp::FCmpOrderedGreaterEqual, CompareOp::FCmpUnorderedLessThan,
                                     CompareOp::FCmpUnorderedLessEqual, CompareOp::FCmpUnorderedGreaterThan, CompareOp::FCmpUnorderedGreaterEqual };
    auto root = make<CompareInst>(I::FCmp, ops[op], a.c, b.c);
    Value* now = s.run(root);
    if(now == root)
        return;
    vf_cover("rewritten");
    const double x = a.value, y = b.value;
    const bool un = (x != x) | (y != y);
    const bool e = op == 0 ? x == y : op == 1 ? un | (x != y) : op == 2 ? x < y : op == 3 ? x <= y : op == 4 ? x > y : op == 5 ? x >= y :
                   op == 6 ? un | (x < y) : op == 7 ? un | (x <= y) : op == 8 ? un | (x > y) : un | (x >= y);
    auto c = dynamic_cast<ConstantInteger*>(now);
    vf_assert(c != nullptr, "fold/constant");
    if(!c)
        return;
    vf_assert(c->getType()->isBoolean(), "fold/same-type");
    vf_assert(c->getZeroExtended() == e, "fold/same-value");
}
// F2S, F2U, S2F, U2F, FCast
VF_ENTRY void cf_fpToInt(uint64_t bytes, uint64_t isUnsigned, uint64_t width) {
    FpScene& s = *new(fpStorage) FpScene;
    const auto a = fpConst("a", bytes);
    const double x = a.value;
    // out of range is undefined
    const auto w = static_cast<unsigned>(width);
    const double lim = static_cast<double>(1ULL << (w - 1));
    if(isUnsigned)
        vf_assume((x > -1.0) & (x < 2 * lim));
    else if(w == 32)
        vf_assume((x > -lim - 1) & (x < lim));
    else
        vf_assume((x >= -lim) & (x < lim));
    auto root = make<CastInst>(isUnsigned ? I::F2U : I::F2S, IntegerType::get(w), a.c);
    Value* now = s.run(root);
    if(now == root)
        return;
    vf_cover("rewritten");
    auto c = dynamic_cast<ConstantInteger*>(now);
    vf_assert(c != nullptr, "fold/constant");
    if(!c)
        return;
    vf_assert(c->getType()->isSame(root->getType()), "fold/same-type");
    const uint64_t e = isUnsigned ? static_cast<uint64_t>(x) : static_cast<uint64_t>(static_cast<int64_t>(x));
    vf_assert(c->getZeroExtended() == (e & maskOf(w)), "fold/same-value");
}
VF_ENTRY void cf_intToFp(uint64_t bytes, uint64_t isUnsigned, uint64_t width) {
    FpScene& s = *new(fpStorage) FpScene;
    const auto w = static_cast<unsigned>(width);
    const uint64_t v = vf_sym("a", w);
    auto a = make<ConstantInteger>(IntegerType::get(w), w == 1 ? static_cast<intmax_t>(v) : sx(v, w), ExplicitConstruct{});
    auto root = make<CastInst>(isUnsigned ? I::U2F : I::S2F, fpType(bytes), a);
    const int64_t sv = w == 1 ? static_cast<int64_t>(v) : sx(v, w);
    if(bytes == 4)
        sameFp(s.run(root), root, bytes, 0, isUnsigned ? static_cast<float>(v) : static_cast<float>(sv));
    else
        sameFp(s.run(root), root, bytes, isUnsigned ? static_cast<double>(v) : static_cast<double>(sv), 0);
}
VF_ENTRY void cf_fpCast(uint64_t from, uint64_t to) {
    FpScene& s = *new(fpStorage) FpScene;
    const auto a = fpConst("a", from);
    auto root = make<CastInst>(I::FCast, fpType(to), a.c);
    sameFp(s.run(root), root, to, a.value, static_cast<float>(a.value));
}
// constants that are taken for each other are the same
VF_ENTRY void cf_fpEqual(uint64_t bytes) {
    const auto a = fpConst("a", bytes), b = fpConst("b", bytes);
    if(static_cast<const ConstantValue*>(a.c)->isEqual(static_cast<const ConstantValue*>(b.c))) {
        vf_cover("equal");
        if(bytes == 8)
            vf_assert(doubleBits(a.value) == doubleBits(b.value), "equal/same-value");
        else
            vf_assert(floatBits(static_cast<float>(a.value)) == floatBits(static_cast<float>(b.value)), "equal/same-value");
    }
}
VF_ENTRY void cf_intEqual(uint64_t width) {
    const auto w = static_cast<unsigned>(width);
    const uint64_t x = vf_sym("a", 64), y = vf_sym("b", 64);
    auto a = make<ConstantInteger>(IntegerType::get(w), static_cast<intmax_t>(x), ExplicitConstruct{});
    auto b = make<ConstantInteger>(IntegerType::get(w), static_cast<intmax_t>(y), ExplicitConstruct{});
    if(w == 1)
        vf_assume((x <= 1) & (y <= 1));
    if(static_cast<const ConstantValue*>(a)->isEqual(b)) {
        vf_cover("equal");
        vf_assert((x & maskOf(w)) == (y & maskOf(w)), "equal/same-value");
    } else
        vf_assert((x & maskOf(w)) != (y & maskOf(w)), "equal/found");
}
// select between equal constants
VF_ENTRY void cf_fpSelect(uint64_t bytes) {
    FpScene& s = *new(fpStorage) FpScene;
    const auto a = fpConst("a", bytes), b = fpConst("b", bytes);
    const bool c = vf_sym("c", 1);
    auto root = make<SelectInst>(ConstantInteger::get(IntegerType::getBoolean(), c), a.c, b.c);
    const double e = c ? a.value : b.value;
    sameFp(s.run(root), root, bytes, e, static_cast<float>(e));
}
