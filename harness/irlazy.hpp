// Arbitrary expression DAGs for the IR rewriting passes, materialised while the real
// pass looks at them, and the meaning of IR integer expressions.
//
// A node is an object of the real IR classes; its class and opcode are one symbolic
// choice, its operands come into existence on first access, an operand is a new node
// or (sharing) a node that exists already.  What the pass never looked at stays an
// arbitrary value.
#pragma once
#include "vf.hpp"
#include <cmmc/CodeGen/Target.hpp>
#include <cmmc/IR/Block.hpp>
#include <cmmc/IR/ConstantValue.hpp>
#include <cmmc/IR/Function.hpp>
#include <cmmc/IR/Instruction.hpp>
#include <cmmc/IR/Module.hpp>
#include <cmmc/IR/Type.hpp>
#include <cmmc/Transforms/TransformPass.hpp>
#include <new>

extern "C" {
extern char vtConst[] __asm__("_ZTVN4cmmc15ConstantIntegerE");
extern char vtBinary[] __asm__("_ZTVN4cmmc10BinaryInstE");
extern char vtUnary[] __asm__("_ZTVN4cmmc9UnaryInstE");
extern char vtCompare[] __asm__("_ZTVN4cmmc11CompareInstE");
extern char vtCast[] __asm__("_ZTVN4cmmc8CastInstE");
extern char vtSelect[] __asm__("_ZTVN4cmmc10SelectInstE");
extern char vtLoad[] __asm__("_ZTVN4cmmc8LoadInstE");
}

namespace lazyir {
using namespace cmmc;
using I = InstructionID;

// ---- meaning -------------------------------------------------------------------
// v: the low `width` bits hold the value; poison: evaluation is undefined
struct Val {
    uint64_t v;
    bool poison;
};
inline uint64_t maskOf(unsigned w) {
    return w >= 64 ? ~0ULL : (1ULL << w) - 1;
}
inline int64_t sx(uint64_t v, unsigned w) {
    return w >= 64 ? static_cast<int64_t>(v) : static_cast<int64_t>(v << (64 - w)) >> (64 - w);
}
// strict: signed overflow is undefined (source side); otherwise it wraps
inline Val evalBinary(I op, unsigned w, Val x, Val y, bool strict) {
    const uint64_t m = maskOf(w), a = x.v, b = y.v;
    const int64_t sa = sx(a, w), sb = sx(b, w);
    const uint64_t minv = 1ULL << (w - 1);
    Val r{ 0, static_cast<bool>(x.poison | y.poison) };
    switch(op) {
        case I::Add: {
            r.v = (a + b) & m;
            if(strict && w > 1)
                r.poison |= ((~(a ^ b) & (a ^ r.v)) >> (w - 1)) & 1;
            break;
        }
        case I::Sub: {
            r.v = (a - b) & m;
            if(strict && w > 1)
                r.poison |= (((a ^ b) & (a ^ r.v)) >> (w - 1)) & 1;
            break;
        }
        case I::Mul: {
            r.v = (a * b) & m;
            if(strict && w > 1) {
                if(w < 64)
                    r.poison |= sa * sb != sx(r.v, w);
                else
                    r.poison |= static_cast<__int128>(sa) * sb != static_cast<int64_t>(r.v);
            }
            break;
        }
        case I::SDiv:
        case I::SRem: {
            const bool bad = (b == 0) | ((a == minv) & (b == m));
            r.poison |= bad;
            const int64_t d = static_cast<int64_t>(vf_ite(bad, 1, sb));
            r.v = static_cast<uint64_t>(op == I::SDiv ? sa / d : sa % d) & m;
            break;
        }
        case I::UDiv:
        case I::URem: {
            r.poison |= b == 0;
            const uint64_t d = vf_ite(b == 0, 1, b);
            r.v = op == I::UDiv ? a / d : a % d;
            break;
        }
        case I::And: r.v = a & b; break;
        case I::Or: r.v = a | b; break;
        case I::Xor: r.v = a ^ b; break;
        case I::Shl:
        case I::LShr:
        case I::AShr: {
            r.poison |= b >= w;
            const uint64_t s = b & 63;
            r.v = (op == I::Shl ? a << s : op == I::LShr ? a >> s : static_cast<uint64_t>(sa >> s)) & m;
            break;
        }
        case I::SMin: r.v = vf_ite(sa < sb, a, b); break;
        case I::SMax: r.v = vf_ite(sa < sb, b, a); break;
        default: vf_assert(false, "harness/binary-operator");
    }
    return r;
}
inline Val evalUnary(I op, unsigned w, Val x, bool strict) {
    const uint64_t m = maskOf(w), minv = 1ULL << (w - 1);
    Val r{ 0, x.poison };
    if(strict)
        r.poison |= x.v == minv;
    if(op == I::Neg)
        r.v = (0 - x.v) & m;
    else if(op == I::Abs)
        r.v = vf_ite(sx(x.v, w) < 0, (0 - x.v) & m, x.v);
    else
        vf_assert(false, "harness/unary-operator");
    return r;
}
inline bool evalICmp(CompareOp op, unsigned w, uint64_t a, uint64_t b) {
    const int64_t sa = w == 1 ? a : sx(a, w), sb = w == 1 ? b : sx(b, w);
    switch(op) {
        case CompareOp::ICmpEqual: return a == b;
        case CompareOp::ICmpNotEqual: return a != b;
        case CompareOp::ICmpSignedLessThan: return sa < sb;
        case CompareOp::ICmpSignedLessEqual: return sa <= sb;
        case CompareOp::ICmpSignedGreaterThan: return sa > sb;
        case CompareOp::ICmpSignedGreaterEqual: return sa >= sb;
        case CompareOp::ICmpUnsignedLessThan: return a < b;
        case CompareOp::ICmpUnsignedLessEqual: return a <= b;
        case CompareOp::ICmpUnsignedGreaterThan: return a > b;
        case CompareOp::ICmpUnsignedGreaterEqual: return a >= b;
        default: vf_assert(false, "harness/integer-comparison"); return false;
    }
}
inline Val evalCast(I op, unsigned from, unsigned to, Val x) {
    switch(op) {
        case I::ZExt: return { x.v, x.poison };
        case I::SExt: return { static_cast<uint64_t>(sx(x.v, from)) & maskOf(to), x.poison };
        case I::SignedTrunc:
        case I::UnsignedTrunc: return { x.v & maskOf(to), x.poison };
        default: vf_assert(false, "harness/cast"); return x;
    }
}

// ---- node kinds ------------------------------------------------------------------
struct Kind {
    char* vt;
    I id;
    int arity;  // operands
};
enum { KConst, KOpaque, KFirst };
constexpr int maxKinds = 32;
// integers wider than one bit
static const Kind intKinds[] = {
    { vtConst, I::None, 0 },      { vtLoad, I::Load, 0 },        { vtBinary, I::Add, 2 },  { vtBinary, I::Sub, 2 },   { vtBinary, I::Mul, 2 },
    { vtBinary, I::SDiv, 2 },     { vtBinary, I::UDiv, 2 },      { vtBinary, I::SRem, 2 }, { vtBinary, I::URem, 2 },  { vtUnary, I::Neg, 1 },
    { vtUnary, I::Abs, 1 },       { vtBinary, I::And, 2 },       { vtBinary, I::Or, 2 },   { vtBinary, I::Xor, 2 },   { vtBinary, I::Shl, 2 },
    { vtBinary, I::LShr, 2 },     { vtBinary, I::AShr, 2 },      { vtBinary, I::SMin, 2 }, { vtBinary, I::SMax, 2 },  { vtCast, I::ZExt, 1 },
    { vtCast, I::SExt, 1 },       { vtCast, I::SignedTrunc, 1 }, { vtCast, I::UnsignedTrunc, 1 }, { vtSelect, I::Select, 3 },
};
static const Kind boolKinds[] = {
    { vtConst, I::None, 0 }, { vtLoad, I::Load, 0 },         { vtBinary, I::And, 2 },        { vtBinary, I::Or, 2 },
    { vtBinary, I::Xor, 2 }, { vtCompare, I::ICmp, 2 },      { vtCast, I::UnsignedTrunc, 1 }, { vtSelect, I::Select, 3 },
};
constexpr int numIntKinds = sizeof(intKinds) / sizeof(Kind), numBoolKinds = sizeof(boolKinds) / sizeof(Kind);
static char* intVt[maxKinds];
static char* boolVt[maxKinds];
static uint64_t intId[maxKinds], boolId[maxKinds], intConst[maxKinds], boolConst[maxKinds], intArity[maxKinds], boolArity[maxKinds];

struct Node {
    Value* mem;
    unsigned width;
    uint64_t kind;       // symbolic choice
    bool operandsKnown;
    Value* op[3];        // as they were before the pass ran
    uint64_t opChoice[3];
    unsigned opWidth[3];
    uint64_t value;      // for constants and for what was not looked at
    uint64_t cmp;
    bool settled, evaluating, filled;
    Val memo;
    bool hasMemo;
};
constexpr int maxNodes = 364;   // paths of length <= 5 (ternary numbering)
constexpr int maxShared = 121;  // paths of length <= 4
static Node nodes[maxNodes];
static uint64_t numNodes;
static Block* theBlock;
static unsigned wide = 32;      // width of the integers of this expression
static bool constOperands = false;  // every operand of the root is a constant
static bool shareAny = false;   // shared operands may be compound expressions

inline void nameOf(char* buf, const char* what, unsigned code, int i = -1) {
    while(*what)
        *buf++ = *what++;
    *buf++ = static_cast<char>('0' + code / 100);
    *buf++ = static_cast<char>('0' + code / 10 % 10);
    *buf++ = static_cast<char>('0' + code % 10);
    if(i >= 0)
        *buf++ = static_cast<char>('a' + i);
    *buf = 0;
}
inline uint64_t symOf(const char* what, unsigned code, unsigned bits) {
    char buf[32];
    nameOf(buf, what, code);
    return vf_sym(buf, bits);
}
inline uint64_t symDivisor(unsigned code, unsigned n) {
    char buf[32];
    nameOf(buf, "divisor", code);
    return vf_dom(buf, n);
}
inline const Type* typeOf(unsigned w) {
    return IntegerType::get(w);
}
constexpr size_t nodeSize = sizeof(CompareInst) > sizeof(SelectInst) ? sizeof(CompareInst) : sizeof(SelectInst);

inline const Kind& kindInfo(const Node& n, uint64_t k) {
    return n.width == 1 ? boolKinds[k] : intKinds[k];
}
static Value* chooseOperand(unsigned parent, int i, unsigned w);
// users or constant value
static void initMiddle(void* p, uint64_t code) {
    Node& n = nodes[code];
    const uint64_t isConst = (n.width == 1 ? boolConst : intConst)[n.kind];
    if(isConst) {
        *reinterpret_cast<intmax_t*>(&static_cast<ConstantInteger*>(n.mem)->mValue) = n.width == 1 ? static_cast<intmax_t>(n.value) : sx(n.value, n.width);
    } else {
        auto& u = static_cast<TrackableValue*>(n.mem)->mUsers;
        u.mHead.value = n.mem;
        u.mHead.user = nullptr;
        u.mHead.prev = u.mHead.next = nullptr;
        char buf[32];
        nameOf(buf, "uses", static_cast<unsigned>(code));
        u.mUseCount = 1 + static_cast<int32_t>(vf_sym(buf, 8));
    }
}
static void initOperands(void* p, uint64_t code) {
    Node& n = nodes[code];
    auto inst = static_cast<Instruction*>(n.mem);
    const uint64_t arity = vf_concretize((n.width == 1 ? boolArity : intArity)[n.kind]);
    new(&inst->mOperands) Deque<ValueRefHandle>();
    // the two operands of a comparison have one type
    unsigned cmpWidth = 0;
    if(n.width == 1 && arity == 2 && boolVt[n.kind] == vtCompare + 16) {
        char buf[32];
        nameOf(buf, "bools", static_cast<unsigned>(code));
        cmpWidth = vf_concretize(vf_dom(buf, 2)) ? 1 : wide;
        if(cmpWidth == 1)
            vf_assume(n.cmp <= static_cast<uint64_t>(CompareOp::ICmpNotEqual));
    }
    for(uint64_t i = 0; i < arity; ++i) {
        unsigned w = cmpWidth ? cmpWidth : n.width;
        if(arity == 3 && i == 0)
            w = 1;
        if(arity == 1) {
            const auto id = static_cast<I>(vf_concretize((n.width == 1 ? boolId : intId)[n.kind]));
            char buf[32];
            nameOf(buf, "from", static_cast<unsigned>(code));
            if(id == I::ZExt) {
                const bool other = vf_concretize(vf_dom(buf, 2));
                w = other ? (n.width == 64 ? 32 : 8) : 1;
            } else if(id == I::SExt)
                w = n.width == 64 ? 32 : 8;
            else if(id == I::SignedTrunc || id == I::UnsignedTrunc) {
                if(n.width == 64)
                    vf_stop();
                w = n.width == 1 ? wide : n.width == 8 ? 32 : 64;
            }
        }
        n.opWidth[i] = w;
        n.op[i] = chooseOperand(static_cast<unsigned>(code), static_cast<int>(i), w);
        auto ref = static_cast<ValueRef*>(operator new(sizeof(ValueRef)));
        ref->value = n.op[i];
        ref->user = inst;
        ref->prev = ref->next = nullptr;
        inst->mOperands.push_back(ValueRefHandle{ ref });
    }
    n.operandsKnown = true;
}
static void initAll(void* p, uint64_t code) {
    nodes[code].filled = true;
    initMiddle(p, code);
    if(!(nodes[code].width == 1 ? boolConst : intConst)[nodes[code].kind])
        initOperands(p, code);
}
// the node at a path; kinds: bit set of the kinds it may have
static Node& nodeAt(unsigned code, unsigned w, uint64_t kinds = ~0ULL) {
    Node& n = nodes[code];
    if(n.mem)
        return n;
    ++numNodes;
    n.width = w;
    char buf[32];
    nameOf(buf, w == 1 ? "boolkind" : "kind", code);
    n.kind = vf_dom(buf, w == 1 ? numBoolKinds : numIntKinds);
    if(kinds != ~0ULL) {
        bool ok[maxKinds];
        for(int i = 0; i < maxKinds; ++i)
            ok[i] = kinds >> i & 1;
        vf_assume(ok[n.kind]);
    }
    if(constOperands && code)
        n.kind = KConst;
    n.value = symOf("v", code, w);
    nameOf(buf, "cmp", code);
    n.cmp = w == 1 ? vf_dom(buf, 10) : 0;
    n.mem = static_cast<Value*>(vf_lazy_alloc(nodeSize));
    auto inst = static_cast<CompareInst*>(n.mem);
    *reinterpret_cast<char**>(n.mem) = (w == 1 ? boolVt : intVt)[n.kind];
    n.mem->mType = typeOf(w);
    inst->mInstID = static_cast<I>((w == 1 ? boolId : intId)[n.kind]);
    inst->mCompare = static_cast<CompareOp>(n.cmp);
    inst->mBlock = theBlock;
    new(&inst->mLabel) String();
    inst->mNode.prev = inst->mNode.next = nullptr;
    inst->mNode.ptr = inst;
    if(vf_engine()) {
        char* base = reinterpret_cast<char*>(n.mem);
        char* ops = reinterpret_cast<char*>(&inst->mOperands);
        vf_lazy(base + sizeof(Value), sizeof(TrackableValue) - sizeof(Value), initMiddle, code);
        vf_lazy(ops, sizeof(inst->mOperands), initOperands, code);
    }
    return n;
}
inline bool isOpaqueKind(const Node& n) {
    return n.kind == KOpaque;
}
static Value* chooseOperand(unsigned parent, int i, unsigned w) {
    const unsigned code = parent * 3 + 1 + static_cast<unsigned>(i);
    if(code >= maxNodes)
        vf_assert(false, "harness/expression-too-deep");
    const bool leaf = !vf_engine() && code >= maxShared;
    Node& fresh = nodeAt(code, w);
    if(leaf)
        vf_assume(fresh.kind <= KOpaque);
    char buf[32];
    nameOf(buf, "share", parent, i);
    const uint64_t choice = vf_dom(buf, maxShared + 1);
    nodes[parent].opChoice[i] = choice;
    if(!vf_engine()) {
        if(choice == 0) {
            initAll(fresh.mem, code);
            return fresh.mem;
        }
        Node& s = nodes[choice - 1];
        if(choice - 1 == code || (s.mem && s.width != w))
            vf_stop();
        for(unsigned a = parent;; a = (a - 1) / 3) {
            if(a == choice - 1)
                vf_stop();
            if(a == 0)
                break;
        }
        Node& t = nodeAt(static_cast<unsigned>(choice) - 1, w);
        if(!shareAny)
            vf_assume(t.kind <= KOpaque);
        if(!t.filled)
            initAll(t.mem, choice - 1);
        return t.mem;
    }
    bool allowed[maxShared + 1];
    Value* target[maxShared + 1];
    allowed[0] = true;
    target[0] = fresh.mem;
    for(unsigned c = 0; c < maxShared; ++c) {
        bool ok = nodes[c].mem && nodes[c].width == w && c != code && c != 0;
        if(ok)
            for(unsigned a = parent; a != 0; a = (a - 1) / 3)
                ok &= a != c;
        if(ok) {
            // only nodes that are still part of the expression
            for(unsigned a = c; a != 0; a = (a - 1) / 3) {
                const unsigned p = (a - 1) / 3;
                if(!nodes[p].mem)
                    break;
                if(nodes[p].operandsKnown) {
                    const uint64_t ch = nodes[p].opChoice[(a - 1) % 3];
                    if(vf_is_concrete(ch) && ch != 0)
                        ok = false;
                }
            }
            // a compound node cannot be shared unless asked for
            if(ok && !shareAny && vf_is_concrete(nodes[c].kind) && nodes[c].kind > KOpaque)
                ok = false;
            if(ok && vf_is_concrete(nodes[c].kind) && nodes[c].kind == KConst)
                ok = false;  // constants are compared by value; an equal constant is a fresh one
        }
        allowed[c + 1] = ok;
        target[c + 1] = ok ? nodes[c].mem : fresh.mem;
    }
    vf_assume(allowed[choice]);
    for(unsigned c = 0; c < maxShared; ++c)
        if(allowed[c + 1] && !vf_is_concrete(nodes[c].kind))
            vf_assume((choice != c + 1) | (nodes[c].kind == KOpaque));
    return target[choice];
}

// ---- evaluation --------------------------------------------------------------------
static Val evalNode(unsigned code, bool strict);
static int codeOf(const Value* v) {
    for(unsigned c = 0; c < maxNodes; ++c)
        if(nodes[c].mem == v && v)
            return static_cast<int>(c);
    return -1;
}
// what was not looked at is an arbitrary value
static void settleNode(Node& n) {
    if(n.settled)
        return;
    n.settled = true;
    if(!vf_is_concrete(n.kind)) {
        if(!vf_known(n.kind != KOpaque))
            vf_assume(n.kind == KOpaque);
        else
            n.kind = vf_concretize(n.kind);
    }
}
static Val evalValue(Value* v, bool strict);
static Val evalInst(Instruction* inst, I id, unsigned w, uint64_t cmp, Value* a, Value* b, Value* c, bool strict) {
    switch(id) {
        case I::Neg:
        case I::Abs: return evalUnary(id, w, evalValue(a, strict), strict);
        case I::ZExt:
        case I::SExt:
        case I::SignedTrunc:
        case I::UnsignedTrunc: {
            const auto t = static_cast<const IntegerType*>(a->getType());
            return evalCast(id, t->getBitwidth(), w, evalValue(a, strict));
        }
        case I::ICmp: {
            const unsigned ow = static_cast<const IntegerType*>(a->getType())->getBitwidth();
            const Val x = evalValue(a, strict), y = evalValue(b, strict);
            return { evalICmp(static_cast<CompareOp>(vf_concretize(cmp)), ow, x.v, y.v), static_cast<bool>(x.poison | y.poison) };
        }
        case I::Select: {
            const Val p = evalValue(a, strict), x = evalValue(b, strict), y = evalValue(c, strict);
            const bool cond = p.v & 1;
            return { vf_ite(cond, x.v, y.v), static_cast<bool>(p.poison | (vf_ite(cond, x.poison, y.poison) != 0)) };
        }
        default: return evalBinary(id, w, evalValue(a, strict), evalValue(b, strict), strict);
    }
}
// Products and quotients by an arbitrary constant are out of reach of the solvers for wide
// integers: divisors, the constants below a division and those a quotient is compared with
// are taken from lists.
static bool sampleDivisors = false;
static bool belowDivision = false;
static void sampleConstant(Value* v, bool divisor) {
    static const int64_t divisors[] = { 1, -1, 2, -3, 7, 10, 1 << 30, INT32_MAX, INT32_MIN };
    static const int64_t others[] = { 0, 1, -1, 2, 6, -21, 1 << 16, INT32_MAX, INT32_MIN };
    constexpr unsigned num = sizeof(divisors) / sizeof(divisors[0]);
    static_assert(num == sizeof(others) / sizeof(others[0]));
    const int code = codeOf(v);
    if(code < 0)
        return;
    Node& n = nodes[code];
    if(n.width < 16)
        return;
    settleNode(n);
    if(n.kind != KConst || vf_is_concrete(n.value))
        return;
    const uint64_t i = vf_concretize(symDivisor(static_cast<unsigned>(code), num));
    vf_assume(n.value == (static_cast<uint64_t>(divisor ? divisors[i] : others[i]) & maskOf(n.width)));
    n.value = vf_concretize(n.value);
}
inline bool isDivision(I id) {
    return id == I::SDiv || id == I::SRem || id == I::UDiv || id == I::URem;
}
static bool isDivisionNode(Value* v) {
    const int code = codeOf(v);
    if(code < 0)
        return false;
    Node& n = nodes[code];
    settleNode(n);
    return n.kind > KOpaque && n.operandsKnown && isDivision(kindInfo(n, n.kind).id);
}
// the value before the pass ran
static Val evalNode(unsigned code, bool strict) {
    Node& n = nodes[code];
    if(strict && n.hasMemo)
        return n.memo;
    settleNode(n);
    Val r{ n.value, false };
    if(n.kind > KOpaque && n.operandsKnown) {
        if(n.evaluating)
            vf_stop();  // not an expression
        n.evaluating = true;
        const auto id = kindInfo(n, n.kind).id;
        const int ar = kindInfo(n, n.kind).arity;
        for(int i = 0; i < ar; ++i)
            if(!vf_is_concrete(n.opChoice[i])) {
                if(!vf_known(n.opChoice[i] != 0))
                    vf_assume(n.opChoice[i] == 0);
                n.opChoice[i] = vf_concretize(n.opChoice[i]);
                n.op[i] = reinterpret_cast<Value*>(vf_concretize(reinterpret_cast<uint64_t>(n.op[i])));
            }
        const bool below = belowDivision;
        if(sampleDivisors && n.width >= 16 && isDivision(id)) {
            sampleConstant(n.op[1], true);
            belowDivision = true;
        } else if(sampleDivisors && id == I::ICmp && (isDivisionNode(n.op[0]) || isDivisionNode(n.op[1])))
            belowDivision = true;
        if(belowDivision)
            for(int i = 0; i < ar; ++i)
                sampleConstant(n.op[i], false);
        r = evalInst(nullptr, id, n.width, n.cmp, n.op[0], n.op[1], n.op[2], strict);
        belowDivision = below;
        n.evaluating = false;
    }
    if(strict) {
        n.memo = r;
        n.hasMemo = true;
    }
    return r;
}
static Instruction* replaced;  // evaluated from its operands as they are now
static Val evalValue(Value* v, bool strict) {
    const int code = codeOf(v);
    if(code >= 0 && v != replaced)
        return evalNode(static_cast<unsigned>(code), strict);
    const unsigned w = static_cast<const IntegerType*>(v->getType())->getBitwidth();
    if(auto c = dynamic_cast<ConstantInteger*>(v))
        return { static_cast<uint64_t>(c->mValue) & maskOf(w), false };
    auto inst = dynamic_cast<Instruction*>(v);
    if(!inst) {
        vf_assert(false, "harness/unknown-value");
        return { 0, false };
    }
    const auto id = inst->getInstID();
    const auto n = inst->mOperands.size();
    uint64_t cmp = 0;
    if(auto c = dynamic_cast<CompareInst*>(inst))
        cmp = static_cast<uint64_t>(c->getOp());
    if(v == replaced)
        replaced = nullptr;
    return evalInst(inst, id, w, cmp, inst->getOperand(0), n > 1 ? inst->getOperand(1) : nullptr, n > 2 ? inst->getOperand(2) : nullptr, strict);
}

// ---- surroundings --------------------------------------------------------------------
struct Layout final : DataLayout {
    Endian getEndian() const noexcept override { return Endian::Little; }
    size_t getBuiltinAlignment(const Type* t) const noexcept override { return t->isPointer() ? 8 : t->getFixedSize(); }
    size_t getPointerSize() const noexcept override { return 8; }
    size_t getCodeAlignment() const noexcept override { return 4; }
};
struct AnyTarget final : mir::Target {
    Layout layout;
    bool native = true;
    const DataLayout& getDataLayout() const noexcept override { return layout; }
    bool isNativeSupported(InstructionID) const noexcept override { return native; }
};
inline void setup(unsigned width) {
    wide = width;
    for(int i = 0; i < numIntKinds; ++i) {
        intVt[i] = intKinds[i].vt + 16;
        intId[i] = static_cast<uint64_t>(intKinds[i].id);
        intConst[i] = i == KConst;
        intArity[i] = static_cast<uint64_t>(intKinds[i].arity);
    }
    for(int i = 0; i < numBoolKinds; ++i) {
        boolVt[i] = boolKinds[i].vt + 16;
        boolId[i] = static_cast<uint64_t>(boolKinds[i].id);
        boolConst[i] = i == KConst;
        boolArity[i] = static_cast<uint64_t>(boolKinds[i].arity);
    }
}
struct Scene {
    AnyTarget target;
    Module* module;
    Function* func;
    Block* block;
    Instruction* root;
    Instruction* ret;
};
// a function with one block: the expression's root, and a return of its value
inline void makeScene(Scene& s, unsigned rootWidth, uint64_t kinds) {
    s.module = static_cast<Module*>(operator new(sizeof(Module)));
    *const_cast<const mir::Target**>(&s.module->mTarget) = &s.target;
    s.func = new Function(String(), make<FunctionType>(VoidType::get(), Vector<const Type*>{}));
    s.block = make<Block>(s.func);
    s.func->blocks().push_back(s.block);
    theBlock = s.block;
    Node& root = nodeAt(0, rootWidth, kinds);
    if(!vf_engine())
        initAll(root.mem, 0);
    s.root = static_cast<Instruction*>(root.mem);
    s.block->instructions().insert(s.block->instructions().end(), &s.root->mNode);
    s.ret = make<ReturnInst>(s.root);
    s.ret->insertBefore(s.block, s.block->instructions().end());
}
}  // namespace lazyir
