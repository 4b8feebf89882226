// Instruction selection harness, part 2: lazily materialised programs, their meaning, the contracts of the
// selection context and the check.  The target supplies kinds[], evalMachine, encodable, machineDefines and the rest
// of the functions declared here.
namespace isel {
constexpr int numKinds = sizeof(kinds) / sizeof(Kind);
static uint64_t kindOp[numKinds];

static const int32_t divisors[] = { 2, 3, 5, 6, 7, 9, 10, 11, 12, 16, 25, 100, 125, 641, 1000, 4096, 65536, 998244353, 1000000007, INT32_MAX, 0x40000000,
                                    1, -1, -2, -3, -5, -7, -8, -10, -100, -998244353, INT32_MIN, INT32_MIN + 1, 2048, 4095, 65535, 0x7ffffffe, 0x55555555, 715827883 };
constexpr unsigned numDivisors = sizeof(divisors) / sizeof(divisors[0]);
struct Node {
    MIRInst* mem;
    T type;
    MIROperand dst;
    uint64_t kind;
    bool asked;     // the selector looked at the definition
    bool hasDef;
    bool operandsKnown, settled, evaluating, hasMemo;
    uint64_t value, memo;
    uint64_t oneUse;
    bool oneUseAsked;
    unsigned parent;
};
constexpr unsigned fan = 6, maxNodes = 1 + fan + fan * fan + fan * fan * fan, firstVReg = 1000;
static Node nodes[maxNodes];
static bool shareOperands;
static bool impossible;  // the program is undefined for these values
static MIRRelocable* theReloc;

static void nameOf(char* buf, const char* what, unsigned code, int i = -1) {
    while(*what)
        *buf++ = *what++;
    *buf++ = static_cast<char>('0' + code / 100);
    *buf++ = static_cast<char>('0' + code / 10 % 10);
    *buf++ = static_cast<char>('0' + code % 10);
    if(i >= 0)
        *buf++ = static_cast<char>('a' + i);
    *buf = 0;
}
static uint64_t symOf(const char* what, unsigned code, unsigned bits, int i = -1) {
    char buf[32];
    nameOf(buf, what, code, i);
    return vf_sym(buf, bits);
}
static uint64_t pick(const char* what, unsigned code, int i, unsigned n) {
    char buf[32];
    nameOf(buf, what, code, i);
    return vf_concretize(vf_dom(buf, n));
}
static Node* nodeOfReg(const MIROperand& op) {
    if(!isOperandVReg(op))
        return nullptr;
    const uint32_t id = op.reg() - virtualRegBegin;
    if(id < firstVReg || id >= firstVReg + maxNodes)
        return nullptr;
    return &nodes[id - firstVReg];
}
static Node& regNode(unsigned code, T type, unsigned parent) {
    Node& n = nodes[code];
    if(!n.asked && n.dst.isUnused()) {
        n.type = type;
        n.parent = parent;
        n.dst = MIROperand::asVReg(firstVReg + code, type);
        n.value = canon(symOf("v", code, bitsOf(type)), type);
    }
    return n;
}
static MIROperand makeReg(unsigned parent, int i, T type) {
    const unsigned code = parent * fan + 1 + static_cast<unsigned>(i);
    if(code >= maxNodes) {
        vf_assert(false, "harness/definition-too-deep");
        vf_stop();
    }
    if(shareOperands) {
        // possibly a register that is used already (not one that depends on this definition)
        unsigned cand[16], n = 0;
        for(unsigned c = 1; c < maxNodes && n < 16; ++c) {
            if(nodes[c].dst.isUnused() || nodes[c].type != type || c == code)
                continue;
            bool ancestor = false;
            for(unsigned a = parent;; a = nodes[a].parent) {
                ancestor |= a == c;
                if(a == 0)
                    break;
            }
            if(!ancestor)
                cand[n++] = c;
        }
        if(n) {
            const uint64_t k = pick("share", parent, i, 17);
            if(k > n)
                vf_stop();
            if(k)
                return nodes[cand[k - 1]].dst;
        }
    }
    return regNode(code, type, parent).dst;
}
static MIROperand makeImm(unsigned code, int i, T type) {
    return MIROperand::asImm(static_cast<intmax_t>(canon(symOf("imm", code, bitsOf(type), i), type)), type);
}
static MIROperand makeSmall(unsigned code, int i, unsigned bits, bool isSigned) {
    const uint64_t v = symOf("imm", code, bits, i);
    return MIROperand::asImm(isSigned ? sx(v, bits) : static_cast<intmax_t>(v), T::Int32);
}
static T pickType(unsigned code, const T* list, unsigned n) {
    return list[pick("type", code, 25, n)];
}
static void targetOperand(MIROperand& op, char s, unsigned code, int i, T type);
static void initOperands(void*, uint64_t code64) {
    const auto code = static_cast<unsigned>(code64);
    Node& n = nodes[code];
    n.kind = vf_concretize(n.kind);
    n.operandsKnown = true;
    const Kind& k = kinds[n.kind];
    static const T cmpTypes[] = { T::Int32, T::Bool, T::Int64 };
    T cmp = T::Special;
    for(int i = 0; k.sig[i]; ++i) {
        MIROperand& op = n.mem->mOperands[i];
        T t = n.type;
        char s = k.sig[i];
        if(s == 'c' || s == 'C') {
            if(cmp == T::Special)
                cmp = pickType(code, cmpTypes, has64 ? 3 : 2);
            t = cmp;
            s = s == 'c' ? 'v' : 'r';
        }
        switch(s) {
            case 'D': op = n.dst; break;
            case 'E': op = MIROperand::asISAReg(fixedReg, t); break;
            case 'b': op = makeReg(code, i, T::Bool); break;
            case 'f': op = makeReg(code, i, T::Float32); break;
            case 'g': op = makeReg(code, i, T::Int32); break;
            case 'a': op = makeReg(code, i, addrType); break;
            case 'w':
            case 'r':
            case 'v': {
                const bool zero = zeroReg != invalidReg;
                uint64_t c = 0;
                if(s == 'v' || zero)
                    c = pick("form", code, i, s == 'v' && zero ? 3 : 2);
                if(c && !zero)
                    ++c;
                if(c == 1)
                    op = MIROperand::asISAReg(zeroReg, t);
                else if(c == 2)
                    op = makeImm(code, i, t);
                else
                    op = makeReg(code, i, s == 'w' && code == 0 && pick("wide", code, i, 2) ? T::Int64 : t);
                break;
            }
            case 'd': {
                const uint64_t c = pick("form", code, i, 2);
                op = c ? MIROperand::asImm(divisors[pick("divisor", code, i, numDivisors)], t) : makeReg(code, i, t);
                break;
            }
            case 'V':
                op = t != T::Float32 && pick("form", code, i, 2) ? makeImm(code, i, t) : makeReg(code, i, t);
                break;
            case 's':
                op = pick("form", code, i, 2) ? makeSmall(code, i, has64 ? 6 : 5, false) : makeReg(code, i, t);
                break;
            case 'n': op = makeSmall(code, i, 6, false); break;
            case 'Q': op = makeSmall(code, i, 64, true); break;
            case 'I': op = makeImm(code, i, t); break;
            case 'o': {
                const auto c = static_cast<CompareOp>(static_cast<unsigned>(CompareOp::ICmpEqual) + pick("cmp", code, i, 10));
                op = MIROperand::asImm(c, T::Special);
                if(cmp == T::Bool)
                    vf_assume(c == CompareOp::ICmpEqual || c == CompareOp::ICmpNotEqual);
                break;
            }
            case 'p': {
                static const CompareOp ops[] = { CompareOp::FCmpOrderedEqual,        CompareOp::FCmpOrderedNotEqual,     CompareOp::FCmpOrderedLessThan,
                                                 CompareOp::FCmpOrderedLessEqual,    CompareOp::FCmpOrderedGreaterThan,  CompareOp::FCmpOrderedGreaterEqual,
                                                 CompareOp::FCmpUnorderedEqual,      CompareOp::FCmpUnorderedNotEqual,   CompareOp::FCmpUnorderedLessThan,
                                                 CompareOp::FCmpUnorderedLessEqual,  CompareOp::FCmpUnorderedGreaterThan, CompareOp::FCmpUnorderedGreaterEqual };
                op = MIROperand::asImm(ops[pick("cmp", code, i, 12)], T::Special);
                break;
            }
            case 'x': {
                static const T all[] = { T::Bool, T::Int8, T::Int16, T::Int32, T::Int64 };
                const T from = pickType(code, all, has64 ? 5 : 4);
                if(k.op == InstTrunc ? from <= t : from >= t || (k.op == InstSExt && from == T::Bool))
                    vf_stop();
                op = pick("form", code, i, 2) ? makeImm(code, i, from) : makeReg(code, i, from);
                break;
            }
            case 'R':
            case 'T': op = MIROperand::asReloc(theReloc); break;
            case 'S': op = MIROperand::asStackObject(firstVReg + code, addrType); break;
            case 'A': op = MIROperand::asImm(1, T::Special); break;
            default: targetOperand(op, s, code, i, n.type); break;
        }
    }
    // no front end and no rewriting produces x <= 2^31-1 or x >= 2^31 on unsigned numbers
    if(k.op == InstICmp && n.mem->mOperands[1].type() == T::Int32)
        for(int i = 1; i <= 2; ++i)
            if(const auto& op = n.mem->mOperands[i]; op.isImm()) {
                const auto c = static_cast<CompareOp>(n.mem->mOperands[3].imm());
                if(c == CompareOp::ICmpUnsignedLessEqual || c == CompareOp::ICmpUnsignedGreaterEqual)
                    vf_assume((op.imm() != INT32_MAX) & (op.imm() != INT32_MIN));
            }
    // operations on constants are folded before selection
    if(k.sig[0] && k.sig[1] == 'v' && (k.sig[2] == 'v' || k.sig[2] == 's' || k.sig[2] == 'd') && n.mem->mOperands[1].isImm() && n.mem->mOperands[2].isImm())
        vf_stop();
}
static bool definesResult(const char* sig) {
    for(; *sig; ++sig)
        if(*sig == 'D')
            return true;
    return false;
}
static void makeInst(unsigned code, uint64_t onlyKind) {
    Node& n = nodes[code];
    n.hasDef = true;
    if(onlyKind < numKinds)
        n.kind = onlyKind;
    else {
        char buf[32];
        nameOf(buf, "def", code);
        n.kind = vf_dom(buf, numKinds);
        bool ok[numKinds];
        for(int i = 0; i < numKinds; ++i)
            ok[i] = (kinds[i].types >> static_cast<unsigned>(n.type) & 1) && definesResult(kinds[i].sig);
        vf_assume(ok[n.kind]);
    }
    // outside the verifier the operands start a page of their own
    if(vf_engine())
        n.mem = static_cast<MIRInst*>(vf_lazy_alloc(sizeof(MIRInst)));
    else
        n.mem = reinterpret_cast<MIRInst*>(static_cast<char*>(vf_lazy_alloc(8192)) + 4096 - offsetof(MIRInst, mOperands));
    new(n.mem) MIRInst(0);
    n.mem->mOpcode = static_cast<uint32_t>(kindOp[n.kind]);
    if(onlyKind >= numKinds)
        vf_lazy(&n.mem->mOperands, sizeof(n.mem->mOperands), initOperands, code);
    else
        initOperands(nullptr, code);
}

// ---- the new program ----------------------------------------------------------------------
constexpr int maxNew = 24;
struct NewInst {
    MIRInst inst{ 0 };
};
static NewInst fresh[maxNew];
static int numFresh;
struct Binding {
    uint32_t reg;
    uint64_t value;
};
static Binding env[maxNew + 2];
static int numEnv;
static bool rootRemoved, replacedSet;
static MIROperand replacedSrc, replacedDst;

// ---- functions without interpretation: memory, addresses, floating point -------------------
struct App {
    unsigned f;
    uint64_t a, b, result;
};
static App apps[32];
static int numApps;
static uint64_t apply(unsigned f, uint64_t a, uint64_t b, unsigned bits) {
    if(!vf_engine()) {
        uint64_t h = (a ^ f * 0x9e3779b97f4a7c15ULL) * 0xbf58476d1ce4e5b9ULL;
        h = (h ^ h >> 31 ^ b) * 0x94d049bb133111ebULL;
        return zx(h ^ h >> 29, bits);
    }
    const uint64_t r = vf_fresh(bits);
    for(int i = 0; i < numApps; ++i)
        if(apps[i].f == f)
            vf_assume(!((apps[i].a == a) & (apps[i].b == b)) | (apps[i].result == r));
    if(numApps < 32)
        apps[numApps++] = { f, a, b, r };
    return r;
}
static uint64_t evalNode(unsigned code);
static bool targetRegister(const MIROperand& op, uint64_t& value);
static uint64_t evalOp(const MIROperand& op) {
    if(op.isImm())
        return static_cast<uint64_t>(op.imm());
    if(op.isReg()) {
        const uint32_t r = op.reg();
        if(r == zeroReg && zeroReg != invalidReg)
            return 0;
        if(isStackObject(r))
            return canon(apply(900, r, 0, 64), addrType);
        for(int i = numEnv - 1; i >= 0; --i)
            if(env[i].reg == r)
                return env[i].value;
        if(Node* n = nodeOfReg(op))
            return evalNode(static_cast<unsigned>(n - nodes));
        uint64_t special;
        if(targetRegister(op, special))
            return special;
        vf_assert(false, "select/operand-is-defined");
        return 0;
    }
    if(op.isReloc()) {
        const uint64_t addr = canon(apply(901, 0, 0, 64), addrType), hi = canon(apply(902, 0, 0, 64), addrType);
        return op.type() == T::HighBits ? hi : op.type() == T::LowBits ? addr - hi : addr;
    }
    vf_assert(false, "harness/operand-form");
    return 0;
}
static bool evalICmp(CompareOp op, uint64_t a, uint64_t b) {
    const auto sa = static_cast<int64_t>(a), sb = static_cast<int64_t>(b);
    switch(op) {
        case CompareOp::ICmpEqual: return a == b;
        case CompareOp::ICmpNotEqual: return a != b;
        case CompareOp::ICmpSignedLessThan: return sa < sb;
        case CompareOp::ICmpSignedLessEqual: return sa <= sb;
        case CompareOp::ICmpSignedGreaterThan: return sa > sb;
        case CompareOp::ICmpSignedGreaterEqual: return sa >= sb;
        case CompareOp::ICmpUnsignedLessThan: return a < b;
        case CompareOp::ICmpUnsignedLessEqual: return a <= b;
        case CompareOp::ICmpUnsignedGreaterThan: return a > b;
        case CompareOp::ICmpUnsignedGreaterEqual: return a >= b;
        default: vf_assert(false, "select/comparison"); return false;
    }
}
enum { FAddF = 1, FSubF, FMulF, FDivF, FNegF, FAbsF, FLtF, FLeF, FEqF, FUnoF, F2SF, S2FF, LoadF = 100 };
static bool fp(unsigned f, uint64_t a, uint64_t b) {
    return apply(f, a, b, 1) != 0;
}
static bool evalFCmp(CompareOp op, uint64_t a, uint64_t b) {
    switch(op) {
        case CompareOp::FCmpOrderedEqual: return fp(FEqF, a, b);
        case CompareOp::FCmpOrderedNotEqual: return fp(FLtF, a, b) | fp(FLtF, b, a);
        case CompareOp::FCmpOrderedLessThan: return fp(FLtF, a, b);
        case CompareOp::FCmpOrderedLessEqual: return fp(FLeF, a, b);
        case CompareOp::FCmpOrderedGreaterThan: return fp(FLtF, b, a);
        case CompareOp::FCmpOrderedGreaterEqual: return fp(FLeF, b, a);
        case CompareOp::FCmpUnorderedNotEqual: return !fp(FEqF, a, b);
        case CompareOp::FCmpUnorderedEqual: return !(fp(FLtF, a, b) | fp(FLtF, b, a));
        case CompareOp::FCmpUnorderedGreaterEqual: return !fp(FLtF, a, b);
        case CompareOp::FCmpUnorderedGreaterThan: return !fp(FLeF, a, b);
        case CompareOp::FCmpUnorderedLessEqual: return !fp(FLtF, b, a);
        case CompareOp::FCmpUnorderedLessThan: return !fp(FLeF, b, a);
        default: vf_assert(false, "select/comparison"); return false;
    }
}
static bool loadsBool = false;  // replays: a byte in memory is a truth value
static uint64_t loadMem(uint64_t addr, unsigned bytes) {
    const uint64_t m = apply(LoadF + bytes, addr, 0, bytes * 8);
    return loadsBool && bytes == 1 ? m & 1 : m;
}
// (kept apart so that a - a / b * b is not turned into a remainder again)
__attribute__((noinline)) static int64_t quotient(int64_t a, int64_t b) {
    return a / b;
}
__attribute__((noinline)) static uint64_t quotientU(uint64_t a, uint64_t b) {
    return a / b;
}
static uint64_t sdiv(uint64_t a, uint64_t b, unsigned w, bool rem, bool strict) {
    const int64_t sa = sx(a, w), sb = sx(b, w);
    const bool bad = (sb == 0) | ((sb == -1) & (sa == sx(1ULL << (w - 1), w)));
    if(strict)
        vf_assume(!bad);
    const int64_t d = static_cast<int64_t>(vf_ite(bad, 1, static_cast<uint64_t>(sb)));
    const int64_t q = quotient(sa, d);
    return rem ? static_cast<uint64_t>(sa) - static_cast<uint64_t>(q) * static_cast<uint64_t>(d) : static_cast<uint64_t>(q);
}
static uint64_t udiv(uint64_t a, uint64_t b, unsigned w, bool rem, bool strict) {
    const uint64_t ua = zx(a, w), ub = zx(b, w);
    if(strict)
        vf_assume(ub != 0);
    const uint64_t d = vf_ite(ub == 0, 1, ub);
    const uint64_t q = quotientU(ua, d);
    return rem ? ua - q * d : q;
}
static uint64_t u64(int64_t v) {
    return static_cast<uint64_t>(v);
}
struct Access {  // memory access or branch of the instruction
    uint64_t addr, value;
    unsigned bytes;
    bool taken, exists;
};
// a signed operation left the range of its type somewhere in the program; undefined in the source language
static bool overflow;
static uint64_t wrap(uint64_t exact, T type) {
    const uint64_t r = canon(exact, type);
    overflow |= r != exact;
    return r;
}static uint64_t evalMachine(const MIRInst& inst, uint32_t op, T type, Access* acc);
// the value of the instruction; strict: the program does not divide by zero or shift too far
static uint64_t evalInst(const MIRInst& inst, uint32_t op, T type, bool strict, Access* acc) {
    const auto o = [&](int i) -> const MIROperand& { return inst.mOperands[i]; };
    const auto v = [&](int i) { return evalOp(inst.mOperands[i]); };
    const unsigned w = bitsOf(type);
    const auto shamt = [&](int i) {
        const uint64_t s = v(i);
        if(strict)
            vf_assume(s < w);
        return s & 63;
    };
    switch(op) {
        case InstAdd: return wrap(v(1) + v(2), type);
        case InstSub: return wrap(v(1) - v(2), type);
        case InstMul: return w == 32 ? u64(static_cast<int32_t>(static_cast<uint32_t>(v(1)) * static_cast<uint32_t>(v(2)))) : canon(v(1) * v(2), type);
        case InstUDiv: return canon(udiv(v(1), v(2), w, false, strict), type);
        case InstURem: return canon(udiv(v(1), v(2), w, true, strict), type);
        case InstSDiv:
        case InstSRem: {
            const uint64_t a = v(1), b = v(2), hint = v(5);
            if(strict)  // what lowering knows about the operands
                vf_assume((!(hint & 4) | (sx(a, w) >= 0)) & (!(hint & 2) | (sx(b, w) >= 0)));
            return canon(sdiv(a, b, w, op == InstSRem, strict), type);
        }
        case InstAnd: return canon(v(1) & v(2), type);
        case InstOr: return canon(v(1) | v(2), type);
        case InstXor: return canon(v(1) ^ v(2), type);
        case InstShl: return wrap(v(1) << shamt(2), type);
        case InstLShr: return canon(zx(v(1), w) >> shamt(2), type);
        case InstAShr: return canon(u64(sx(v(1), w) >> shamt(2)), type);
        case InstSMin: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(sx(a, w) < sx(b, w), a, b);
        }
        case InstSMax: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(sx(a, w) < sx(b, w), b, a);
        }
        case InstNeg: return canon(0 - v(1), type);
        case InstAbs: {
            const uint64_t a = v(1);
            return vf_ite(sx(a, w) < 0, canon(0 - a, type), a);
        }
        case InstICmp: return evalICmp(static_cast<CompareOp>(o(3).imm()), v(1), v(2));
        case InstFCmp: return evalFCmp(static_cast<CompareOp>(o(3).imm()), v(1), v(2));
        case InstSExt: return canon(u64(sx(v(1), bitsOf(o(1).type()))), type);
        case InstZExt: return canon(zx(v(1), bitsOf(o(1).type())), type);
        case InstTrunc: return canon(v(1), type);
        case InstCopy:
        case InstCopyFromReg:
        case InstCopyToReg:
        case InstLoadImm:
        case InstLoadImmToReg: return v(1);
        case InstSelect: {
            const uint64_t c = v(1), a = v(2), b = v(3);
            return vf_ite(c & 1, a, b);
        }
        case InstLoadGlobalAddress:
        case InstLoadStackObjectAddr: return v(1);
        case InstLoad: {
            const unsigned bytes = type == T::Bool ? 1 : w / 8;
            if(type == T::Bool && !vf_engine())
                loadsBool = true;
            const uint64_t addr = v(1), m = loadMem(addr, bytes);
            if(acc)
                *acc = { addr, 0, bytes, false, true };
            if(type == T::Bool)
                vf_assume(m <= 1);
            return canon(m, type);
        }
        case InstStore: {
            const T st = o(1).type();
            *acc = { v(0), zx(v(1), st == T::Bool ? 8 : bitsOf(st)), st == T::Bool ? 1 : bitsOf(st) / 8, false, true };
            return 0;
        }
        case InstBranch: *acc = { 0, 0, 0, (v(0) & 1) != 0, true }; return 0;
        case InstUnreachable: return 0;
        case InstJump: *acc = { 0, 0, 0, true, true }; return 0;
        case InstFAdd: return apply(FAddF, v(1), v(2), 32);
        case InstFSub: return apply(FSubF, v(1), v(2), 32);
        case InstFMul: return apply(FMulF, v(1), v(2), 32);
        case InstFDiv: return apply(FDivF, v(1), v(2), 32);
        case InstFNeg: return apply(FNegF, v(1), 0, 32);
        case InstFAbs: return apply(FAbsF, v(1), 0, 32);
        case InstF2S: return canon(apply(F2SF, v(1), 0, 32), T::Int32);
        case InstS2F: return apply(S2FF, zx(v(1), 32), 0, 32);
        default: return evalMachine(inst, op, type, acc);
    }
}
static uint64_t evalNode(unsigned code) {
    Node& n = nodes[code];
    if(n.hasMemo)
        return n.memo;
    uint64_t r = n.value;
    if(n.hasDef) {
        if(!vf_is_concrete(n.kind)) {
            if(!vf_known(n.kind != 0))
                vf_assume(n.kind == 0);
            n.kind = vf_concretize(n.kind);
        }
        if(n.kind != 0) {
            if(!n.operandsKnown)
                (void)*reinterpret_cast<volatile uint64_t*>(&n.mem->mOperands);
            if(n.evaluating)
                vf_stop();
            n.evaluating = true;
            r = evalInst(*n.mem, kinds[n.kind].op, n.type, true, nullptr);
            n.evaluating = false;
            vf_assume(r == canon(r, n.type));  // registers hold values of their type
        }
    }
    n.memo = r;
    n.hasMemo = true;
    return r;
}
// ---- operand forms of the real instructions --------------------------------------------------
static bool isGPR(const MIROperand& op) {
    return op.isReg() && isIntegerType(op.type()) && !isStackObject(op.reg());
}
static bool isAddress(const MIROperand& op) {  // a stack object is replaced by a register and an offset later
    return op.isReg() && op.type() == addrType;
}
static bool isFPR(const MIROperand& op) {
    return op.isReg() && op.type() == T::Float32;
}
static bool immIn(const MIROperand& op, int64_t lo, int64_t hi) {
    return op.isImm() && (op.imm() >= lo) & (op.imm() <= hi);
}
static bool encodable(const MIRInst& inst);
static bool finding(bool now, const char* name);
static bool reliesOnNoOverflow(uint32_t op);
static bool loadsAnyConstant(uint32_t op);
static bool keepsCanonical(T type);
static int machineDefines(uint32_t op);
static int definedOperand(uint32_t op) {
    switch(op) {
        case InstStore:
        case InstBranch:
        case InstUnreachable:
        case InstJump: return -1;
        default: return machineDefines(op);
    }
}

// ---- contracts of the selection context -------------------------------------------------------
static MIRInst* lookup(const MIROperand& op) {
    Node* n = nodeOfReg(op);
    if(!n || n == nodes)
        return nullptr;
    const auto code = static_cast<unsigned>(n - nodes);
    if(!n->asked) {
        n->asked = true;
        if(pick("known", code, -1, 2))
            makeInst(code, ~0ULL);
    }
    return n->hasDef ? n->mem : nullptr;
}
static bool once(const MIROperand& op) {
    Node* n = nodeOfReg(op);
    if(!n)
        return true;
    if(!n->oneUseAsked) {
        n->oneUseAsked = true;
        n->oneUse = pick("once", static_cast<unsigned>(n - nodes), -1, 2);
    }
    return n->oneUse;
}
// the register still holds the value it had at the definition
static void stillHolds(const MIROperand& val, const MIROperand& def);
static bool safeToUse(const MIROperand& val, const MIROperand& def) {
    if(!isOperandISAReg(val))
        return true;
    if(vf_concretize(vf_dom("safe", 2)))
        return false;
    stillHolds(val, def);
    return true;
}
static std::optional<MIROperand> regRef(const MIROperand& reg) {
    if(!isOperandVReg(reg) && vf_concretize(vf_dom("noref", 2)))
        return std::nullopt;
    return reg;
}
static MIRInst& newInstruction(uint32_t opcode) {
    if(numFresh >= maxNew) {
        vf_assert(false, "harness/too-many-instructions");
        vf_stop();
    }
    return *new(&fresh[numFresh++].inst) MIRInst(opcode);
}
static void removeInstruction(MIRInst& inst) {
    if(&inst == nodes[0].mem)
        rootRemoved = true;
    else
        vf_assert(false, "select/removes-only-the-instruction");
}
static void replaceInProgram(const MIROperand& src, const MIROperand& dst) {
    if(src != dst) {
        replacedSet = true;
        replacedSrc = src;
        replacedDst = dst;
    }
}
#ifdef VF_NATIVE
}  // namespace isel
namespace cmmc::mir {
MIRInst* ISelContext::lookupDef(const MIROperand& op) const {
    return isel::lookup(op);
}
bool ISelContext::hasOneUse(const MIROperand& op) const {
    return isel::once(op);
}
bool ISelContext::isSafeToUse(const MIROperand& val, const MIROperand& def) const {
    return isel::safeToUse(val, def);
}
std::optional<MIROperand> ISelContext::getRegRef(const MIROperand& reg, const MIRInst&) {
    return isel::regRef(reg);
}
MIRInst& ISelContext::newInst(uint32_t opcode) {
    return isel::newInstruction(opcode);
}
void ISelContext::removeInst(MIRInst& inst) {
    isel::removeInstruction(inst);
}
void ISelContext::replaceOperand(const MIROperand& src, const MIROperand& dst) {
    isel::replaceInProgram(src, dst);
}
}  // namespace cmmc::mir
namespace isel {
#else
#define VF_CONTRACT(name, mangled) name __asm__("vfc_" mangled) __attribute__((used))
extern "C" {
MIRInst* VF_CONTRACT(lookupContract(const ISelContext*, const MIROperand* op), "_ZNK4cmmc3mir11ISelContext9lookupDefERKNS0_10MIROperandE");
MIRInst* lookupContract(const ISelContext*, const MIROperand* op) {
    return lookup(*op);
}
bool VF_CONTRACT(onceContract(const ISelContext*, const MIROperand* op), "_ZNK4cmmc3mir11ISelContext9hasOneUseERKNS0_10MIROperandE");
bool onceContract(const ISelContext*, const MIROperand* op) {
    return once(*op);
}
bool VF_CONTRACT(safeContract(const ISelContext*, const MIROperand* val, const MIROperand* def), "_ZNK4cmmc3mir11ISelContext11isSafeToUseERKNS0_10MIROperandES4_");
bool safeContract(const ISelContext*, const MIROperand* val, const MIROperand* def) {
    return safeToUse(*val, *def);
}
std::optional<MIROperand> VF_CONTRACT(refContract(ISelContext*, const MIROperand* reg, const MIRInst*), "_ZN4cmmc3mir11ISelContext9getRegRefERKNS0_10MIROperandERKNS0_7MIRInstE");
std::optional<MIROperand> refContract(ISelContext*, const MIROperand* reg, const MIRInst*) {
    return regRef(*reg);
}
MIRInst* VF_CONTRACT(newContract(ISelContext*, uint32_t opcode), "_ZN4cmmc3mir11ISelContext7newInstEj");
MIRInst* newContract(ISelContext*, uint32_t opcode) {
    return &newInstruction(opcode);
}
void VF_CONTRACT(removeContract(ISelContext*, MIRInst* inst), "_ZN4cmmc3mir11ISelContext10removeInstERNS0_7MIRInstE");
void removeContract(ISelContext*, MIRInst* inst) {
    removeInstruction(*inst);
}
void VF_CONTRACT(replaceContract(ISelContext*, const MIROperand* src, const MIROperand* dst), "_ZN4cmmc3mir11ISelContext14replaceOperandERKNS0_10MIROperandES4_");
void replaceContract(ISelContext*, const MIROperand* src, const MIROperand* dst) {
    replaceInProgram(*src, *dst);
}
}
#endif

// Recorded findings (known_findings.json): the situation in which the code is known to break an obligation, and how.
static bool knownValue(const MIRInst& before, uint32_t rootOp, uint64_t now, uint64_t old);
static bool knownBranch(const MIRInst& before, bool now, bool old);
// the quotient by a constant whose magic number needs no shift after the multiplication
static bool unshiftedQuotient;
static bool needsNoShift(int64_t d) {
    if(-1 <= d && d <= 1)
        return false;
    const uint64_t ad = d < 0 ? -static_cast<uint64_t>(d) : static_cast<uint64_t>(d), t = (1ULL << 31) + (d < 0), nc = t - 1 - t % ad;
    return (1ULL << 32) > nc * (ad - (1ULL << 32) % ad);
}
// (true where a listed finding shows)
static bool finding(bool now, const char* name) {
    if(now)
        vf_cover(name);
    return now;
}
static Access newAccess;
static uint32_t rootResult;
static void runNew(MIRInst& inst) {
    const uint32_t op = static_cast<uint32_t>(vf_concretize(inst.mOpcode));
    inst.mOpcode = op;
    if(op > ISASpecificBegin)
        vf_assert(encodable(inst), "select/operands-fit-the-instruction");
    const int d = definedOperand(op);
    const T type = inst.mOperands[d < 0 ? 0 : d].type();
    const uint64_t r = evalInst(inst, op, type, false, &newAccess);
    if(d >= 0) {
        const MIROperand& dst = inst.mOperands[d];
        vf_assert(dst.isReg(), "select/defines-a-register");
        const bool known = unshiftedQuotient && dst.reg() == rootResult;  // see knownValue
        if(op > ISASpecificBegin && isIntegerType(type) && !loadsAnyConstant(op) && keepsCanonical(type) && !known)
            vf_assert(r == canon(r, type), "select/value-fits-the-register-type");
        if(op == InstLoadImm)
            vf_assert((r == canon(r, type)) | (r == zx(r, bitsOf(type))), "select/constant-of-its-type");
        env[numEnv++] = { dst.reg(), r };
    }
}
static void check(uint64_t kind, T type, bool share) {
    for(int i = 0; i < numKinds; ++i)
        kindOp[i] = kinds[i].op;
    if(!(kinds[kind].types >> static_cast<unsigned>(type) & 1))
        return;
    static char reloc[64];
    theReloc = reinterpret_cast<MIRRelocable*>(reloc);
    shareOperands = share;
    Node& root = nodes[0];
    root.type = type;
    root.dst = MIROperand::asVReg(firstVReg, type);
    makeInst(0, kind);
    alignas(CodeGenContext) static char cgStorage[sizeof(CodeGenContext)];
    auto& cg = *reinterpret_cast<CodeGenContext*>(cgStorage);
    *reinterpret_cast<const TargetInstInfo**>(cgStorage + offsetof(CodeGenContext, instInfo)) = &targetInfo();
    cg.idx = 100000;
    alignas(ISelContext) static char ctxStorage[sizeof(ISelContext)];
    *reinterpret_cast<CodeGenContext**>(ctxStorage) = &cg;
    auto& ctx = *reinterpret_cast<ISelContext*>(ctxStorage);

    static char selfStorage[sizeof(SelInfo)];
    const MIRInst before = *root.mem;
    const bool changed = reinterpret_cast<SelInfo*>(selfStorage)->SelInfo::matchAndSelect(*root.mem, ctx, true);
    vf_cover("ran");
    if(!changed) {
        vf_assert(!rootRemoved && !replacedSet, "select/unchanged-means-unchanged");
        return;
    }
    const uint32_t rootOp = kinds[kind].op;
    Access access{};
    const uint64_t old = evalInst(before, rootOp, type, true, &access);
    if(definedOperand(rootOp) >= 0)
        vf_assume(old == canon(old, type));
    // sh1add and its relatives have no 32-bit form: they stand for a 32-bit sum that does not overflow
    bool relies = false;
    for(int i = 0; i < numFresh; ++i) {
        const uint32_t op = fresh[i].inst.mOpcode = static_cast<uint32_t>(vf_concretize(fresh[i].inst.mOpcode));
        relies |= reliesOnNoOverflow(op);
    }
    relies |= rootOp == InstSDiv || rootOp == InstSRem;  // a divisor 1 << n is positive
    if(relies && type == T::Int32)
        vf_assume(!overflow);
    unshiftedQuotient = has64 && rootOp == InstSDiv && type == T::Int32 && before.mOperands[2].isImm() && needsNoShift(before.mOperands[2].imm());
    if(definedOperand(rootOp) >= 0)
        rootResult = (replacedSet ? replacedDst : before.mOperands[definedOperand(rootOp)]).reg();
    for(int i = 0; i < numFresh; ++i)
        runNew(fresh[i].inst);
    if(!rootRemoved)
        runNew(*root.mem);
    vf_cover("selected");
    const int d = definedOperand(rootOp);
    if(d >= 0) {
        const MIROperand& result = replacedSet ? replacedDst : before.mOperands[d];
        if(replacedSet)
            vf_assert(replacedSrc == before.mOperands[d], "select/replaces-the-result");
        vf_assert(result.isReg(), "select/result-is-a-register");
        bool found = false;
        uint64_t now = 0;
        for(int i = 0; i < numEnv; ++i)
            if(env[i].reg == result.reg()) {
                now = env[i].value;
                found = true;
            }
        vf_assert(found, "select/result-is-defined");
        vf_assert(knownValue(before, rootOp, now, old) || now == old, "select/same-value");
    }
    if(access.exists) {
        vf_assert(newAccess.exists, "select/access-remains");
        vf_assert(newAccess.bytes == access.bytes, "select/same-width");
        vf_assert(newAccess.addr == access.addr, "select/same-address");
        vf_assert(newAccess.value == access.value, "select/same-stored-value");
        vf_assert(knownBranch(before, newAccess.taken, access.taken) || newAccess.taken == access.taken, "select/same-branch-condition");
    }
}
}  // namespace isel
VF_ENTRY void isel_root(uint64_t kind, uint64_t type, uint64_t share) {
    isel::check(kind, static_cast<OperandType>(type), share != 0);
}
