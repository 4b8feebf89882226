// Meaning of the ARM (ARMv7-A with hardware division) instructions the back end uses; shared by the contracts of
// instruction selection and of the expansions.  Registers are 32 bits wide and are kept sign-extended to 64 bits.
#pragma once
namespace isel {
static uint64_t w32(uint64_t v) {
    return static_cast<uint64_t>(static_cast<int64_t>(v << 32) >> 32);
}
// flags: N = 8, Z = 4, C = 2, V = 1
static uint64_t flagsOf(bool n, bool z, bool c, bool v) {
    return static_cast<uint64_t>(n) << 3 | static_cast<uint64_t>(z) << 2 | static_cast<uint64_t>(c) << 1 | static_cast<uint64_t>(v);
}
static uint64_t flagsCMP(uint64_t a, uint64_t b) {
    const uint64_t r = w32(a - b);
    return flagsOf(r >> 63, r == 0, (a & 0xffffffff) >= (b & 0xffffffff), r != w32(a) - w32(b));
}
static uint64_t flagsCMN(uint64_t a, uint64_t b) {
    const uint64_t r = w32(a + b);
    return flagsOf(r >> 63, r == 0, ((a & 0xffffffff) + (b & 0xffffffff)) >> 32, r != w32(a) + w32(b));
}
static bool condition(uint64_t cf, uint64_t f) {
    const bool n = f >> 3 & 1, z = f >> 2 & 1, c = f >> 1 & 1, v = f & 1;
    switch(static_cast<CondField>(cf)) {
        case CondField::EQ: return z;
        case CondField::NE: return !z;
        case CondField::HS: return c;
        case CondField::LO: return !c;
        case CondField::MI: return n;
        case CondField::PL: return !n;
        case CondField::HI: return c & !z;
        case CondField::LS: return !c | z;
        case CondField::GE: return n == v;
        case CondField::LT: return n != v;
        case CondField::GT: return !z & (n == v);
        case CondField::LE: return z | (n != v);
        case CondField::AL: return true;
        default: return false;
    }
}
static uint64_t shifted(uint64_t x, uint32_t how, uint64_t amount) {
    const uint64_t s = amount & 255, u = x & 0xffffffff, k = s & 31;
    const bool big = s >= 32;
    switch(how) {
        case LSL: return vf_ite(big, 0, w32(u << k));
        case LSR: return vf_ite(big, 0, w32(u >> k));
        case ASR: return w32(static_cast<uint64_t>(static_cast<int64_t>(w32(x)) >> vf_ite(big, 31, k)));
        case ROR: return w32(u >> k | u << (32 - k));
        default: return 0;
    }
}
static uint64_t countLeadingZeros(uint64_t x) {
    uint64_t v = x & 0xffffffff, n = 0;
    for(unsigned k = 16; k; k /= 2) {
        const bool low = v >> (32 - k) == 0;
        n = vf_ite(low, n + k, n);
        v = vf_ite(low, v << k & 0xffffffff, v);
    }
    return vf_ite(v == 0, 32, n);
}
static uint64_t multiply(uint64_t a, uint64_t b) {
    return static_cast<uint64_t>(static_cast<int64_t>(static_cast<int32_t>(static_cast<uint32_t>(a) * static_cast<uint32_t>(b))));
}
static uint64_t saturate(uint64_t x, int64_t lo, int64_t hi) {
    const auto v = static_cast<int64_t>(w32(x));
    return vf_ite(v < lo, static_cast<uint64_t>(lo), vf_ite(v > hi, static_cast<uint64_t>(hi), static_cast<uint64_t>(v)));
}
static uint64_t binary(uint32_t op, uint64_t a, uint64_t b) {
    switch(op) {
        case ADD: return w32(a + b);
        case SUB: return w32(a - b);
        case RSB: return w32(b - a);
        case AND: return a & b;
        case ORR: return a | b;
        case EOR: return a ^ b;
        case ORN: return a | ~b;
        case BIC: return a & ~b;
        default: vf_assert(false, "harness/operation"); return 0;
    }
}
// a constant of 8 bits rotated by an even amount
static bool rotatedByte(int64_t imm) {
    const auto v = static_cast<uint32_t>(imm);
    bool ok = false;
    for(unsigned i = 0; i < 32; i += 2)
        ok |= ((v << i | (i ? v >> (32 - i) : 0)) & 0xffffff00) == 0;
    return ok & (imm >= INT32_MIN) & (imm <= static_cast<int64_t>(UINT32_MAX));
}
static bool isOp2(const MIROperand& op) {
    return op.isImm() ? rotatedByte(op.imm()) : isGPR(op);
}
static bool isCondition(const MIROperand& op) {
    return op.isImm() && op.imm() >= static_cast<intmax_t>(CondField::EQ) && op.imm() <= static_cast<intmax_t>(CondField::LE);
}
static bool isFlags(const MIROperand& op) {
    return op.isReg() && op.reg() == CC;
}
static bool isFPFlags(const MIROperand& op) {
    return op.isReg() && op.reg() == FCC;
}
static bool isShift(const MIROperand& how, const MIROperand& amount) {
    if(!how.isImm() || (how.imm() != LSL && how.imm() != LSR && how.imm() != ASR))
        return false;
    return isGPR(amount) || (amount.isImm() && (amount.imm() >= 0) & (amount.imm() <= (how.imm() == LSL ? 31 : 32)));
}
static bool hasFPRange(int64_t imm) {
    return (imm >= -1020) & (imm <= 1020) & ((imm & 3) == 0);
}
}  // namespace isel
