// Instruction selection harness, part 1: representation of values and the description of instructions.
#pragma once
#include <cstdint>
#include <new>

namespace isel {
using T = OperandType;
// ---- representation of values in registers ---------------------------------------------
static unsigned bitsOf(T t) {
    switch(t) {
        case T::Bool: return 1;
        case T::Int8: return 8;
        case T::Int16: return 16;
        case T::Int32: return 32;
        case T::Float32: return 32;
        default: return 64;
    }
}
static int64_t sx(uint64_t v, unsigned w) {
    return w >= 64 ? static_cast<int64_t>(v) : static_cast<int64_t>(v << (64 - w)) >> (64 - w);
}
static uint64_t zx(uint64_t v, unsigned w) {
    return w >= 64 ? v : v & ((1ULL << w) - 1);
}
static uint64_t canon(uint64_t v, T t) {
    return t == T::Bool || t == T::Float32 ? zx(v, bitsOf(t)) : static_cast<uint64_t>(sx(v, bitsOf(t)));
}

// ---- instructions a definition may be ---------------------------------------------------
// operands: D result, v register, zero or constant, r register or zero, f float register,
// s shift operand (register or constant below 64), Q 64-bit constant, I constant of the result's type, c compared operand (v), C compared register,
// o integer comparison, p float comparison, x source of an extension or truncation, b condition,
// n small constant, R relocation, S stack object, a address, A alignment, V stored value,
// T branch target, P probability, w 32-bit register or 64-bit one, E result in a fixed register;
// anything else is left to the target
struct Kind {
    uint32_t op;
    const char* sig;
    uint32_t types;  // of the result
};
constexpr uint32_t tB = 1, t8 = 2, t16 = 4, t32 = 8, t64 = 16, tF = 32, tInt = t32 | t64, tW = t32 | t64, tAll = tInt | tB;
}  // namespace isel
