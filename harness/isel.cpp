// Contract of instruction selection for RISC-V (cmmc/Target/RISCV/RISCVISelInfo.cpp and the
// patterns generated from RISCV.yml): whatever matchAndSelect does to an instruction, the
// value it defines, its memory accesses and its branch condition stay the same.
//
// The instruction and the definitions the selector looks at are materialised on demand: the
// opcode of a definition is one symbolic choice, its operands come into existence on first
// access.  Registers are 64 bits wide and hold narrower integers sign-extended (bool: 0/1).
#include "vf.hpp"
#include <cmmc/Target/RISCV/RISCVISelInfo.cpp>

using namespace cmmc;
using namespace cmmc::mir;
using namespace cmmc::mir::RISCV;

namespace cmmc::mir::RISCV {
const TargetInstInfo& getRISCVInstInfo();
}
#include "iselkind.hpp"

namespace isel {
using SelInfo = RISCVISelInfo;
static const TargetInstInfo& targetInfo() {
    return getRISCVInstInfo();
}
constexpr bool has64 = true;
constexpr T addrType = T::Int64;
constexpr uint32_t zeroReg = X0, fixedReg = X10;
// i 12-bit constant, 5/6/7 shift amount, u 20 bits, L 32-bit constant
static const Kind kinds[] = {
    { InstCopyFromReg, "D", tAll | tF },  // anything else
    { InstAdd, "Dvv", tInt },
    { InstSub, "Dvv", tInt },
    { InstMul, "Dvv", tInt },
    { InstUDiv, "Dvv", tInt },
    { InstURem, "Dvv", tInt },
    { InstAnd, "Dvv", tAll },
    { InstOr, "Dvv", tAll },
    { InstXor, "Dvv", tAll },
    { InstShl, "Dvs", tInt },
    { InstLShr, "Dvs", tInt },
    { InstAShr, "Dvs", tInt },
    { InstSDiv, "Dvdnnn", tInt },
    { InstSRem, "Dvdnnn", tInt },
    { InstSMin, "Dvv", tW },
    { InstSMax, "Dvv", tW },
    { InstNeg, "Dv", tInt },
    { InstAbs, "Dv", tInt },
    { InstFAdd, "Dff", tF },
    { InstFSub, "Dff", tF },
    { InstFMul, "Dff", tF },
    { InstFDiv, "Dff", tF },
    { InstFNeg, "Df", tF },
    { InstFAbs, "Df", tF },
    { InstICmp, "Dcco", tB },
    { InstFCmp, "Dffp", tB },
    { InstSExt, "Dx", tInt },
    { InstZExt, "Dx", tInt },
    { InstTrunc, "Dx", t32 },
    { InstF2S, "Df", t32 },
    { InstS2F, "Dg", tF },
    { InstCopy, "Dr", tAll },
    { InstSelect, "Dbvv", tAll },
    { InstSelect, "Dbff", tF },
    { InstLoadImm, "DI", tAll },
    { InstLoadImmToReg, "EI", tInt },
    { InstLoadGlobalAddress, "DR", t64 },
    { InstLoadStackObjectAddr, "DS", t64 },
    { InstLoad, "DaA", tAll | tF },
    { InstStore, "aVA", tAll | tF },  // type of the stored value
    { InstBranch, "bTP", tB },
    { InstJump, "T", tB },
    { ADDI, "Dri", t64 },
    { SLTI, "DCi", tB },
    { SLTIU, "DCi", tB },
    { ANDI, "Dri", tAll },
    { ORI, "Dri", tAll },
    { XORI, "Dri", tAll },
    { SLLI, "Dr6", t32 | t64 },
    { SRLI, "Dr6", t64 },
    { SRAI, "Dr6", t64 },
    { LUI, "Du", tW },
    { ADD, "Drr", t64 },
    { SLT, "DCC", tB },
    { SLTU, "DCC", tB },
    { AND, "Drr", tAll },
    { OR, "Drr", tAll },
    { XOR, "Drr", tAll },
    { SLL, "Drr", t64 },
    { SRL, "Drr", t64 },
    { SRA, "Drr", t64 },
    { SUB, "Drr", t64 },
    { ADDIW, "Dri", t32 },
    { ADDW, "Drr", t32 },
    { SUBW, "Drr", t32 },
    { SLLIW, "Dr5", t32 },
    { SRLIW, "Dw7", t32 },
    { SRAIW, "Dw5", t32 },
    { SLLW, "Drr", t32 },
    { SRLW, "Drr", t32 },
    { SRAW, "Drr", t32 },
    { MUL, "Drr", t64 },
    { MULW, "Drr", t32 },
    { ZEXT_W, "Dg", t64 },
    { LoadImm12, "Di", tAll },
    { LoadImm32, "DL", tInt },
    { LoadImm64, "DQ", t64 },
    { ADD_UW, "Drr", t64 },
    { MoveGPR, "Dr", tAll },
    { Select_GPR_GPR, "DvvCCo", tAll },
    { Select_FPR_GPR, "DffCCo", tF },
};
}  // namespace isel
#include "iselcore.hpp"

namespace isel {
static void targetOperand(MIROperand& op, char s, unsigned code, int i, T) {
    switch(s) {
        case 'i': op = makeSmall(code, i, 12, true); break;
        case '5': op = makeSmall(code, i, 5, false); break;
        case '7':
            op = makeSmall(code, i, 5, false);
            vf_assume(op.imm() != 0);
            break;
        case '6': op = makeSmall(code, i, 6, false); break;
        case 'u': op = makeSmall(code, i, 20, false); break;
        case 'L': op = makeSmall(code, i, 32, true); break;
        default: break;
    }
}
static bool targetRegister(const MIROperand&, uint64_t&) {
    return false;
}
static void stillHolds(const MIROperand&, const MIROperand&) {}
static bool reliesOnNoOverflow(uint32_t op) {
    return op == SH1ADD || op == SH2ADD || op == SH3ADD;
}
static bool keepsCanonical(T) {
    return true;
}
static bool loadsAnyConstant(uint32_t op) {
    return op == LoadImm32;
}
static uint64_t evalMachine(const MIRInst& inst, uint32_t op, T type, Access* acc) {
    const auto o = [&](int i) -> const MIROperand& { return inst.mOperands[i]; };
    const auto v = [&](int i) { return evalOp(inst.mOperands[i]); };
    switch(op) {
        case J: *acc = { 0, 0, 0, true, true }; return 0;
        case FADD_S: return apply(FAddF, v(1), v(2), 32);
        case FSUB_S: return apply(FSubF, v(1), v(2), 32);
        case FMUL_S: return apply(FMulF, v(1), v(2), 32);
        case FDIV_S: return apply(FDivF, v(1), v(2), 32);
        case FNEG_S: return apply(FNegF, v(1), 0, 32);
        case FABS_S: return apply(FAbsF, v(1), 0, 32);
        case FCVT_W_S: return canon(apply(F2SF, v(1), 0, 32), T::Int32);
        case FCVT_S_W: return apply(S2FF, zx(v(1), 32), 0, 32);
        case FLT_S: return fp(FLtF, v(1), v(2));
        case FLE_S: return fp(FLeF, v(1), v(2));
        case FEQ_S: return fp(FEqF, v(1), v(2));
        case ADDI:
        case ADD: return v(1) + v(2);
        case SUB: return v(1) - v(2);
        case SLTI:
        case SLT: return static_cast<int64_t>(v(1)) < static_cast<int64_t>(v(2));
        case SLTIU:
        case SLTU: return v(1) < v(2);
        case ANDI:
        case AND: return v(1) & v(2);
        case ORI:
        case OR: return v(1) | v(2);
        case XORI:
        case XOR: return v(1) ^ v(2);
        case SLLI:
        case SLL: return v(1) << (v(2) & 63);
        case SRLI:
        case SRL: return v(1) >> (v(2) & 63);
        case SRAI:
        case SRA: return u64(static_cast<int64_t>(v(1)) >> (v(2) & 63));
        case LUI: return u64(sx(v(1) << 12, 32));
        case AUIPC: return v(1);
        case ADDIW:
        case ADDW: return u64(sx(v(1) + v(2), 32));
        case SUBW: return u64(sx(v(1) - v(2), 32));
        case SLLIW:
        case SLLW: return u64(sx(v(1) << (v(2) & 31), 32));
        case SRLIW:
        case SRLW: return u64(sx(zx(v(1), 32) >> (v(2) & 31), 32));
        case SRAIW:
        case SRAW: return u64(sx(v(1), 32) >> (v(2) & 31));
        case MUL: return v(1) * v(2);
        case MULW: return u64(static_cast<int32_t>(static_cast<uint32_t>(v(1)) * static_cast<uint32_t>(v(2))));
        case DIV: return sdiv(v(1), v(2), 64, false, false);
        case DIVW: return canon(sdiv(v(1), v(2), 32, false, false), T::Int32);
        case DIVU: return udiv(v(1), v(2), 64, false, false);
        case DIVUW: return canon(udiv(v(1), v(2), 32, false, false), T::Int32);
        case REM: return sdiv(v(1), v(2), 64, true, false);
        case REMW: return canon(sdiv(v(1), v(2), 32, true, false), T::Int32);
        case REMU: return udiv(v(1), v(2), 64, true, false);
        case REMUW: return canon(udiv(v(1), v(2), 32, true, false), T::Int32);
        case SEXT_B: return u64(sx(v(1), 8));
        case SEXT_H: return u64(sx(v(1), 16));
        case SEXT_W: return u64(sx(v(1), 32));
        case ZEXT_H: return zx(v(1), 16);
        case ZEXT_W: return zx(v(1), 32);
        case ADD_UW: return zx(v(1), 32) + v(2);
        case SH1ADD: return (v(1) << 1) + v(2);
        case SH2ADD: return (v(1) << 2) + v(2);
        case SH3ADD: return (v(1) << 3) + v(2);
        case ANDN: return v(1) & ~v(2);
        case ORN: return v(1) | ~v(2);
        case XNOR: return ~(v(1) ^ v(2));
        case MIN: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(static_cast<int64_t>(a) < static_cast<int64_t>(b), a, b);
        }
        case MAX: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(static_cast<int64_t>(a) < static_cast<int64_t>(b), b, a);
        }
        case MINU: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(a < b, a, b);
        }
        case MAXU: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(a < b, b, a);
        }
        case MoveGPR:
        case FMV_S:
        case LoadImm12:
        case LoadImm32:
        case LoadImm64:
        case LoadImm64Complex: return v(1);
        case Select_GPR_GPR:
        case Select_FPR_GPR: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(evalICmp(static_cast<CompareOp>(o(5).imm()), v(3), v(4)), a, b);
        }
        case Select_GPR_Arith: {
            // rd = cond ? rs1 op rs2 : rs1
            MIRInst arith{ static_cast<uint32_t>(o(6).imm()) };
            arith.setOperand<0>(o(0)).setOperand<1>(o(1)).setOperand<2>(o(2));
            const uint64_t a = v(1), r = evalInst(arith, static_cast<uint32_t>(o(6).imm()), type, false, nullptr);
            return vf_ite(evalICmp(static_cast<CompareOp>(o(5).imm()), v(3), v(4)), r, a);
        }
        case LB:
        case LH:
        case LW:
        case LD:
        case LBU:
        case LHU:
        case LWU:
        case FLW: {
            const unsigned bytes = op == LB || op == LBU ? 1 : op == LH || op == LHU ? 2 : op == LD ? 8 : 4;
            const uint64_t addr = v(1) + v(2), m = loadMem(addr, bytes);
            if(acc)
                *acc = { addr, 0, bytes, false, true };
            return op == LBU || op == LHU || op == LWU || op == FLW ? m : u64(sx(m, bytes * 8));
        }
        case SB:
        case SH:
        case SW:
        case SD:
        case FSW: {
            const unsigned bytes = op == SB ? 1 : op == SH ? 2 : op == SD ? 8 : 4;
            *acc = { v(1) + v(2), zx(v(0), bytes * 8), bytes, false, true };
            return 0;
        }
        case BEQ:
        case BNE:
        case BLT:
        case BLE:
        case BGT:
        case BGE:
        case BLTU:
        case BLEU:
        case BGTU:
        case BGEU: {
            const CompareOp c = op == BEQ ? CompareOp::ICmpEqual :
                op == BNE                 ? CompareOp::ICmpNotEqual :
                op == BLT                 ? CompareOp::ICmpSignedLessThan :
                op == BLE                 ? CompareOp::ICmpSignedLessEqual :
                op == BGT                 ? CompareOp::ICmpSignedGreaterThan :
                op == BGE                 ? CompareOp::ICmpSignedGreaterEqual :
                op == BLTU                ? CompareOp::ICmpUnsignedLessThan :
                op == BLEU                ? CompareOp::ICmpUnsignedLessEqual :
                op == BGTU                ? CompareOp::ICmpUnsignedGreaterThan :
                                            CompareOp::ICmpUnsignedGreaterEqual;
            *acc = { 0, 0, 0, evalICmp(c, v(0), v(1)), true };
            return 0;
        }
        default: vf_assert(false, "select/known-instruction"); return 0;
    }
}static bool encodable(const MIRInst& inst) {
    const auto o = [&](int i) -> const MIROperand& { return inst.mOperands[i]; };
    const auto imm12 = [&](int i) { return immIn(o(i), -2048, 2047) || (o(i).isReloc() && o(i).type() == T::LowBits); };
    switch(inst.mOpcode) {
        case ADDI:
        case SLTI:
        case SLTIU:
        case ANDI:
        case ORI:
        case XORI:
        case ADDIW: return isGPR(o(0)) && isGPR(o(1)) && imm12(2);
        case SLLI:
        case SRLI:
        case SRAI: return isGPR(o(0)) && isGPR(o(1)) && immIn(o(2), 0, 63);
        case SLLIW:
        case SRLIW:
        case SRAIW: return isGPR(o(0)) && isGPR(o(1)) && immIn(o(2), 0, 31);
        case LUI: return isGPR(o(0)) && immIn(o(1), 0, 0xfffff);
        case AUIPC: return isGPR(o(0)) && o(1).isReloc() && o(1).type() == T::HighBits;
        case LoadImm12: return isGPR(o(0)) && immIn(o(1), -2048, 2047);
        case LoadImm32: return isGPR(o(0)) && immIn(o(1), INT32_MIN, UINT32_MAX);
        case LoadImm64:
        case LoadImm64Complex: return isGPR(o(0)) && o(1).isImm();
        case LB:
        case LH:
        case LW:
        case LD:
        case LBU:
        case LHU:
        case LWU: return isGPR(o(0)) && imm12(1) && isAddress(o(2));
        case SB:
        case SH:
        case SW:
        case SD: return isGPR(o(0)) && imm12(1) && isAddress(o(2));
        case FLW:
        case FSW: return isFPR(o(0)) && imm12(1) && isAddress(o(2));
        case BEQ:
        case BNE:
        case BLT:
        case BLE:
        case BGT:
        case BGE:
        case BLTU:
        case BLEU:
        case BGTU:
        case BGEU: return isGPR(o(0)) && isGPR(o(1));
        case FADD_S:
        case FSUB_S:
        case FMUL_S:
        case FDIV_S: return isFPR(o(0)) && isFPR(o(1)) && isFPR(o(2));
        case FMV_S:
        case FNEG_S:
        case FABS_S: return isFPR(o(0)) && isFPR(o(1));
        case FLT_S:
        case FLE_S:
        case FEQ_S: return isGPR(o(0)) && isFPR(o(1)) && isFPR(o(2));
        case FCVT_W_S: return isGPR(o(0)) && isFPR(o(1));
        case FCVT_S_W: return isFPR(o(0)) && isGPR(o(1));
        case MoveGPR:
        case SEXT_B:
        case SEXT_H:
        case SEXT_W:
        case ZEXT_H:
        case ZEXT_W: return isGPR(o(0)) && isGPR(o(1));
        case Select_GPR_GPR: return isGPR(o(0)) && (isGPR(o(1)) || o(1).isImm()) && (isGPR(o(2)) || o(2).isImm()) && isGPR(o(3)) && isGPR(o(4)) && o(5).isImm();
        case Select_GPR_Arith: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(3)) && isGPR(o(4)) && o(5).isImm() && o(6).isImm();
        case Select_FPR_GPR: return isFPR(o(0)) && isFPR(o(1)) && isFPR(o(2)) && isGPR(o(3)) && isGPR(o(4)) && o(5).isImm();
        case UNIMP:
        case J: return true;
        default: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2));
    }
}static int machineDefines(uint32_t op) {
    switch(op) {
        case J:
        case SB:
        case SH:
        case SW:
        case SD:
        case FSW:
        case BEQ:
        case BNE:
        case BLT:
        case BLE:
        case BGT:
        case BGE:
        case BLTU:
        case BLEU:
        case BGTU:
        case BGEU: return -1;
        default: return 0;
    }
}
static bool knownValue(const MIRInst&, uint32_t, uint64_t now, uint64_t old) {
    return unshiftedQuotient && finding((canon(now, T::Int32) == old) & (now != old), "finding/quotient-not-sign-extended");
}
static bool knownBranch(const MIRInst&, bool, bool) {
    return false;
}
}  // namespace isel
