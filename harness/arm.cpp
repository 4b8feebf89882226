// Contract of instruction selection for ARM (cmmc/Target/ARM/ARMISelInfo.cpp and the patterns generated from
// ARM.yml); see iselcore.hpp.  Registers are 32 bits wide and are kept sign-extended to 64 bits here; narrower
// integers are sign-extended in their register, bool is 0 or 1.
#include "vf.hpp"
#include <cmmc/Target/ARM/ARMISelInfo.cpp>

using namespace cmmc;
using namespace cmmc::mir;
using namespace cmmc::mir::ARM;

namespace cmmc::mir::ARM {
const TargetInstInfo& getARMInstInfo();
}
#include "iselkind.hpp"

namespace isel {
using SelInfo = ARMISelInfo;
static const TargetInstInfo& targetInfo() {
    return getARMInstInfo();
}
constexpr bool has64 = false;
constexpr T addrType = T::Int32;
constexpr uint32_t zeroReg = invalidReg, fixedReg = R0;
// 2 register or rotated constant, h shift operation, 5 shift amount (1 to 31 or a register), K the condition flags, N condition,
// U 32-bit constant, q float comparison (no front end produces ordered and different, or unordered or equal)
static const Kind kinds[] = {
    { InstCopyFromReg, "D", tAll | t8 | t16 | tF },  // anything else
    { InstAdd, "Dvv", t32 },
    { InstSub, "Dvv", t32 },
    { InstMul, "Dvv", t32 },
    { InstUDiv, "Dvv", t32 },
    { InstURem, "Dvv", t32 },
    { InstSDiv, "Dvdnnn", t32 },
    { InstSRem, "Dvdnnn", t32 },
    { InstAnd, "Dvv", t32 | tB },
    { InstOr, "Dvv", t32 | tB },
    { InstXor, "Dvv", t32 | tB },
    { InstShl, "Dvs", t32 },
    { InstLShr, "Dvs", t32 },
    { InstAShr, "Dvs", t32 },
    { InstSMin, "Dvv", t32 },
    { InstSMax, "Dvv", t32 },
    { InstNeg, "Dv", t32 },
    { InstAbs, "Dv", t32 },
    { InstFAdd, "Dff", tF },
    { InstFSub, "Dff", tF },
    { InstFMul, "Dff", tF },
    { InstFDiv, "Dff", tF },
    { InstFNeg, "Df", tF },
    { InstFAbs, "Df", tF },
    { InstICmp, "Dcco", tB },
    { InstFCmp, "Dffq", tB },
    { InstSExt, "Dx", t32 },
    { InstZExt, "Dx", t32 },
    { InstTrunc, "Dx", t8 | t16 },
    { InstF2S, "Df", t32 },
    { InstS2F, "Dg", tF },
    { InstCopy, "Dr", t32 | tB },
    { InstSelect, "Dbvv", t32 | tB },
    { InstSelect, "Dbff", tF },
    { InstLoadImm, "DI", t32 | tB },
    { InstLoadImmToReg, "EI", t32 },
    { InstLoadGlobalAddress, "DR", t32 },
    { InstLoadStackObjectAddr, "DS", t32 },
    { InstLoad, "DaA", t32 | tB | t8 | t16 | tF },
    { InstStore, "aVA", t32 | tB | t8 | t16 | tF },  // type of the stored value
    { InstBranch, "bTP", tB },
    { InstJump, "T", tB },
    { InstUnreachable, "", tB },
    { ADD, "Dr2", t32 },
    { SUB, "Dr2", t32 },
    { RSB, "Dr2", t32 },
    { AND, "Dr2", t32 | tB },
    { ORR, "Dr2", t32 | tB },
    { EOR, "Dr2", t32 | tB },
    { BIC, "Dr2", t32 | tB },
    { ADD_Fused, "Drrh5", t32 },
    { SUB_Fused, "Drrh5", t32 },
    { RSB_Fused, "Drrh5", t32 },
    { MUL, "Drr", t32 },
    { MLA, "Drrr", t32 },
    { MLS, "Drrr", t32 },
    { MVN, "D2", t32 },
    { ASR, "Dr5", t32 },
    { LSL, "Dr5", t32 },
    { LSR, "Dr5", t32 },
    { CLZ, "Dr", t32 },
    { MOVT_MOVW_PAIR, "DU", t32 },
    { VMOV_FPR2GPR, "Df", t32 },
    { VMOV_GPR2FPR, "Dg", tF },
    { NZCVFlag2GPR, "DKN", t32 | tB },
    { Select_GPR, "D22KN", t32 | tB },
    { Select_FPR, "DffKN", tF },
};
}  // namespace isel
#include "iselcore.hpp"
#include "armsem.hpp"

namespace isel {
// the condition flags when a definition reads them and when the instruction is executed
static uint64_t flagsAt[maxNodes], flagsNow;
static bool flagsKnown[maxNodes], flagsNowKnown;
static uint64_t flagsOfDefinition(unsigned code) {
    if(!flagsKnown[code]) {
        flagsKnown[code] = true;
        flagsAt[code] = symOf("cc", code, 4);
    }
    return flagsAt[code];
}
static uint64_t flagsHere() {
    if(!flagsNowKnown) {
        flagsNowKnown = true;
        flagsNow = vf_sym("ccnow", 4);
    }
    return flagsNow;
}
static void targetOperand(MIROperand& op, char s, unsigned code, int i, T type) {
    switch(s) {
        case '2':
            if(pick("form", code, i, 2)) {
                const uint64_t v = symOf("byte", code, 8, i), r = symOf("rot", code, 4, i) * 2;
                op = MIROperand::asImm(static_cast<intmax_t>(canon(v >> r | v << (32 - r), type)), type);
            } else
                op = makeReg(code, i, type);
            break;
        case 'h': {
            static const uint32_t ops[] = { LSL, LSR, ASR };
            op = MIROperand::asImm(ops[pick("shift", code, i, 3)], T::ShiftType);
            break;
        }
        case '5':
            if(pick("form", code, i, 2)) {
                op = makeSmall(code, i, 5, false);
                vf_assume(op.imm() != 0);
            } else
                op = makeReg(code, i, T::Int32);
            break;
        case 'q': {
            static const CompareOp ops[] = { CompareOp::FCmpOrderedEqual,       CompareOp::FCmpOrderedLessThan,      CompareOp::FCmpOrderedLessEqual,
                                             CompareOp::FCmpOrderedGreaterThan, CompareOp::FCmpOrderedGreaterEqual,  CompareOp::FCmpUnorderedNotEqual,
                                             CompareOp::FCmpUnorderedLessThan,  CompareOp::FCmpUnorderedLessEqual,   CompareOp::FCmpUnorderedGreaterThan,
                                             CompareOp::FCmpUnorderedGreaterEqual };
            op = MIROperand::asImm(ops[pick("cmp", code, i, 10)], T::Special);
            break;
        }
        case 'U': op = makeSmall(code, i, 32, false); break;
        case 'K': op = MIROperand::asISAReg(CC, T::Special); break;
        case 'N': op = MIROperand::asImm(static_cast<intmax_t>(pick("cond", code, i, 12)), T::CondField); break;
        default: break;
    }
}
static bool targetRegister(const MIROperand& op, uint64_t& value) {
    if(op.reg() == CC) {
        value = flagsHere();
        return true;
    }
    return false;
}
static void stillHolds(const MIROperand& val, const MIROperand& def) {
    if(val.reg() != CC)
        return;
    Node* n = nodeOfReg(def);
    if(n)
        vf_assume(flagsOfDefinition(static_cast<unsigned>(n - nodes)) == flagsHere());
}
static bool reliesOnNoOverflow(uint32_t) {
    return false;
}
// intermediate results of conversions may have a narrow type
static bool keepsCanonical(T type) {
    return type != T::Int8 && type != T::Int16;
}
// the values of clz and of the shifts of a comparison need not be bool
static bool loadsAnyConstant(uint32_t op) {
    return op == CLZ || op == MVN || op == MOVT_MOVW_PAIR;
}
static uint64_t addressOfReloc() {
    return evalOp(MIROperand::asReloc(theReloc));
}
static uint64_t evalMachine(const MIRInst& inst, uint32_t op, T type, Access* acc) {
    const auto o = [&](int i) -> const MIROperand& { return inst.mOperands[i]; };
    const auto v = [&](int i) { return evalOp(inst.mOperands[i]); };
    const auto flags = [&](int i) {
        const Node* n = nodeOfReg(o(0));
        return n && n->mem == &inst && n != nodes ? flagsOfDefinition(static_cast<unsigned>(n - nodes)) : v(i);
    };
    const auto cf = [&](int i) { return static_cast<uint64_t>(o(i).imm()); };
    switch(op) {
        case ADD:
        case SUB:
        case RSB:
        case AND:
        case ORR:
        case EOR:
        case ORN:
        case BIC: return binary(op, v(1), v(2));
        case ADD_Fused:
        case SUB_Fused:
        case RSB_Fused:
        case AND_Fused:
        case ORR_Fused:
        case EOR_Fused:
        case ORN_Fused:
        case BIC_Fused: {
            const uint64_t a = v(1), b = v(2);
            return binary(op - ADD_Fused + ADD, a, shifted(b, static_cast<uint32_t>(o(3).imm()), v(4)));
        }
        case MUL: return multiply(v(1), v(2));
        case MLA: return w32(multiply(v(1), v(2)) + v(3));
        case MLS: return w32(v(3) - multiply(v(1), v(2)));
        case SMMUL: return u64(static_cast<int64_t>(v(1) * v(2)) >> 32);
        case SMMLA: return w32(u64(static_cast<int64_t>(v(1) * v(2)) >> 32) + v(3));
        case SDIV: return canon(sdiv(v(1), v(2), 32, false, false), T::Int32);
        case UDIV: return canon(udiv(v(1), v(2), 32, false, false), T::Int32);
        case SXTB: return canon(v(1), T::Int8);
        case SXTH: return canon(v(1), T::Int16);
        case UXTB: return zx(v(1), 8);
        case UXTH: return zx(v(1), 16);
        case MOVW:
            if(o(1).isReloc())
                return addressOfReloc() & 0xffff;
            return v(1);
        case MOVT: {
            const uint64_t high = o(1).isReloc() ? addressOfReloc() & 0xffff0000 : v(1) << 16;
            return w32(high | (v(2) & 0xffff));
        }
        case ADD_Cond:
        case SUB_Cond:
        case AND_Cond:
        case ORR_Cond:
        case EOR_Cond:
        case ORN_Cond:
        case BIC_Cond:
        case RSB_Cond: {
            const uint64_t a = v(2), b = v(3), other = v(5);
            return vf_ite(condition(cf(0), v(4)), binary(op - ADD_Cond + ADD, a, b), other);
        }
        case MOV_Cond:
        case MVN_Cond:
        case MOVW_Cond:
        case VMOV_Cond: {
            const uint64_t a = v(2), other = v(4);
            return vf_ite(condition(cf(0), v(3)), op == MVN_Cond ? ~a : a, other);
        }
        case MOV_Constant:
        case MOV:
        case MoveGPR:
        case VMOV: return v(1);
        case MVN_Constant:
        case MVN: return ~v(1);
        case MOVT_MOVW_PAIR: return w32(v(1));
        case CLZ: return countLeadingZeros(v(1));
        case LSL:
        case LSR:
        case ASR:
        case ROR: return shifted(v(1), op, v(2));
        case USAT: return saturate(v(2), 0, (1LL << (o(1).imm() & 31)) - 1);
        case SSAT: return saturate(v(2), -(1LL << ((o(1).imm() - 1) & 31)), (1LL << ((o(1).imm() - 1) & 31)) - 1);
        case CMP: return flagsCMP(v(0), v(1));
        case CMN: return flagsCMN(v(0), v(1));
        case VCMP_F32:
        case VCMP_F32_WithZero: {
            const uint64_t a = v(0), b = v(1);
            const bool lt = fp(FLtF, a, b), eq = fp(FEqF, a, b), gt = fp(FLtF, b, a), le = fp(FLeF, a, b), ge = fp(FLeF, b, a);
            vf_assume(!(lt & eq) & !(lt & gt) & !(eq & gt) & (le == (lt | eq)) & (ge == (gt | eq)));
            return flagsOf(lt, eq, !lt, !lt & !eq & !gt);
        }
        case TRANSFER_FPSCR_FLAG: return v(1);
        case VADD_F32: return apply(FAddF, v(1), v(2), 32);
        case VSUB_F32: return apply(FSubF, v(1), v(2), 32);
        case VMUL_F32: return apply(FMulF, v(1), v(2), 32);
        case VDIV_F32: return apply(FDivF, v(1), v(2), 32);
        case VNEG_F32: return apply(FNegF, v(1), 0, 32);
        case VABS_F32: return apply(FAbsF, v(1), 0, 32);
        case VCVT_F32_S32: return apply(S2FF, v(1), 0, 32);
        case VCVT_S32_F32: return apply(F2SF, v(1), 0, 32);
        case VMOV_GPR2FPR: return zx(v(1), 32);
        case VMOV_FPR2GPR: return w32(v(1));
        case NZCVFlag2GPR: return condition(cf(2), flags(1));
        case Select_GPR:
        case Select_FPR: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(condition(cf(4), flags(3)), a, b);
        }
        case CondArith_GPR: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(condition(cf(4), flags(3)), binary(static_cast<uint32_t>(o(5).imm()), a, b), a);
        }
        case PseudoIntOpWithOp2_Cond: {
            const uint64_t a = v(2), b = v(3), other = v(4);
            return vf_ite(condition(cf(0), v(6)), binary(static_cast<uint32_t>(o(5).imm()) - ADD_Cond + ADD, a, b), other);
        }
        case PseudoSMax:
        case PseudoSMin: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(condition(static_cast<uint64_t>(op == PseudoSMin ? CondField::GE : CondField::LE), v(3)), b, a);
        }
        case PseudoSMax_Inverted:
        case PseudoSMin_Inverted: {
            const uint64_t a = v(1), b = ~v(2);
            return vf_ite(condition(static_cast<uint64_t>(op == PseudoSMin_Inverted ? CondField::GE : CondField::LT), v(3)), b, a);
        }
        case LDR:
        case LDRB:
        case LDRSB:
        case LDRH:
        case LDRSH:
        case VLDR:
        case LDR_Fused:
        case LDRB_Fused:
        case LDRSB_Fused:
        case LDRH_Fused:
        case LDRSH_Fused: {
            const bool fused = op == LDR_Fused || op == LDRB_Fused || op == LDRSB_Fused || op == LDRH_Fused || op == LDRSH_Fused;
            const uint32_t plain = fused ? op - LDR_Fused + LDR : op;
            const unsigned bytes = plain == LDRB || plain == LDRSB ? 1 : plain == LDRH || plain == LDRSH ? 2 : 4;
            const uint64_t base = v(1), index = v(2);
            const uint64_t addr = w32(base + (fused ? index << (o(3).imm() & 31) : index)), m = loadMem(addr, bytes);
            if(acc)
                *acc = { addr, 0, bytes, false, true };
            return plain == LDRB || plain == LDRH || plain == VLDR ? m : u64(sx(m, bytes * 8));
        }
        case STR:
        case STRB:
        case STRH:
        case VSTR:
        case STR_Fused:
        case STRB_Fused:
        case STRH_Fused: {
            const bool fused = op == STR_Fused || op == STRB_Fused || op == STRH_Fused;
            const unsigned bytes = op == STRB || op == STRB_Fused ? 1 : op == STRH || op == STRH_Fused ? 2 : 4;
            const uint64_t base = v(1), index = v(2);
            *acc = { w32(base + (fused ? index << (o(3).imm() & 31) : index)), zx(v(0), bytes * 8), bytes, false, true };
            return 0;
        }
        case B_Cond: *acc = { 0, 0, 0, condition(cf(0), v(2)), true }; return 0;
        case B: *acc = { 0, 0, 0, true, true }; return 0;
        case UNIMP: return 0;
        default: vf_assert(false, "select/known-instruction"); return 0;
    }
}
static bool encodable(const MIRInst& inst) {
    const auto o = [&](int i) -> const MIROperand& { return inst.mOperands[i]; };
    const auto address = [&](int64_t range) { return isAddress(o(1)) && immIn(o(2), -range, range); };
    switch(inst.mOpcode) {
        case ADD:
        case SUB:
        case RSB:
        case AND:
        case ORR:
        case EOR:
        case BIC: return isGPR(o(0)) && isGPR(o(1)) && isOp2(o(2));
        case ADD_Fused:
        case SUB_Fused:
        case RSB_Fused:
        case AND_Fused:
        case ORR_Fused:
        case EOR_Fused:
        case BIC_Fused: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2)) && isShift(o(3), o(4));
        case MLA:
        case MLS:
        case SMMLA: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2)) && isGPR(o(3));
        case MUL:
        case SMMUL:
        case SDIV:
        case UDIV: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2));
        case SXTB:
        case SXTH:
        case UXTB:
        case UXTH:
        case CLZ:
        case MoveGPR: return isGPR(o(0)) && isGPR(o(1));
        case MOV_Constant:
        case MVN_Constant: return isGPR(o(0)) && o(1).isImm() && rotatedByte(o(1).imm());
        case MOV:
        case MVN: return isGPR(o(0)) && isOp2(o(1));
        case MOVW: return isGPR(o(0)) && (immIn(o(1), 0, 65535) || (o(1).isReloc() && o(1).type() == T::LowBits));
        case MOVT: return isGPR(o(0)) && o(2) == o(0) && (immIn(o(1), 0, 65535) || (o(1).isReloc() && o(1).type() == T::HighBits));
        case ADD_Cond:
        case SUB_Cond:
        case AND_Cond:
        case ORR_Cond:
        case EOR_Cond:
        case BIC_Cond:
        case RSB_Cond: return isCondition(o(0)) && isGPR(o(1)) && isGPR(o(2)) && isOp2(o(3)) && isFlags(o(4)) && o(5) == o(1);
        case MOV_Cond:
        case MVN_Cond: return isCondition(o(0)) && isGPR(o(1)) && isOp2(o(2)) && isFlags(o(3)) && o(4) == o(1);
        case MOVW_Cond: return isCondition(o(0)) && isGPR(o(1)) && immIn(o(2), 0, 65535) && isFlags(o(3)) && o(4) == o(1);
        case VMOV_Cond: return isCondition(o(0)) && isFPR(o(1)) && isFPR(o(2)) && isFlags(o(3)) && o(4) == o(1);
        case MOVT_MOVW_PAIR: return isGPR(o(0)) && (immIn(o(1), 0, UINT32_MAX) || o(1).isReloc());
        case LSL:
        case LSR:
        case ASR: {
            const bool amount = isGPR(o(2)) || immIn(o(2), 0, inst.mOpcode == LSL ? 31 : 32);
            return isGPR(o(0)) && isGPR(o(1)) && amount;
        }
        case USAT: return isGPR(o(0)) && isGPR(o(2)) && immIn(o(1), 0, 31);
        case SSAT:
            return isGPR(o(0)) && isGPR(o(2)) && (immIn(o(1), 1, 32) || finding(immIn(o(1), 0, 0), "finding/saturates-to-one-bit-less"));
        case CMP:
        case CMN: return isGPR(o(0)) && isOp2(o(1)) && isFlags(o(2));
        case VCMP_F32: return isFPR(o(0)) && isFPR(o(1)) && isFPFlags(o(2));
        case VCMP_F32_WithZero: return isFPR(o(0)) && immIn(o(1), 0, 0) && isFPFlags(o(2));
        case TRANSFER_FPSCR_FLAG: return isFlags(o(0)) && isFPFlags(o(1));
        case VADD_F32:
        case VSUB_F32:
        case VMUL_F32:
        case VDIV_F32: return isFPR(o(0)) && isFPR(o(1)) && isFPR(o(2));
        case VNEG_F32:
        case VABS_F32:
        case VMOV:
        case VCVT_F32_S32:
        case VCVT_S32_F32: return isFPR(o(0)) && isFPR(o(1));
        case VMOV_GPR2FPR: return isFPR(o(0)) && isGPR(o(1));
        case VMOV_FPR2GPR: return isGPR(o(0)) && isFPR(o(1));
        case NZCVFlag2GPR: return isGPR(o(0)) && isFlags(o(1)) && isCondition(o(2));
        case Select_GPR: return isGPR(o(0)) && isOp2(o(1)) && isOp2(o(2)) && isFlags(o(3)) && isCondition(o(4));
        case Select_FPR: return isFPR(o(0)) && isFPR(o(1)) && isFPR(o(2)) && isFlags(o(3)) && isCondition(o(4));
        case CondArith_GPR:
            return isGPR(o(0)) && isGPR(o(1)) && isOp2(o(2)) && isFlags(o(3)) && isCondition(o(4)) && immIn(o(5), ADD, RSB);
        case PseudoIntOpWithOp2_Cond:
            return isCondition(o(0)) && isGPR(o(1)) && isGPR(o(2)) && isOp2(o(3)) && isGPR(o(4)) && immIn(o(5), ADD_Cond, RSB_Cond) && isFlags(o(6));
        case PseudoSMax:
        case PseudoSMin:
        case PseudoSMax_Inverted:
        case PseudoSMin_Inverted: return isGPR(o(0)) && isGPR(o(1)) && isOp2(o(2)) && isFlags(o(3));
        case LDR:
        case LDRB:
        case STR:
        case STRB: return isGPR(o(0)) && address(4095);
        case LDRSB:
        case LDRH:
        case LDRSH:
        case STRH: return isGPR(o(0)) && address(255);
        case VLDR:
        case VSTR: return isFPR(o(0)) && address(1020) && hasFPRange(o(2).imm());
        case LDR_Fused:
        case LDRB_Fused:
        case STR_Fused:
        case STRB_Fused: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2)) && immIn(o(3), 0, 31);
        case LDRSB_Fused:
        case LDRH_Fused:
        case LDRSH_Fused:
        case STRH_Fused: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2)) && immIn(o(3), 0, 0);
        case B_Cond: return isCondition(o(0)) && isFlags(o(2));
        case B:
        case UNIMP: return true;
        default: return false;
    }
}
static int machineDefines(uint32_t op) {
    switch(op) {
        case STR:
        case STRB:
        case STRH:
        case VSTR:
        case STR_Fused:
        case STRB_Fused:
        case STRH_Fused:
        case B_Cond:
        case B:
        case UNIMP: return -1;
        case CMP:
        case CMN:
        case VCMP_F32:
        case VCMP_F32_WithZero: return 2;
        case ADD_Cond:
        case SUB_Cond:
        case AND_Cond:
        case ORR_Cond:
        case EOR_Cond:
        case ORN_Cond:
        case BIC_Cond:
        case RSB_Cond:
        case MOV_Cond:
        case MVN_Cond:
        case MOVW_Cond:
        case VMOV_Cond:
        case PseudoIntOpWithOp2_Cond: return 1;
        default: return 0;
    }
}
// clamping to [-2^n, 2^n) takes n + 1 bits, not n
static bool knownValue(const MIRInst& before, uint32_t rootOp, uint64_t now, uint64_t old) {
    if(rootOp != InstSMin && rootOp != InstSMax)
        return false;
    for(int i = 0; i < numFresh; ++i) {
        const MIRInst& inst = fresh[i].inst;
        if(inst.mOpcode == SSAT && inst.mOperands[0] == before.mOperands[0]) {
            const uint64_t x = evalOp(inst.mOperands[2]);
            const auto n = static_cast<unsigned>(inst.mOperands[1].imm() & 31);
            return finding((old == saturate(x, -(1LL << n), (1LL << n) - 1)) & (now != old), "finding/saturates-to-one-bit-less");
        }
    }
    return false;
}
static bool knownBranch(const MIRInst&, bool, bool) {
    return false;
}
}  // namespace isel
#if !defined(VF_NATIVE) && !defined(VF_ARM_EXPAND)
// isOperandOp2Constant is used through its contract (arm_op2 of aexpand.cpp)
extern "C" bool VF_CONTRACT(op2Contract(const MIROperand* op), "_ZN4cmmc3mir3ARM20isOperandOp2ConstantERKNS0_10MIROperandE");
bool op2Contract(const MIROperand* op) {
    return op->isImm() && isel::rotatedByte(op->imm());
}
#endif
