// Contract of instruction selection for MIPS32 (cmmc/Target/MIPS/MIPSISelInfo.cpp and the patterns
// generated from MIPS.yml); see iselcore.hpp.  Registers are 32 bits wide and are kept sign-extended
// to 64 bits here; narrower integers are sign-extended in their register, bool is 0 or 1.
#include "vf.hpp"
#include <cmmc/Target/MIPS/MIPSISelInfo.cpp>

using namespace cmmc;
using namespace cmmc::mir;
using namespace cmmc::mir::MIPS;

namespace cmmc::mir::MIPS {
const TargetInstInfo& getMIPSInstInfo();
}
#include "iselkind.hpp"

namespace isel {
using SelInfo = MIPSISelInfo;
static const TargetInstInfo& targetInfo() {
    return getMIPSInstInfo();
}
constexpr bool has64 = false;
constexpr T addrType = T::Int32;
constexpr uint32_t zeroReg = X0, fixedReg = X2;
// i 16-bit constant, j unsigned 16-bit constant, 5 shift amount, L 32-bit constant, K the condition flag, F 0 or 1, Z $zero, H hi/lo
static const Kind kinds[] = {
    { InstCopyFromReg, "D", tAll | t8 | t16 | tF },  // anything else
    { InstAdd, "Dvv", t32 },
    { InstSub, "Dvv", t32 },
    { InstMul, "Dvv", t32 },
    { InstUDiv, "Dvv", t32 },
    { InstURem, "Dvv", t32 },
    { InstSDiv, "Dvvnnn", t32 },
    { InstSRem, "Dvvnnn", t32 },
    { InstAnd, "Dvv", t32 | tB },
    { InstOr, "Dvv", t32 | tB },
    { InstXor, "Dvv", t32 | tB },
    { InstShl, "Dvs", t32 },
    { InstLShr, "Dvs", t32 },
    { InstAShr, "Dvs", t32 },
    { InstNeg, "Dv", t32 },
    { InstAbs, "Dv", t32 },
    { InstFAdd, "Dff", tF },
    { InstFSub, "Dff", tF },
    { InstFMul, "Dff", tF },
    { InstFDiv, "Dff", tF },
    { InstFNeg, "Df", tF },
    { InstFAbs, "Df", tF },
    { InstICmp, "Dcco", tB },
    { InstFCmp, "Dffp", tB },
    { InstSExt, "Dx", t32 },
    { InstZExt, "Dx", t32 },
    { InstTrunc, "Dx", t8 | t16 },
    { InstF2S, "Df", t32 },
    { InstS2F, "Dg", tF },
    { InstCopy, "Dr", t32 | tB },
    { InstSelect, "Dbvv", t32 | tB },
    { InstSelect, "Dbff", tF },
    { InstLoadImm, "DI", t32 | tB },
    { InstLoadImmToReg, "EI", t32 },
    { InstLoadGlobalAddress, "DR", t32 },
    { InstLoadStackObjectAddr, "DS", t32 },
    { InstLoad, "DaA", t32 | tB | t8 | t16 | tF },
    { InstStore, "aVA", t32 | tB | t8 | t16 | tF },  // type of the stored value
    { InstBranch, "bTP", tB },
    { InstJump, "T", tB },
    { InstUnreachable, "", tB },
    { ADDU, "Drr", t32 },
    { AND, "Drr", t32 | tB },
    { NOR, "Drr", t32 },
    { OR, "Drr", t32 | tB },
    { XOR, "Drr", t32 | tB },
    { SUBU, "Drr", t32 },
    { SLLV, "Drr", t32 },
    { SRAV, "Drr", t32 },
    { SRLV, "Drr", t32 },
    { ADDIU, "Dri", t32 },
    { ANDI, "Drj", t32 | tB },
    { ORI, "Drj", t32 | tB },
    { XORI, "Drj", t32 | tB },
    { SLL, "Dr5", t32 },
    { SRA, "Dr5", t32 },
    { SRL, "Dr5", t32 },
    { SLT, "DCC", tB },
    { SLTU, "DCC", tB },
    { SLTI, "DCi", tB },
    { SLTIU, "DCi", tB },
    { LUI, "Dj", t32 },
    { LoadImm16, "Di", t32 | tB },
    { LoadImm32, "DL", t32 },
    { MoveGPR, "Dr", t32 | tB },
    { MFC1, "Df", t32 },
    { MTC1, "qD", tF },
    { FCC2GPR, "DKF", tB },
    { Select_GPR_GPR, "Dvvb", t32 | tB },
};
}  // namespace isel
#include "iselcore.hpp"

namespace isel {
// the condition flag when a definition reads it and when the instruction is executed
static uint64_t flagAt[maxNodes], flagNow;
static bool flagKnown[maxNodes], flagNowKnown;
static uint64_t flag(unsigned code) {
    if(!flagKnown[code]) {
        flagKnown[code] = true;
        flagAt[code] = symOf("cc", code, 1);
    }
    return flagAt[code];
}
static uint64_t flagHere() {
    if(!flagNowKnown) {
        flagNowKnown = true;
        flagNow = vf_sym("ccnow", 1);
    }
    return flagNow;
}
static void targetOperand(MIROperand& op, char s, unsigned code, int i, T) {
    switch(s) {
        case 'i': op = makeSmall(code, i, 16, true); break;
        case 'j': op = makeSmall(code, i, 16, false); break;
        case '5': op = makeSmall(code, i, 5, false); break;
        case 'L': op = makeSmall(code, i, 32, true); break;
        case 'q': op = pick("form", code, i, 2) ? MIROperand::asISAReg(X0, T::Int32) : makeReg(code, i, T::Int32); break;
        case 'K': op = MIROperand::asISAReg(CC, T::Special); break;
        case 'F': op = MIROperand::asImm(static_cast<intmax_t>(pick("flip", code, i, 2)), T::Special); break;
        default: break;
    }
}
static bool targetRegister(const MIROperand& op, uint64_t& value) {
    if(op.reg() == CC) {
        value = flagHere();
        return true;
    }
    return false;
}
static void stillHolds(const MIROperand& val, const MIROperand& def) {
    if(val.reg() != CC)
        return;
    Node* n = nodeOfReg(def);
    if(n)
        vf_assume(flag(static_cast<unsigned>(n - nodes)) == flagHere());
}
static bool reliesOnNoOverflow(uint32_t) {
    return false;
}
// intermediate results of conversions may have a narrow type
static bool keepsCanonical(T type) {
    return type != T::Int8 && type != T::Int16;
}
static bool loadsAnyConstant(uint32_t) {
    return false;
}
static uint64_t w32(uint64_t v) {
    return u64(sx(v, 32));
}
static uint64_t evalMachine(const MIRInst& inst, uint32_t op, T type, Access* acc) {
    const auto o = [&](int i) -> const MIROperand& { return inst.mOperands[i]; };
    const auto v = [&](int i) { return evalOp(inst.mOperands[i]); };
    switch(op) {
        case ADDU:
        case ADDIU: return w32(v(1) + v(2));
        case SUBU: return w32(v(1) - v(2));
        case AND:
        case ANDI: return v(1) & v(2);
        case OR:
        case ORI: return v(1) | v(2);
        case XOR:
        case XORI: return v(1) ^ v(2);
        case NOR: return ~(v(1) | v(2));
        case SLL:
        case SLLV: return w32(v(1) << (v(2) & 31));
        case SRL:
        case SRLV: return w32(zx(v(1), 32) >> (v(2) & 31));
        case SRA:
        case SRAV: return u64(sx(v(1), 32) >> (v(2) & 31));
        case SLT:
        case SLTI: return static_cast<int64_t>(v(1)) < static_cast<int64_t>(v(2));
        case SLTU:
        case SLTIU: return zx(v(1), 32) < zx(v(2), 32);
        case LUI:
            if(o(1).isReloc())
                return v(1);
            return w32(v(1) << 16);
        case LoadImm32: return w32(v(1));
        case LoadImm16:
        case MoveGPR:
        case MOV_S: return v(1);
        // hi << 32 | lo; the result is the third or fourth operand
        case MULT: return v(0) * v(1);
        case DIV: {
            const uint64_t a = v(1), b = v(2);
            return zx(sdiv(a, b, 32, false, false), 32) | zx(sdiv(a, b, 32, true, false), 32) << 32;
        }
        case DIVU: {
            const uint64_t a = v(1), b = v(2);
            return zx(udiv(a, b, 32, false, false), 32) | zx(udiv(a, b, 32, true, false), 32) << 32;
        }
        case MFLO: return w32(v(1));
        case MFHI: return w32(v(1) >> 32);
        case ADD_S: return apply(FAddF, v(1), v(2), 32);
        case SUB_S: return apply(FSubF, v(1), v(2), 32);
        case MUL_S: return apply(FMulF, v(1), v(2), 32);
        case DIV_S: return apply(FDivF, v(1), v(2), 32);
        case ABS_S: return apply(FAbsF, v(1), 0, 32);
        case NEG_S: return apply(FNegF, v(1), 0, 32);
        case CVT_S_W: return apply(S2FF, v(1), 0, 32);
        case TRUNC_W_S: return apply(F2SF, v(1), 0, 32);
        case MFC1: return w32(v(1));
        case MTC1: return zx(v(0), 32);
        case C_EQ_S: return evalFCmp(CompareOp::FCmpOrderedEqual, v(0), v(1));
        case C_UEQ_S: return evalFCmp(CompareOp::FCmpUnorderedEqual, v(0), v(1));
        case C_OLT_S: return evalFCmp(CompareOp::FCmpOrderedLessThan, v(0), v(1));
        case C_OLE_S: return evalFCmp(CompareOp::FCmpOrderedLessEqual, v(0), v(1));
        case C_ULT_S: return evalFCmp(CompareOp::FCmpUnorderedLessThan, v(0), v(1));
        case C_ULE_S: return evalFCmp(CompareOp::FCmpUnorderedLessEqual, v(0), v(1));
        case FCC2GPR: {
            const Node* n = nodeOfReg(o(0));
            const bool def = n && n->mem == &inst && n != nodes;
            return (def ? flag(static_cast<unsigned>(n - nodes)) : v(1)) ^ v(2);
        }
        case Select_GPR_GPR:
        case Select_FCC_FPR_FPR:
        case Select_GPR_FPR_FPR: {
            const uint64_t a = v(1), b = v(2);
            return vf_ite(v(3) != 0, a, b);
        }
        case MOVN: {
            const uint64_t a = v(1), b = v(3);
            return vf_ite(v(2) != 0, a, b);
        }
        case MOVZ:
        case MOVZ_S: {
            const uint64_t a = v(1), b = v(3);
            return vf_ite(v(2) == 0, a, b);
        }
        case MOVT:
        case MOVT_S: {
            const uint64_t a = v(1), b = v(3);
            return vf_ite(v(2) != 0, a, b);
        }
        case MOVF:
        case MOVF_S: {
            const uint64_t a = v(1), b = v(3);
            return vf_ite(v(2) == 0, a, b);
        }
        case LB:
        case LH:
        case LW:
        case LBU:
        case LHU:
        case LWC1: {
            const unsigned bytes = op == LB || op == LBU ? 1 : op == LH || op == LHU ? 2 : 4;
            const uint64_t addr = w32(v(1) + v(2)), m = loadMem(addr, bytes);
            if(acc)
                *acc = { addr, 0, bytes, false, true };
            return op == LBU || op == LHU || op == LWC1 ? m : u64(sx(m, bytes * 8));
        }
        case SB:
        case SH:
        case SW:
        case SWC1: {
            const unsigned bytes = op == SB ? 1 : op == SH ? 2 : 4;
            *acc = { w32(v(1) + v(2)), zx(v(0), bytes * 8), bytes, false, true };
            return 0;
        }
        case BEQ: *acc = { 0, 0, 0, v(0) == v(1), true }; return 0;
        case BNE: *acc = { 0, 0, 0, v(0) != v(1), true }; return 0;
        case BLTZ: *acc = { 0, 0, 0, static_cast<int64_t>(v(0)) < 0, true }; return 0;
        case BLEZ: *acc = { 0, 0, 0, static_cast<int64_t>(v(0)) <= 0, true }; return 0;
        case BGTZ: *acc = { 0, 0, 0, static_cast<int64_t>(v(0)) > 0, true }; return 0;
        case BGEZ: *acc = { 0, 0, 0, static_cast<int64_t>(v(0)) >= 0, true }; return 0;
        case BC1T: *acc = { 0, 0, 0, v(1) != 0, true }; return 0;
        case BC1F: *acc = { 0, 0, 0, v(1) == 0, true }; return 0;
        case B: *acc = { 0, 0, 0, true, true }; return 0;
        case BREAK: return 0;
        default: vf_assert(false, "select/known-instruction"); return 0;
    }
}
static bool isFlag(const MIROperand& op) {
    return op.isReg() && op.reg() == CC;
}
static bool isHILO(const MIROperand& op) {
    return op.isReg() && op.reg() == HILO;
}
static bool encodable(const MIRInst& inst) {
    const auto o = [&](int i) -> const MIROperand& { return inst.mOperands[i]; };
    const auto imm16 = [&](int i) { return immIn(o(i), -32768, 32767) || (o(i).isReloc() && o(i).type() == T::LowBits); };
    // the offset of a stack object replaces the offset of the instruction later
    const auto address = [&] { return isAddress(o(2)) && (!isStackObject(o(2).reg()) || (o(1).isImm() && o(1).imm() == 0)); };
    switch(inst.mOpcode) {
        case ADDIU:
        case SLTI:
        case SLTIU: return isGPR(o(0)) && isGPR(o(1)) && imm16(2);
        case ANDI:
        case ORI:
        case XORI: return isGPR(o(0)) && isGPR(o(1)) && immIn(o(2), 0, 65535);
        case SLL:
        case SRA:
        case SRL: return isGPR(o(0)) && isGPR(o(1)) && immIn(o(2), 0, 31);
        case LUI: return isGPR(o(0)) && (immIn(o(1), 0, 65535) || (o(1).isReloc() && o(1).type() == T::HighBits));
        case LoadImm16: return isGPR(o(0)) && immIn(o(1), -32768, 32767);
        case LoadImm32: return isGPR(o(0)) && immIn(o(1), INT32_MIN, UINT32_MAX);
        case ADD_S:
        case SUB_S:
        case MUL_S:
        case DIV_S: return isFPR(o(0)) && isFPR(o(1)) && isFPR(o(2));
        case ABS_S:
        case NEG_S:
        case MOV_S:
        case CVT_S_W:
        case TRUNC_W_S: return isFPR(o(0)) && isFPR(o(1));
        case C_EQ_S:
        case C_UEQ_S:
        case C_OLT_S:
        case C_OLE_S:
        case C_ULT_S:
        case C_ULE_S: return isFPR(o(0)) && isFPR(o(1)) && isFlag(o(2));
        case MULT: return isGPR(o(0)) && isGPR(o(1)) && isHILO(o(2));
        case DIV:
        case DIVU: return o(0).isReg() && o(0).reg() == X0 && isGPR(o(1)) && isGPR(o(2)) && isHILO(o(3));
        case MFLO:
        case MFHI: return isGPR(o(0)) && isHILO(o(1));
        case MFC1: return isGPR(o(0)) && isFPR(o(1));
        case MTC1: return isGPR(o(0)) && isFPR(o(1));
        case LB:
        case LH:
        case LW:
        case LBU:
        case LHU: return isGPR(o(0)) && imm16(1) && address();
        case LWC1:
        case SWC1: return isFPR(o(0)) && imm16(1) && address();
        case SB:
        case SH:
        case SW: return isGPR(o(0)) && imm16(1) && address();
        case BEQ:
        case BNE: return isGPR(o(0)) && isGPR(o(1));
        case BLTZ:
        case BLEZ:
        case BGTZ:
        case BGEZ: return isGPR(o(0));
        case BC1T:
        case BC1F: return isFlag(o(1));
        case MoveGPR: return isGPR(o(0)) && isGPR(o(1));
        case MOVN:
        case MOVZ: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2)) && o(3) == o(0);
        case MOVT:
        case MOVF: return isGPR(o(0)) && isGPR(o(1)) && isFlag(o(2)) && o(3) == o(0);
        case MOVT_S:
        case MOVF_S: return isFPR(o(0)) && isFPR(o(1)) && isFlag(o(2)) && o(3) == o(0);
        case MOVZ_S: return isFPR(o(0)) && isFPR(o(1)) && isGPR(o(2)) && o(3) == o(0);
        case FCC2GPR: return isGPR(o(0)) && isFlag(o(1)) && immIn(o(2), 0, 1);
        case Select_GPR_GPR: return isGPR(o(0)) && isGPR(o(1)) && (isGPR(o(2)) || o(2).isImm()) && isGPR(o(3));
        case Select_FCC_FPR_FPR: return isFPR(o(0)) && isFPR(o(1)) && isFPR(o(2)) && isFlag(o(3));
        case Select_GPR_FPR_FPR: return isFPR(o(0)) && isFPR(o(1)) && isFPR(o(2)) && isGPR(o(3));
        case B:
        case BREAK: return true;
        default: return isGPR(o(0)) && isGPR(o(1)) && isGPR(o(2));
    }
}
static int machineDefines(uint32_t op) {
    switch(op) {
        case SB:
        case SH:
        case SW:
        case SWC1:
        case BEQ:
        case BNE:
        case BLTZ:
        case BLEZ:
        case BGTZ:
        case BGEZ:
        case BC1T:
        case BC1F:
        case B:
        case BREAK: return -1;
        case C_EQ_S:
        case C_UEQ_S:
        case C_OLT_S:
        case C_OLE_S:
        case C_ULT_S:
        case C_ULE_S:
        case MULT: return 2;
        case DIV:
        case DIVU: return 3;
        case MTC1: return 1;
        default: return 0;
    }
}
// `a < b` or its negation instead of the comparison that is also true for unordered operands
static bool knownValue(const MIRInst& before, uint32_t rootOp, uint64_t now, uint64_t old) {
    if(rootOp != InstFCmp)
        return false;
    const uint64_t a = evalOp(before.mOperands[1]), b = evalOp(before.mOperands[2]);
    uint64_t wrong;
    switch(static_cast<CompareOp>(before.mOperands[3].imm())) {
        case CompareOp::FCmpUnorderedLessThan: wrong = !evalFCmp(CompareOp::FCmpUnorderedLessThan, a, b); break;
        case CompareOp::FCmpUnorderedLessEqual: wrong = !evalFCmp(CompareOp::FCmpUnorderedLessEqual, a, b); break;
        case CompareOp::FCmpUnorderedGreaterThan: wrong = evalFCmp(CompareOp::FCmpOrderedLessThan, a, b); break;
        case CompareOp::FCmpUnorderedGreaterEqual: wrong = evalFCmp(CompareOp::FCmpOrderedLessEqual, a, b); break;
        default: return false;
    }
    return finding((now == wrong) & (now != old), "finding/unordered-float-comparison");
}
// a < b decided by the sign of a - b, which may overflow
static bool knownBranch(const MIRInst& before, bool now, bool old) {
    const Node* n = nodeOfReg(before.mOperands[0]);
    if(!n || !n->hasDef || n->mem->mOpcode != InstICmp)
        return false;
    bool subtracts = false;
    for(int i = 0; i < numFresh; ++i)
        subtracts |= fresh[i].inst.mOpcode == SUBU || fresh[i].inst.mOpcode == ADDU || fresh[i].inst.mOpcode == ADDIU;
    if(!subtracts)
        return false;
    const uint64_t a = evalOp(n->mem->mOperands[1]), b = evalOp(n->mem->mOperands[2]);
    return finding((a - b != w32(a - b)) & (now != old), "finding/branch-on-overflowing-difference");
}
}  // namespace isel
