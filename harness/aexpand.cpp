// Contracts of what follows instruction selection on ARM: expansion of pseudo instructions
// (preRALegalizeInst, postLegalizeInstSeq), the last legalisation (postLegalizeInst), accesses to stack
// objects, stack pointer adjustment and the rewriting of branches.
#define VF_ARM_EXPAND
#include "arm.cpp"
#include "expandcore.hpp"

namespace isel {
static bool isMove(uint32_t op) {
    return op == MoveGPR || op == VMOV;
}
static int targetOperandOf(uint32_t op) {
    return op == B ? 0 : 1;
}
static uint32_t gotoOpcode() {
    return B;
}
const uint32_t branches[] = { B, B_Cond };
const unsigned numBranches = sizeof(branches) / sizeof(*branches);
static const MIROperand flagsReg = MIROperand::asISAReg(CC, T::Special);
static MIROperand anyCondition() {
    return MIROperand::asImm(static_cast<intmax_t>(vf_concretize(vf_dom("condition", 12))), T::CondField);
}
static MIRInst makeBranch(uint32_t op, MIRBasicBlock* to) {
    MIRInst inst{ op };
    if(op == B)
        inst.setOperand<0>(MIROperand::asReloc(to));
    else
        inst.setOperand<0>(anyCondition()).setOperand<1>(MIROperand::asReloc(to)).setOperand<2>(flagsReg).setOperand<3>(MIROperand::asProb(0.25));
    return inst;
}
// a register or a rotated constant
static MIROperand op2(unsigned code, T type) {
    MIROperand op;
    targetOperand(op, '2', code, 0, type);
    return op;
}
static void expandSel(uint32_t op, T type) {
    Frame f = makeFrame();
    const MIROperand dst = freshReg(1, type);
    MIRInst sel{ op };
    switch(op) {
        case NZCVFlag2GPR: sel.setOperand<0>(dst).setOperand<1>(flagsReg).setOperand<2>(anyCondition()); break;
        case Select_GPR: sel.setOperand<0>(dst).setOperand<1>(op2(2, type)).setOperand<2>(op2(3, type)).setOperand<3>(flagsReg).setOperand<4>(anyCondition()); break;
        case Select_FPR:
            sel.setOperand<0>(dst).setOperand<1>(freshReg(2, type)).setOperand<2>(freshReg(3, type)).setOperand<3>(flagsReg).setOperand<4>(anyCondition());
            break;
        case CondArith_GPR: {
            static const uint32_t ops[] = { ADD, SUB, ORR, EOR };
            sel.setOperand<0>(dst).setOperand<1>(freshReg(2, type)).setOperand<2>(op2(3, type)).setOperand<3>(flagsReg).setOperand<4>(anyCondition());
            sel.setOperand<5>(MIROperand::asImm(ops[vf_concretize(vf_dom("op", 4))], T::Special));
            break;
        }
        case PseudoIntOpWithOp2_Cond: {
            // the operands may be the same register
            const MIROperand rm = freshReg(4, type), rn = vf_concretize(vf_dom("same", 2)) ? rm : freshReg(2, type);
            const MIROperand b = vf_concretize(vf_dom("same2", 2)) ? rm : op2(3, type);
            sel.setOperand<0>(anyCondition()).setOperand<1>(dst).setOperand<2>(rn).setOperand<3>(b).setOperand<4>(rm);
            sel.setOperand<5>(MIROperand::asImm(RSB_Cond, T::Special)).setOperand<6>(flagsReg);
            break;
        }
        default: sel.setOperand<0>(dst).setOperand<1>(freshReg(2, type)).setOperand<2>(op2(3, type)).setOperand<3>(flagsReg); break;
    }
    const MIRInst before = sel;
    const uint64_t expect = evalInst(before, op, type, false, nullptr);
    const MIROperand p = freshReg(6, T::Int32), q = freshReg(7, T::Int32), tail = MIROperand::asVReg(90001, T::Int32);
    auto& list = f.block->instructions();
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(p).setOperand<1>(q));
    list.push_back(sel);
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(tail).setOperand<1>(p));
    const uint64_t pv = evalOp(q);
    auto it = std::next(list.begin());
    selInfo().SelInfo::preRALegalizeInst(InstLegalizeContext{ *it, list, it, f.cg, f.func.mBlocks.begin(), f.func });
    vf_cover("expanded");
    env[numEnv++] = { dst.reg(), 0 };  // no value yet
    for(auto& inst : list)
        vf_assert(inst.mOpcode != op, "expand/no-pseudo-instruction");
    MIRRelocable* to = nullptr;
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(tail) == pv, "expand/other-instructions-are-kept");
    vf_assert(valueOf(dst) == expect, "expand/same-selection");
}
static void last(uint32_t op, T type) {
    Frame f = makeFrame();
    const bool fp = type == T::Float32, imm = op == InstLoadImm;
    const MIROperand dst = MIROperand::asISAReg(fp ? S0 : R2, type), src = MIROperand::asISAReg(fp ? S2 : R4, type);
    auto& list = f.block->instructions();
    MIROperand from = src;
    uint64_t v = canon(vf_sym("v", imm ? 16 : bitsOf(type)), imm ? T::Int64 : type);
    if(imm)
        from = MIROperand::asImm(static_cast<intmax_t>(v), type);
    else
        env[numEnv++] = { src.reg(), v };
    list.push_back(MIRInst{ op }.setOperand<0>(dst).setOperand<1>(from));
    selInfo().SelInfo::postLegalizeInst(InstLegalizeContext{ list.front(), list, list.begin(), f.cg, std::nullopt, f.func });
    vf_cover("legalized");
    for(auto& inst : list) {
        inst.mOpcode = static_cast<uint32_t>(vf_concretize(inst.mOpcode));
        vf_assert(inst.mOpcode > ISASpecificBegin, "expand/a-machine-instruction");
    }
    MIRRelocable* to = nullptr;
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(dst) == v, "expand/same-value");
}
static bool isStore(uint32_t op) {
    return op == STR || op == STRH || op == STRB || op == VSTR;
}
static void stack(uint32_t op) {
    Frame f = makeFrame();
    const bool fp = op == VLDR || op == VSTR || (op < ISASpecificBegin && vf_concretize(vf_dom("fp", 2)));
    const bool access = op > ISASpecificBegin;
    if(fp && op == InstLoadStackObjectAddr)
        vf_stop();
    const MIROperand reg = MIROperand::asISAReg(fp ? S0 : R4, fp ? T::Float32 : T::Int32), bystander = MIROperand::asISAReg(R7, T::Int32);
    const uint64_t spv = u64(sx(vf_sym("sp", 32), 32)), off = u64(sx(vf_sym("off", 31), 31)), imm = access ? u64(sx(vf_sym("imm", 13), 13)) : 0;
    const uint64_t v = fp ? vf_sym("v", 32) : u64(sx(vf_sym("v", 32), 32)), w = u64(sx(vf_sym("w", 32), 32));
    env[numEnv++] = { R13, spv };
    env[numEnv++] = { reg.reg(), v };
    env[numEnv++] = { bystander.reg(), w };
    const MIROperand obj = MIROperand::asStackObject(5, T::Int32);
    StackObject object{ 64, 8, static_cast<int32_t>(off), StackObjectUsage::Local };
    auto& list = f.block->instructions();
    MIRInst inst{ op };
    inst.setOperand<0>(reg).setOperand<1>(obj);
    if(access)
        inst.setOperand<2>(MIROperand::asImm(static_cast<intmax_t>(imm), T::Int32));
    list.push_back(inst);
    selInfo().SelInfo::legalizeInstWithStackOperand(InstLegalizeContext{ list.front(), list, list.begin(), f.cg, std::nullopt, f.func }, list.front().mOperands[1],
                                                    object);
    vf_cover("legalized");
    const uint64_t addr = w32(spv + off + imm);
    MIRRelocable* to = nullptr;
    newAccess = {};
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(bystander) == w && valueOf(MIROperand::asISAReg(R13, T::Int32)) == spv, "stack/other-registers-are-kept");
    if(op == InstLoadStackObjectAddr) {
        vf_assert(valueOf(reg) == addr, "stack/same-address");
        return;
    }
    const uint32_t newOp = static_cast<uint32_t>(vf_concretize(list.back().mOpcode));
    if(access) {
        vf_assert(newOp == op && list.back().mOperands[0] == reg, "stack/same-access");
        if(isStore(op))
            vf_assert(newAccess.value == zx(v, newAccess.bytes * 8), "stack/same-stored-value");
    }
    vf_assert(newAccess.exists && newAccess.addr == addr, "stack/same-address");
    if(op == InstStoreRegToStack) {
        vf_assert(newAccess.bytes == 4, "stack/whole-register");
        vf_assert(newAccess.value == zx(v, 32), "stack/stores-the-register");
    }
    if(op == InstLoadRegFromStack) {
        vf_assert(newAccess.bytes == 4, "stack/whole-register");
        const uint64_t m = loadMem(addr, 4);
        vf_assert(valueOf(reg) == (fp ? m : u64(sx(m, 32))), "stack/loads-the-register");
    }
}
static void adjust() {
    Frame f = makeFrame();
    const uint64_t spv = u64(sx(vf_sym("sp", 32), 32));
    const auto imm = static_cast<int64_t>(sx(vf_sym("imm", 31), 31));
    auto& list = f.block->instructions();
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(MIROperand::asISAReg(R4, T::Int32)).setOperand<1>(MIROperand::asISAReg(R4, T::Int32)));
    const uint64_t w = u64(sx(vf_sym("w", 32), 32));
    env[numEnv++] = { R4, w };
    adjustReg(list, std::prev(list.end()), sp, sp, imm);
    vf_cover("adjusted");
    env[numEnv++] = { R13, spv };
    MIRRelocable* to = nullptr;
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(sp) == w32(spv + u64(imm)) && valueOf(MIROperand::asISAReg(R4, T::Int32)) == w, "stack/adjusts-the-stack-pointer");
}
// a 32-bit constant or an address in two halves
static void pair(bool address) {
    Frame f = makeFrame();
    static char reloc[64];
    theReloc = reinterpret_cast<MIRRelocable*>(reloc);
    const MIROperand dst = freshReg(1, T::Int32);
    const uint64_t v = vf_sym("v", 32);
    auto& list = f.block->instructions();
    const MIRInst two = MIRInst{ MOVT_MOVW_PAIR }.setOperand<0>(dst).setOperand<1>(address ? MIROperand::asReloc(theReloc) :
                                                                                             MIROperand::asImm(static_cast<intmax_t>(v), T::Int32));
    const uint64_t expect = evalInst(two, MOVT_MOVW_PAIR, T::Int32, false, nullptr);
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(freshReg(2, T::Int32)).setOperand<1>(freshReg(3, T::Int32)));
    list.push_back(two);
    selInfo().SelInfo::postLegalizeInstSeq(f.cg, list);
    vf_cover("split");
    for(auto& inst : list)
        vf_assert(inst.mOpcode != MOVT_MOVW_PAIR, "expand/no-pseudo-instruction");
    const uint64_t q = evalOp(freshReg(3, T::Int32));
    MIRRelocable* to = nullptr;
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(freshReg(2, T::Int32)) == q, "expand/other-instructions-are-kept");
    vf_assert(valueOf(dst) == expect, "expand/same-value");
}
// the contract selection relies on: exactly the constants of 8 bits rotated by an even amount
static void op2Constant() {
    const auto v = static_cast<intmax_t>(vf_sym("v", 64));
    const MIROperand op = MIROperand::asImm(v, T::Int32);
    const bool accepted = isOperandOp2Constant(op);
    vf_cover(accepted ? "accepted" : "rejected");
    vf_assert(accepted == rotatedByte(v), "op2/exactly-the-rotated-bytes");
    vf_assert(!isOperandOp2Constant(freshReg(1, T::Int32)), "op2/a-constant");
}
// a comparison is true exactly when the opposite condition is false
static void opposite() {
    const MIROperand c = anyCondition();
    const uint64_t f = vf_sym("flags", 4);
    const MIROperand d = getInvertedCondField(c);
    vf_cover("opposite");
    vf_assert(d.isImm() && condition(static_cast<uint64_t>(d.imm()), f) == !condition(static_cast<uint64_t>(c.imm()), f), "branch/opposite-condition");
}
}  // namespace isel
VF_ENTRY void aex_select(uint64_t which) {
    static const uint32_t ops[] = { NZCVFlag2GPR, Select_GPR, Select_FPR, CondArith_GPR, PseudoIntOpWithOp2_Cond, PseudoSMax, PseudoSMin, NZCVFlag2GPR, Select_GPR, PseudoSMax_Inverted, PseudoSMin_Inverted };
    isel::expandSel(ops[which], which == 0 || which == 8 ? OperandType::Bool : which == 2 ? OperandType::Float32 : OperandType::Int32);
}
VF_ENTRY void aex_last(uint64_t which, uint64_t type) {
    static const uint32_t ops[] = { InstCopy, InstCopyFromReg, InstCopyToReg, InstLoadImm };
    isel::last(ops[which], static_cast<OperandType>(type));
}
VF_ENTRY void aex_stack(uint64_t which) {
    static const uint32_t ops[] = { InstLoadStackObjectAddr, InstStoreRegToStack, InstLoadRegFromStack, STR, STRH, STRB, VSTR, LDR, LDRH, LDRSH, LDRB, LDRSB, VLDR };
    isel::stack(ops[which]);
}
VF_ENTRY void aex_adjust() {
    isel::adjust();
}
VF_ENTRY void aex_pair(uint64_t address) {
    isel::pair(address != 0);
}
VF_ENTRY void aex_branch(uint64_t which) {
    isel::branch(static_cast<uint32_t>(which));
}
VF_ENTRY void aex_op2() {
    isel::op2Constant();
}
VF_ENTRY void aex_opposite() {
    isel::opposite();
}
