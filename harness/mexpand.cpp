// Contracts of what follows instruction selection on MIPS: expansion of pseudo instructions
// (preRALegalizeInst), the last legalisation (postLegalizeInst), accesses to stack objects, stack
// pointer adjustment, delay slots (postLegalizeInstSeq) and the rewriting of branches.
#include "mips.cpp"
#include "expandcore.hpp"

namespace isel {
static bool isMove(uint32_t op) {
    return op == MoveGPR || op == MOV_S;
}
static int targetOperandOf(uint32_t op) {
    switch(op) {
        case B:
        case BC1T:
        case BC1F: return 0;
        case BEQ:
        case BNE: return 2;
        default: return 1;
    }
}
static uint32_t gotoOpcode() {
    return B;
}
const uint32_t branches[] = { B, BEQ, BNE, BLTZ, BLEZ, BGTZ, BGEZ, BC1T, BC1F };
const unsigned numBranches = sizeof(branches) / sizeof(*branches);
static MIRInst makeBranch(uint32_t op, MIRBasicBlock* to) {
    MIRInst inst{ op };
    const int t = targetOperandOf(op);
    inst.mOperands[t] = MIROperand::asReloc(to);
    if(op == B)
        return inst;
    for(int i = 0; i < t; ++i)
        inst.mOperands[i] = freshReg(static_cast<unsigned>(i + 1), T::Int32);
    const bool fcc = op == BC1T || op == BC1F;
    if(fcc)
        inst.mOperands[1] = MIROperand::asISAReg(CC, T::Special);
    inst.mOperands[fcc ? 2 : t + 1] = MIROperand::asProb(0.25);
    return inst;
}
// an operand of a conditional move: a register, $zero, or a constant
static MIROperand value(unsigned code, T type, uint64_t forms) {
    char buf[8] = "form0";
    buf[4] = static_cast<char>('0' + code);
    const uint64_t form = vf_concretize(vf_dom(buf, forms));
    if(form == 1)
        return MIROperand::asISAReg(X0, type);
    if(form == 2)
        return MIROperand::asImm(static_cast<int64_t>(canon(symOf("imm", code, 32), type)), type);
    return freshReg(code, type);
}
static void expandSel(uint32_t op, T type) {
    Frame f = makeFrame();
    const MIROperand dst = freshReg(1, type);
    MIRInst sel{ op };
    sel.setOperand<0>(dst);
    const MIROperand flag = MIROperand::asISAReg(CC, T::Special);
    switch(op) {
        case FCC2GPR:
            sel.setOperand<1>(flag).setOperand<2>(MIROperand::asImm(static_cast<int64_t>(vf_concretize(vf_dom("flip", 2))), T::Special));
            break;
        case Select_GPR_GPR: sel.setOperand<1>(value(2, type, 2)).setOperand<2>(value(3, type, 3)).setOperand<3>(value(4, T::Bool, 2)); break;
        case Select_GPR_FPR_FPR: sel.setOperand<1>(freshReg(2, type)).setOperand<2>(freshReg(3, type)).setOperand<3>(value(4, T::Bool, 2)); break;
        default: sel.setOperand<1>(freshReg(2, type)).setOperand<2>(freshReg(3, type)).setOperand<3>(flag); break;
    }
    const uint64_t expect = op == FCC2GPR ? flagHere() ^ static_cast<uint64_t>(sel.mOperands[2].imm()) : evalInst(sel, op, type, false, nullptr);
    const MIROperand p = freshReg(6, T::Int32), q = freshReg(7, T::Int32), tail = MIROperand::asVReg(90001, T::Int32);
    auto& list = f.block->instructions();
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(p).setOperand<1>(q));
    list.push_back(sel);
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(tail).setOperand<1>(p));
    const uint64_t pv = evalOp(q);
    auto it = std::next(list.begin());
    selInfo().SelInfo::preRALegalizeInst(InstLegalizeContext{ *it, list, it, f.cg, f.func.mBlocks.begin(), f.func });
    vf_cover("expanded");
    env[numEnv++] = { dst.reg(), 0 };  // no value yet
    for(auto& inst : list)
        vf_assert(inst.mOpcode != op, "expand/no-pseudo-instruction");
    MIRRelocable* to = nullptr;
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(tail) == pv, "expand/other-instructions-are-kept");
    vf_assert(valueOf(dst) == expect, "expand/same-selection");
}
static void last(uint32_t op, T type) {
    Frame f = makeFrame();
    const bool fp = type == T::Float32, imm = op == InstLoadImm;
    const MIROperand dst = MIROperand::asISAReg(fp ? F0 : X2, type), src = MIROperand::asISAReg(fp ? F2 : X4, type);
    auto& list = f.block->instructions();
    MIROperand from = src;
    uint64_t v = canon(vf_sym("v", bitsOf(type)), type);
    if(imm)
        from = MIROperand::asImm(v, type);
    else
        env[numEnv++] = { src.reg(), v };
    list.push_back(MIRInst{ op }.setOperand<0>(dst).setOperand<1>(from));
    selInfo().SelInfo::postLegalizeInst(InstLegalizeContext{ list.front(), list, list.begin(), f.cg, std::nullopt, f.func });
    vf_cover("legalized");
    for(auto& inst : list) {
        inst.mOpcode = static_cast<uint32_t>(vf_concretize(inst.mOpcode));
        vf_assert(inst.mOpcode > ISASpecificBegin, "expand/a-machine-instruction");
    }
    MIRRelocable* to = nullptr;
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(dst) == v, "expand/same-value");
}
static bool isStore(uint32_t op) {
    return op == SW || op == SH || op == SB || op == SWC1;
}
static void stack(uint32_t op) {
    Frame f = makeFrame();
    const bool fp = op == LWC1 || op == SWC1 || (op < ISASpecificBegin && vf_concretize(vf_dom("fp", 2)));
    const bool access = op > ISASpecificBegin;
    if(fp && op == InstLoadStackObjectAddr)
        vf_stop();
    const MIROperand reg = MIROperand::asISAReg(fp ? F0 : X4, fp ? T::Float32 : T::Int32);
    const uint64_t spv = u64(sx(vf_sym("sp", 32), 32)), off = u64(sx(vf_sym("off", 16), 16));
    const uint64_t v = fp ? vf_sym("v", 32) : u64(sx(vf_sym("v", 32), 32));
    env[numEnv++] = { X29, spv };
    env[numEnv++] = { reg.reg(), v };
    const MIROperand obj = MIROperand::asStackObject(5, T::Int32);
    StackObject object{ 64, 8, static_cast<int32_t>(off), StackObjectUsage::Local };
    auto& list = f.block->instructions();
    MIRInst inst{ op };
    inst.setOperand<0>(reg);
    if(access)  // selection gives an access to a stack object no further offset (R08)
        inst.setOperand<1>(MIROperand::asImm(0, T::Int32)).setOperand<2>(obj);
    else
        inst.setOperand<1>(obj);
    list.push_back(inst);
    auto& op2 = list.front().mOperands[access ? 2 : 1];
    selInfo().SelInfo::legalizeInstWithStackOperand(InstLegalizeContext{ list.front(), list, list.begin(), f.cg, std::nullopt, f.func }, op2, object);
    vf_cover("legalized");
    const uint64_t addr = w32(spv + off);
    MIRRelocable* to = nullptr;
    newAccess = {};
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    const uint32_t newOp = static_cast<uint32_t>(vf_concretize(list.back().mOpcode));
    if(op == InstLoadStackObjectAddr) {
        vf_assert(valueOf(reg) == addr, "stack/same-address");
        return;
    }
    if(access) {
        vf_assert(newOp == op && list.back().mOperands[0] == reg, "stack/same-access");
        if(isStore(op))
            vf_assert(newAccess.value == zx(v, newAccess.bytes * 8), "stack/same-stored-value");
    }
    vf_assert(newAccess.exists && newAccess.addr == addr, "stack/same-address");
    if(op == InstStoreRegToStack) {
        vf_assert(newAccess.bytes == 4, "stack/whole-register");
        vf_assert(newAccess.value == zx(v, 32), "stack/stores-the-register");
    }
    if(op == InstLoadRegFromStack) {
        vf_assert(newAccess.bytes == 4, "stack/whole-register");
        const uint64_t m = loadMem(addr, 4);
        vf_assert(valueOf(reg) == (fp ? m : u64(sx(m, 32))), "stack/loads-the-register");
    }
}
static void adjust() {
    Frame f = makeFrame();
    const uint64_t spv = u64(sx(vf_sym("sp", 32), 32));
    const auto imm = static_cast<int64_t>(sx(vf_sym("imm", 16), 16));
    auto& list = f.block->instructions();
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(MIROperand::asISAReg(X4, T::Int32)).setOperand<1>(MIROperand::asISAReg(X0, T::Int32)));
    adjustReg(list, std::prev(list.end()), sp, sp, imm);
    vf_cover("adjusted");
    env[numEnv++] = { X29, spv };
    MIRRelocable* to = nullptr;
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(sp) == w32(spv + u64(imm)), "stack/adjusts-the-stack-pointer");
}
// The instruction after a jump or branch is executed before control is transferred.  What stands there
// has to be harmless: the code is executed with and without delay slots and has to do the same.
static void delaySlots(uint64_t n) {
    Frame f = makeFrame();
    auto& list = f.block->instructions();
    static const uint32_t slots[] = { BEQ, BNE, BLTZ, BLEZ, BGTZ, BGEZ, BC1T, BC1F, B, JAL, JR, JR_IndirectJump };
    uint64_t expect[8];
    int count = 0;
    for(uint64_t i = 0; i < n; ++i) {
        char buf[8] = "inst0";
        buf[4] = static_cast<char>('0' + i);
        const uint64_t k = vf_concretize(vf_dom(buf, 13));
        // tagged so that the order can be compared
        list.push_back(MIRInst{ k == 12 ? static_cast<uint32_t>(ADDU) : slots[k] }.setOperand<3>(MIROperand::asImm(static_cast<int64_t>(i) + 1, T::Special)));
        expect[count++] = i + 1;
        if(k != 12)
            expect[count++] = 0;
    }
    selInfo().SelInfo::postLegalizeInstSeq(f.cg, list);
    vf_cover("slots");
    // branches keep their order among the others; each is followed by a slot holding a nop
    int at = 0;
    for(auto& inst : list) {
        vf_assert(at < count, "delay/nothing-added-but-nops");
        if(expect[at])
            vf_assert(inst.mOpcode != Nop && inst.mOperands[3].isImm() && static_cast<uint64_t>(inst.mOperands[3].imm()) == expect[at], "delay/same-order");
        else
            vf_assert(inst.mOpcode == Nop, "delay/nop-after-a-branch");
        ++at;
    }
    vf_assert(at == count, "delay/every-instruction-is-kept");
}
}  // namespace isel
VF_ENTRY void mex_select(uint64_t which) {
    static const uint32_t ops[] = { Select_GPR_GPR, FCC2GPR, Select_FCC_FPR_FPR, Select_GPR_FPR_FPR };
    isel::expandSel(ops[which], which == 1 ? OperandType::Bool : which >= 2 ? OperandType::Float32 : OperandType::Int32);
}
VF_ENTRY void mex_last(uint64_t which, uint64_t type) {
    static const uint32_t ops[] = { InstCopy, InstCopyFromReg, InstCopyToReg, InstLoadImm };
    isel::last(ops[which], static_cast<OperandType>(type));
}
VF_ENTRY void mex_stack(uint64_t which) {
    static const uint32_t ops[] = { InstLoadStackObjectAddr, InstStoreRegToStack, InstLoadRegFromStack, SW, SH, SB, SWC1, LW, LH, LB, LWC1 };
    isel::stack(ops[which]);
}
VF_ENTRY void mex_adjust() {
    isel::adjust();
}
VF_ENTRY void mex_branch(uint64_t which) {
    isel::branch(which);
}
VF_ENTRY void mex_slots(uint64_t n) {
    isel::delaySlots(n);
}
