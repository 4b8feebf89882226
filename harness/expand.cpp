// Contracts of the expansion of RISC-V pseudo instructions (preRALegalizeInst), of the last
// legalisation (postLegalizeInst), of accesses to stack objects and of stack pointer adjustment.
#include "isel.cpp"

#include "expandcore.hpp"
namespace isel {
static bool isMove(uint32_t op) {
    return op == MoveGPR || op == FMV_S;
}
static int targetOperandOf(uint32_t op) {
    return op == J ? 0 : 2;
}
static uint32_t gotoOpcode() {
    return J;
}
const uint32_t branches[] = { J, BEQ, BNE, BLT, BLE, BGT, BGE, BLTU, BLEU, BGTU, BGEU };
const unsigned numBranches = sizeof(branches) / sizeof(*branches);
static MIRInst makeBranch(uint32_t op, MIRBasicBlock* to) {
    if(op == J)
        return MIRInst{ J }.setOperand<0>(MIROperand::asReloc(to));
    return MIRInst{ op }.setOperand<0>(freshReg(1, T::Int64)).setOperand<1>(freshReg(2, T::Int64)).setOperand<2>(MIROperand::asReloc(to)).setOperand<3>(MIROperand::asProb(0.25));
}

// an immediate in a register
static void expandImm(uint32_t op, T type) {
    Frame f = makeFrame();
    const MIROperand dst = freshReg(1, type);
    const bool wide = op == LoadImm64;
    const uint64_t v = wide ? vf_sym("imm", 64) : type == T::Int64 ? u64(sx(vf_sym("imm", 33), 33)) : canon(vf_sym("imm", 32), type);
    auto& list = f.block->instructions();
    list.push_back(MIRInst{ op }.setOperand<0>(dst).setOperand<1>(MIROperand::asImm(v, type)));
    if(!wide && type == T::Int64)
        vf_assume((static_cast<int64_t>(v) >= INT32_MIN) & (static_cast<int64_t>(v) <= static_cast<int64_t>(UINT32_MAX)));
    if(type != T::Int64)
        vf_assume(v == canon(v, type));
    vf_assume(v != 0);  // zero is copied from x0
    selInfo().SelInfo::preRALegalizeInst(InstLegalizeContext{ list.front(), list, list.begin(), f.cg, f.func.mBlocks.begin(), f.func });
    vf_cover("expanded");
    MIRRelocable* to = nullptr;
    for(auto& inst : list)
        vf_assert(inst.mOpcode != LoadImm32 && inst.mOpcode != LoadImm64, "expand/no-pseudo-instruction");
    vf_assert(!runSeq(list.begin(), list.end(), to), "expand/no-branch");
    vf_assert(valueOf(dst) == v, "expand/same-constant");
}

// conditional moves become branches
static void expandSel(uint32_t op, T type, T cmp) {
    Frame f = makeFrame();
    const bool arith = op == Select_GPR_Arith;
    const MIROperand dst = freshReg(1, type);
    const auto value = [&](unsigned code, const char* what, T t) {
        // a register, zero, or a constant
        char buf[8] = "form0";
        buf[4] = static_cast<char>('0' + code);
        const uint64_t form = vf_concretize(vf_dom(buf, t == T::Float32 ? 1 : what[0] == 'c' || arith ? 2 : 3));
        if(form == 1)
            return MIROperand::asISAReg(X0, t);
        if(form == 2)
            return MIROperand::asImm(static_cast<int64_t>(canon(symOf("imm", code, 32), t == T::Int64 ? T::Int32 : t)), t);
        return freshReg(code, t);
    };
    MIROperand a = value(2, "v", type), b = value(3, "v", type), l = value(4, "c", cmp), r = value(5, "c", cmp);
    // the compared registers may be the selected ones
    const uint64_t same = vf_concretize(vf_dom("same", 5));
    if(same) {
        vf_assume(cmp == type);
        MIROperand& x = same & 1 ? l : r;
        const MIROperand& y = same <= 2 ? a : b;
        if(y.isImm() || (y.isReg() && y.reg() == X0))
            vf_stop();
        x = y;
    }
    const auto cc = static_cast<CompareOp>(static_cast<unsigned>(CompareOp::ICmpEqual) + vf_concretize(vf_dom("cc", 10)));
    auto& list = f.block->instructions();
    const MIROperand p = freshReg(6, T::Int64), q = freshReg(7, T::Int64), tail1 = MIROperand::asVReg(90001, T::Int64), tail2 = MIROperand::asVReg(90002, T::Int64);
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(p).setOperand<1>(q));
    MIRInst sel = MIRInst{ op }.setOperand<0>(dst).setOperand<1>(a).setOperand<2>(b).setOperand<3>(l).setOperand<4>(r).setOperand<5>(MIROperand::asImm(cc, T::Special));
    static const uint32_t ariths[] = { ADD, ADDW, SUB, SUBW, AND, OR, XOR };
    if(arith)
        sel.setOperand<6>(MIROperand::asImm(ariths[vf_concretize(vf_dom("arith", 7))], T::Special));
    list.push_back(sel);
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(tail1).setOperand<1>(p));
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(tail2).setOperand<1>(q));
    MIRBasicBlock* after = addBlock(f);
    const uint64_t expect = evalInst(sel, op, type, false, nullptr);
    if(arith)  // 32-bit results stay 32-bit values
        vf_assume(expect == canon(expect, type));
    const uint64_t pv = evalOp(q);
    auto it = std::next(list.begin());
    selInfo().SelInfo::preRALegalizeInst(InstLegalizeContext{ *it, list, it, f.cg, f.func.mBlocks.begin(), f.func });
    vf_cover("expanded");
    // run the blocks
    auto block = f.func.mBlocks.begin();
    env[numEnv++] = { dst.reg(), 0 };  // no value yet
    for(int steps = 0;; ++steps) {
        if(steps > 5) {
            vf_assert(false, "expand/terminates");
            return;
        }
        if(block == f.func.mBlocks.end() || block->get() == after)
            break;
        MIRRelocable* to = nullptr;
        auto& insts = block->get()->instructions();
        for(auto& inst : insts)
            vf_assert(inst.mOpcode != op, "expand/no-pseudo-instruction");
        if(runSeq(insts.begin(), insts.end(), to)) {
            auto target = f.func.mBlocks.begin();
            while(target != f.func.mBlocks.end() && static_cast<MIRRelocable*>(target->get()) != to)
                ++target;
            vf_assert(target != f.func.mBlocks.end(), "expand/branch-target");
            block = target;
        } else
            ++block;
    }
    vf_assert(block != f.func.mBlocks.end(), "expand/reaches-the-next-block");
    vf_assert(valueOf(tail1) == pv && valueOf(tail2) == pv, "expand/other-instructions-are-kept");
    vf_assert(valueOf(dst) == expect, "expand/same-selection");
}

// the last legalisation
static void last(uint32_t op, T type, bool imm) {
    Frame f = makeFrame();
    const MIROperand dst = MIROperand::asISAReg(type == T::Float32 ? F10 : X10, type), src = MIROperand::asISAReg(type == T::Float32 ? F11 : X11, type);
    auto& list = f.block->instructions();
    MIROperand from = src;
    uint64_t v = canon(vf_sym("v", bitsOf(type)), type);
    if(imm) {
        vf_assume(type != T::Int64 || (static_cast<int64_t>(v) >= INT32_MIN && static_cast<int64_t>(v) <= INT32_MAX));
        from = MIROperand::asImm(v, type);
    } else
        env[numEnv++] = { src.reg(), v };
    list.push_back(MIRInst{ op }.setOperand<0>(dst).setOperand<1>(from));
    selInfo().SelInfo::postLegalizeInst(InstLegalizeContext{ list.front(), list, list.begin(), f.cg, std::nullopt, f.func });
    vf_cover("legalized");
    vf_assert(list.size() == 1, "expand/one-instruction");
    MIRInst& inst = list.front();
    const uint32_t newOp = static_cast<uint32_t>(vf_concretize(inst.mOpcode));
    vf_assert(newOp > ISASpecificBegin, "expand/a-machine-instruction");
    MIRRelocable* to = nullptr;
    runSeq(list.begin(), list.end(), to);
    vf_assert(valueOf(dst) == v, "expand/same-value");
}

// accesses to the stack frame
static bool isStore(uint32_t op) {
    return op == SD || op == SW || op == SH || op == SB || op == FSW;
}
static void stack(uint32_t op) {
    Frame f = makeFrame();
    const bool fp = op == FLW || op == FSW || (op < ISASpecificBegin && vf_concretize(vf_dom("fp", 2)));
    const bool access = op > ISASpecificBegin;
    if(fp && op == InstLoadStackObjectAddr)
        vf_stop();
    const MIROperand reg = MIROperand::asISAReg(fp ? F10 : X10, fp ? T::Float32 : T::Int64);
    const uint64_t spv = vf_sym("sp", 64), v = vf_sym("v", fp ? 32 : 64), off = u64(sx(vf_sym("off", 32), 32));
    const uint64_t add = access ? u64(sx(vf_sym("imm", 12), 12)) : 0;
    env[numEnv++] = { X2, spv };
    env[numEnv++] = { reg.reg(), v };
    const MIROperand obj = MIROperand::asStackObject(5, T::Int64);
    StackObject object{ 64, 8, static_cast<int32_t>(off), StackObjectUsage::Local };
    // frames beyond the reach of a 12-bit offset are rejected by the compiler
    const auto total = static_cast<int64_t>(off + add);
    vf_assume((total >= -2048) & (total <= 2047));
    auto& list = f.block->instructions();
    MIRInst inst{ op };
    inst.setOperand<0>(reg);
    if(access)
        inst.setOperand<1>(MIROperand::asImm(add, T::Int64)).setOperand<2>(obj);
    else
        inst.setOperand<1>(obj);
    list.push_back(inst);
    auto& op2 = list.front().mOperands[access ? 2 : 1];
    selInfo().SelInfo::legalizeInstWithStackOperand(InstLegalizeContext{ list.front(), list, list.begin(), f.cg, std::nullopt, f.func }, op2, object);
    vf_cover("legalized");
    const uint64_t addr = spv + off + add;
    MIRRelocable* to = nullptr;
    newAccess = {};
    runSeq(list.begin(), list.end(), to);
    MIRInst& done = list.back();
    const uint32_t newOp = static_cast<uint32_t>(vf_concretize(done.mOpcode));
    if(op == InstLoadStackObjectAddr) {
        vf_assert(valueOf(reg) == addr, "stack/same-address");
        return;
    }
    if(access) {
        vf_assert(newOp == op && list.back().mOperands[0] == reg, "stack/same-access");
        if(isStore(op))
            vf_assert(newAccess.value == zx(v, newAccess.bytes * 8), "stack/same-stored-value");
    }
    vf_assert(newAccess.exists && newAccess.addr == addr, "stack/same-address");
    if(op == InstStoreRegToStack) {
        vf_assert(newAccess.bytes == (fp ? 4 : 8), "stack/whole-register");
        vf_assert(newAccess.value == v, "stack/stores-the-register");
    }
    if(op == InstLoadRegFromStack) {
        vf_assert(newAccess.bytes == (fp ? 4 : 8), "stack/whole-register");
        vf_assert(valueOf(reg) == loadMem(addr, fp ? 4 : 8), "stack/loads-the-register");
    }
}
static void adjust() {
    Frame f = makeFrame();
    const uint64_t spv = vf_sym("sp", 64);
    const auto imm = static_cast<int64_t>(sx(vf_sym("imm", 32), 32));
    vf_assume((imm >= -2048) & (imm <= 2047));
    auto& list = f.block->instructions();
    list.push_back(MIRInst{ MoveGPR }.setOperand<0>(MIROperand::asISAReg(X10, T::Int64)).setOperand<1>(MIROperand::asISAReg(X0, T::Int64)));
    adjustReg(list, std::prev(list.end()), sp, sp, imm);
    vf_cover("adjusted");
    env[numEnv++] = { X2, spv };
    MIRRelocable* to = nullptr;
    runSeq(list.begin(), list.end(), to);
    vf_assert(valueOf(sp) == spv + u64(imm), "stack/adjusts-the-stack-pointer");
}
}  // namespace isel
VF_ENTRY void exp_imm(uint64_t wide, uint64_t type) {
    isel::expandImm(wide ? LoadImm64 : LoadImm32, static_cast<OperandType>(type));
}
VF_ENTRY void exp_select(uint64_t which, uint64_t type, uint64_t cmp) {
    static const uint32_t ops[] = { Select_GPR_GPR, Select_GPR_Arith, Select_FPR_GPR };
    isel::expandSel(ops[which], static_cast<OperandType>(type), static_cast<OperandType>(cmp));
}
VF_ENTRY void exp_last(uint64_t which, uint64_t type) {
    static const uint32_t ops[] = { InstCopy, InstCopyFromReg, InstCopyToReg, InstLoadImm };
    isel::last(ops[which], static_cast<OperandType>(type), which == 3);
}
VF_ENTRY void exp_stack(uint64_t which) {
    static const uint32_t ops[] = { InstLoadStackObjectAddr, InstStoreRegToStack, InstLoadRegFromStack, SD, SW, SH, SB, FSW, LD, LW, LWU, LH, LHU, LB, LBU, FLW };
    isel::stack(ops[which]);
}
VF_ENTRY void exp_adjust() {
    isel::adjust();
}
VF_ENTRY void exp_branch(uint64_t which) {
    isel::branch(which);
}
