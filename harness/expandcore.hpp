// Shared by the contracts of expansions after instruction selection (expand.cpp, mexpand.cpp):
// frames, and running a list of instructions.
#pragma once
namespace isel {
struct Frame {
    CodeGenContext& cg;
    MIRFunction& func;
    MIRBasicBlock* block;
};
static const SelInfo& selInfo() {
    static char selfStorage[sizeof(SelInfo)];
    return *reinterpret_cast<const SelInfo*>(selfStorage);
}
static Frame makeFrame() {
    alignas(CodeGenContext) static char cgStorage[sizeof(CodeGenContext)];
    auto& cg = *reinterpret_cast<CodeGenContext*>(cgStorage);
    *reinterpret_cast<const TargetInstInfo**>(cgStorage + offsetof(CodeGenContext, instInfo)) = &targetInfo();
    cg.idx = 100000;
    alignas(MIRFunction) static char fStorage[sizeof(MIRFunction)];
    auto& func = *reinterpret_cast<MIRFunction*>(fStorage);
    new(&func.mBlocks) std::list<std::unique_ptr<MIRBasicBlock>>{};
    func.mBlocks.push_back(std::unique_ptr<MIRBasicBlock>{ new MIRBasicBlock{ String::get("b"), &func } });
    return { cg, func, func.mBlocks.front().get() };
}
static MIRBasicBlock* addBlock(Frame& f) {
    f.func.mBlocks.push_back(std::unique_ptr<MIRBasicBlock>{ new MIRBasicBlock{ String::get("other"), &f.func } });
    return f.func.mBlocks.back().get();
}
static MIROperand freshReg(unsigned code, T type) {
    return regNode(code, type, 0).dst;
}
static uint64_t valueOf(const MIROperand& reg) {
    for(int i = numEnv - 1; i >= 0; --i)
        if(env[i].reg == reg.reg())
            return env[i].value;
    vf_assert(false, "expand/result-is-defined");
    return 0;
}
static bool isMove(uint32_t op);
static int targetOperandOf(uint32_t op);
// runs the instructions from a position to the end of the block or to a taken branch
static bool runSeq(MIRInstList::iterator it, MIRInstList::iterator end, MIRRelocable*& to) {
    int n = 0;
    for(; it != end; ++it) {
        if(++n > maxNew - 2) {
            vf_assert(false, "harness/too-many-instructions");
            vf_stop();
        }
        newAccess = {};
        MIRInst& inst = *it;
        // a copy of a register to itself
        if(isMove(inst.mOpcode) && inst.mOperands[0] == inst.mOperands[1])
            continue;
        runNew(inst);
        if(newAccess.exists && newAccess.taken) {
            const int t = targetOperandOf(inst.mOpcode);
            vf_assert(inst.mOperands[t].isReloc(), "expand/branch-target");
            to = inst.mOperands[t].reloc();
            return true;
        }
    }
    return false;
}

// ---- branches: the opposite condition, another target, what the control flow graph is built from ----
extern const uint32_t branches[];
extern const unsigned numBranches;
static MIRInst makeBranch(uint32_t op, MIRBasicBlock* to);
static uint32_t gotoOpcode();
static void branch(uint32_t which) {
    Frame f = makeFrame();
    MIRBasicBlock* to = f.block;
    MIRBasicBlock* other = addBlock(f);
    const uint32_t op = branches[which];
    const bool conditional = op != gotoOpcode();
    MIRInst inst = makeBranch(op, to);
    const auto taken = [](const MIRInst& i) {
        Access acc{};
        evalInst(i, i.mOpcode, T::Int32, false, &acc);
        return acc.exists && acc.taken;
    };
    const auto target = [](const MIRInst& i) -> MIRRelocable* {
        const MIROperand& op = i.mOperands[targetOperandOf(i.mOpcode)];
        return op.isReloc() ? op.reloc() : nullptr;
    };
    const auto known = [](uint32_t op) {
        for(unsigned i = 0; i < numBranches; ++i)
            if(branches[i] == op)
                return true;
        return false;
    };
    const TargetInstInfo& info = targetInfo();
    const bool before = taken(inst);
    MIRBasicBlock* found = nullptr;
    double prob;
    vf_assert(info.matchBranch(inst, found, prob) && found == to, "branch/target-of-a-branch");
    found = nullptr;
    vf_assert(info.matchConditionalBranch(inst, found, prob) == conditional, "branch/conditional");
    if(conditional)
        vf_assert(found == to, "branch/target-of-a-branch");
    found = nullptr;
    vf_assert(info.matchUnconditionalBranch(inst, found) == !conditional, "branch/conditional");
    if(!conditional)
        vf_assert(found == to, "branch/target-of-a-branch");
    MIRInst redirected = inst;
    info.redirectBranch(redirected, other);
    vf_assert(redirected.mOpcode == op && target(redirected) == other, "branch/redirected");
    vf_assert(taken(redirected) == before, "branch/redirection-keeps-the-condition");
    if(conditional) {
        MIRInst inverse = inst;
        info.inverseBranch(inverse, other);
        inverse.mOpcode = static_cast<uint32_t>(vf_concretize(inverse.mOpcode));
        vf_assert(known(inverse.mOpcode) && inverse.mOpcode != gotoOpcode(), "branch/inverse-is-a-branch");
        vf_assert(target(inverse) == other, "branch/inverse-goes-to-the-new-target");
        vf_assert(taken(inverse) == !before, "branch/inverse-condition");
    }
    const MIRInst jump = info.emitGoto(other);
    vf_assert(jump.mOpcode == gotoOpcode() && target(jump) == other, "branch/goto");
    vf_cover("branch");
}
}  // namespace isel
