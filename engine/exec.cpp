// Deductive verifier for C++ (through LLVM IR): symbolic execution with contracts.
//
// Every function reached from a proof harness is interpreted over symbolic machine state; each
// vf_assert, memory access and host-undefined operation becomes an obligation  pc => goal  that
// is discharged by the simplifier, the ring normaliser or an SMT solver.  All feasible paths are
// explored; a run is complete only when none is left.  Calls to functions with a contract
// (vfc_<mangled name> in the linked contract modules) execute the contract instead of the body.
#include "expr.h"
#include "solver.h"
#include <algorithm>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/LegacyPassManager.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/LowerExpectIntrinsic.h>

using namespace llvm;

// variables that equal a constant are replaced in the other constraints and in the goal
static E substituteConstants(std::vector<E>& cs, E g) {
    std::unordered_map<E, E> memo;
    std::vector<bool> def(cs.size());
    for(size_t i = 0; i < cs.size(); ++i) {
        E c = cs[i];
        if(c->op != Op::Eq)
            continue;
        for(int j = 0; j < 2; ++j)
            if(c->k[j]->op == Op::Var && isC(c->k[1 - j]) && g_vars[(unsigned)c->k[j]->c].domSize == 0 && memo.emplace(c->k[j], c->k[1 - j]).second) {
                def[i] = true;
                break;
            }
    }
    if(memo.empty())
        return g;
    std::function<E(E)> go = [&](E e) -> E {
        if(isC(e) || e->op == Op::Tab)
            return e;
        auto it = memo.find(e);
        if(it != memo.end())
            return it->second;
        E r = e;
        E k[3] = { e->k[0], e->k[1], e->k[2] };
        bool diff = false;
        for(auto& x : k)
            if(x) {
                E y = go(x);
                diff |= y != x;
                x = y;
            }
        if(diff)
            r = rebuildExpr(e, k);
        memo.emplace(e, r);
        return r;
    };
    for(size_t i = 0; i < cs.size(); ++i)
        if(!def[i])
            cs[i] = normalize(go(cs[i]));
    cs.erase(std::remove_if(cs.begin(), cs.end(), [](E c) { return isTrue(c); }), cs.end());
    return normalize(go(g));
}
struct Unsupported {
    std::string msg;
};

struct Val {
    uint64_t c = 0;
    E e = nullptr;
};
static E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static Val fromE(E e) {
    if(e->op == Op::Const && e->w <= 64)
        return { (uint64_t)e->c, nullptr };
    return { 0, e };
}
static Val conc(uint64_t v) { return { v, nullptr }; }

// ---------------- memory ----------------
static E g_uninit;
struct Lazy {
    uint32_t off, len;
    uint64_t fn, arg;
};
struct Obj {
    uint64_t base = 0;
    uint32_t size = 0;
    bool ro = false, freed = false;
    uint8_t kind = 0;  // 0 heap 1 stack 2 global 3 function
    std::vector<uint8_t> conc;
    std::vector<E> sym;
    std::vector<Lazy> lazy;
    const Value* origin = nullptr;
};
constexpr unsigned ShiftBits = 24;
constexpr uint64_t HeapBase = 1ull << 32;    // index 256..
constexpr uint64_t StackBase = 1ull << 46;
struct Chunk {
    std::shared_ptr<Obj> o[64];
};
struct Mem {
    std::vector<std::shared_ptr<Chunk>> heap;
    uint64_t heapN = 0;
    std::vector<std::shared_ptr<Obj>> stack;
    uint64_t allocHeap(std::shared_ptr<Obj> o) {
        uint64_t idx = heapN++;
        if(idx / 64 >= heap.size())
            heap.push_back(std::make_shared<Chunk>());
        auto& ch = heap[idx / 64];
        if(ch.use_count() > 1)
            ch = std::make_shared<Chunk>(*ch);
        o->base = HeapBase + (idx << ShiftBits);
        ch->o[idx % 64] = std::move(o);
        return HeapBase + (idx << ShiftBits);
    }
    uint64_t allocStack(std::shared_ptr<Obj> o) {
        o->base = StackBase + ((uint64_t)stack.size() << ShiftBits);
        auto b = o->base;
        stack.push_back(std::move(o));
        return b;
    }
    const Obj* find(uint64_t a) const {
        if(a >= StackBase) {
            uint64_t i = (a - StackBase) >> ShiftBits;
            return i < stack.size() ? stack[i].get() : nullptr;
        }
        if(a < HeapBase)
            return nullptr;
        uint64_t i = (a - HeapBase) >> ShiftBits;
        return i < heapN ? heap[i / 64]->o[i % 64].get() : nullptr;
    }
    Obj* findW(uint64_t a) {
        std::shared_ptr<Obj>* p;
        if(a >= StackBase) {
            uint64_t i = (a - StackBase) >> ShiftBits;
            if(i >= stack.size())
                return nullptr;
            p = &stack[i];
        } else {
            if(a < HeapBase)
                return nullptr;
            uint64_t i = (a - HeapBase) >> ShiftBits;
            if(i >= heapN)
                return nullptr;
            auto& ch = heap[i / 64];
            if(ch.use_count() > 1)
                ch = std::make_shared<Chunk>(*ch);
            p = &ch->o[i % 64];
        }
        if(!*p)
            return nullptr;
        if(p->use_count() > 1)
            *p = std::make_shared<Obj>(**p);
        return p->get();
    }
};

// ---------------- decoded code ----------------
struct Opnd {
    int reg = -1;
    std::vector<Val> c;
};
struct DInst {
    const Instruction* I = nullptr;
    unsigned opc = 0;
    int dst = -1;
    unsigned w = 0;
    std::vector<Opnd> ops;
    // gep: constant offset + (operand index, scale)
    int64_t off = 0;
    std::vector<std::pair<unsigned, int64_t>> gep;
    unsigned slot = 0;
    const Function* callee = nullptr;
};
struct FInfo {
    const Function* F;
    unsigned nregs = 0;
    DenseMap<const Value*, int> reg;
    std::vector<DInst> code;
    DenseMap<const BasicBlock*, unsigned> bb;
    std::vector<int> argReg;
    // a long chain of alternatives (see Exec::arrive)
    bool merge = false;
    bool isMatcher = false;
    DenseMap<const BasicBlock*, std::vector<int>> liveIn;  // registers live after the PHIs
};

struct SymRec {
    std::string name;
    E e;
};
struct State;
// copied only when written to after a fork
template <typename T>
class Cow {
    std::shared_ptr<T> p = std::make_shared<T>();

public:
    const T& r() const { return *p; }
    T& w() {
        if(p.use_count() > 1)
            p = std::make_shared<T>(*p);
        return *p;
    }
};
class Regs {
    Cow<std::vector<Val>> v;

public:
    void resize(size_t n) { v.w().resize(n); }
    Val& operator[](size_t i) { return v.w()[i]; }
    const Val& operator[](size_t i) const { return v.r()[i]; }
};
struct Frame {
    FInfo* f = nullptr;
    unsigned pc = 0;
    Regs regs;
    unsigned stackMark = 0;
    bool reexec = false;
    const Function* asContractOf = nullptr;
    uint64_t serial = 0;                   // of a frame whose alternatives are separated
    std::shared_ptr<State> skipped;        // matcher call: the state in which it was taken to fail
};
struct AltLog {
    uint64_t id;
    bool skip;
    uint64_t heapN, allocs;
    unsigned depth;
    unsigned dirty;
    bool operator==(const AltLog& o) const { return id == o.id && skip == o.skip; }
};
struct State {
    std::vector<AltLog> alts;     // alternatives skipped or explored in the live frames
    std::vector<unsigned> mergeFrames;
    uint64_t allocs = 0;          // heap objects created by the verified code
    unsigned handlerDepth = 0;    // lazy initialisers running
    std::vector<uint64_t> dirty;  // objects written to by the verified code
    std::vector<Frame> st;
    Mem mem;
    std::vector<E> pc;
    std::map<unsigned, Dom> doms;
    std::shared_ptr<Model> model;
    std::shared_ptr<State> pend;  // before the matcher call that is being run, until something is decided in it
    Cow<std::vector<SymRec>> syms;
    Cow<std::map<std::string, int>> names;
    std::set<std::string> disabledContracts;
    uint64_t steps = 0;
    unsigned forks = 0;
    bool dead = false;
    uint64_t restrictLo = 0, restrictHi = 0;  // vf_restrict
};

struct Failure {
    std::string name, msg, where;
    std::string replay;  // file
    bool solverSat = true;
};
struct Options {
    std::string outDir = ".";
    unsigned feasTimeout = 1000;
    unsigned assertTimeout = 4000;
    unsigned portfolioSec = 120;
    unsigned absPortfolioSec = 20;
    unsigned intTimeout = 3000;
    double jobWall = 700;
    uint64_t maxSteps = 50000000;
    unsigned jobs = 8;
    bool verbose = false;
    bool checkShift = true;
    unsigned maxFail = 6;
    std::vector<std::string> merge;    // functions made of a long chain of alternatives
    std::vector<std::string> matcher;  // what decides an alternative: a call from such a function
};
static Options opt;

struct ObStat {
    uint64_t trivial = 0, ring = 0, z3 = 0;
    std::map<std::string, uint64_t> portfolio;
    uint64_t failed = 0, unknown = 0;
};

class Exec {
public:
    Module& M;
    const DataLayout& DL;
    DenseMap<const Function*, FInfo*> finfo;
    DenseMap<const GlobalValue*, uint64_t> gaddr;
    DenseMap<uint64_t, const Function*> fnAt;
    DenseMap<uint64_t, const GlobalVariable*> gvAt;
    State base;
    std::vector<std::unique_ptr<State>> work;
    State* cur = nullptr;
    // results
    std::map<std::string, ObStat> obs;
    std::map<std::string, uint64_t> covers;
    std::vector<Failure> failures;
    std::set<std::string> failedNames;
    std::vector<std::string> errors;
    uint64_t paths = 0, killed = 0, totalSteps = 0, forks = 0;
    std::set<const Function*> executed, contracted;
    std::string jobName;
    std::string resFile;
    int failSeq = 0;
    bool incomplete = false;
    std::unordered_map<std::string, E> symCache;

    explicit Exec(Module& m) : M(m), DL(m.getDataLayout()) { g_uninit = mkVar("!uninit", 8); }

    // ---------- types ----------
    unsigned slots(Type* T) {
        if(auto* S = dyn_cast<StructType>(T)) {
            unsigned n = 0;
            for(auto* E_ : S->elements())
                n += slots(E_);
            return n;
        }
        if(auto* A = dyn_cast<ArrayType>(T))
            return A->getNumElements() * slots(A->getElementType());
        if(auto* V = dyn_cast<FixedVectorType>(T))
            return V->getNumElements();
        if(T->isVoidTy())
            return 0;
        return 1;
    }
    unsigned bitw(Type* T) {
        if(T->isPointerTy())
            return 64;
        if(auto* I = dyn_cast<IntegerType>(T))
            return I->getBitWidth();
        if(T->isFloatTy())
            return 32;
        if(T->isDoubleTy())
            return 64;
        if(T->isX86_FP80Ty())
            return 80;
        throw Unsupported{ "type width" };
    }
    void leaves(Type* T, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
        if(auto* S = dyn_cast<StructType>(T)) {
            auto* L = DL.getStructLayout(S);
            for(unsigned i = 0; i < S->getNumElements(); ++i)
                leaves(S->getElementType(i), off + L->getElementOffset(i), out);
        } else if(auto* A = dyn_cast<ArrayType>(T)) {
            uint64_t sz = DL.getTypeAllocSize(A->getElementType());
            for(uint64_t i = 0; i < A->getNumElements(); ++i)
                leaves(A->getElementType(), off + i * sz, out);
        } else if(auto* V = dyn_cast<FixedVectorType>(T)) {
            uint64_t sz = DL.getTypeAllocSize(V->getElementType());
            for(uint64_t i = 0; i < V->getNumElements(); ++i)
                leaves(V->getElementType(), off + i * sz, out);
        } else
            out.push_back({ T, off });
    }
    unsigned slotIndex(Type* T, ArrayRef<unsigned> idx) {
        unsigned s = 0;
        for(unsigned i : idx) {
            if(auto* S = dyn_cast<StructType>(T)) {
                for(unsigned j = 0; j < i; ++j)
                    s += slots(S->getElementType(j));
                T = S->getElementType(i);
            } else {
                auto* A = cast<ArrayType>(T);
                s += i * slots(A->getElementType());
                T = A->getElementType();
            }
        }
        return s;
    }

    // ---------- constants ----------
    uint64_t addrOf(const GlobalValue* G) {
        if(G->hasExternalWeakLinkage() && G->isDeclaration())
            return 0;
        if(auto* A = dyn_cast<GlobalAlias>(G))
            return addrOf(cast<GlobalValue>(A->getAliasee()->stripPointerCasts()));
        auto it = gaddr.find(G);
        if(it != gaddr.end())
            return it->second;
        throw Unsupported{ "global without address " + G->getName().str() };
    }
    void constVals(const Constant* C, std::vector<Val>& out) {
        Type* T = C->getType();
        if(auto* CI = dyn_cast<ConstantInt>(C)) {
            if(CI->getBitWidth() > 64) {
                u128 v = CI->getValue().extractBitsAsZExtValue(64, 0) | (u128(CI->getValue().lshr(64).getZExtValue()) << 64);
                out.push_back(fromE(mkConst(v, CI->getBitWidth())));
            } else
                out.push_back(conc(CI->getZExtValue()));
            return;
        }
        if(auto* CF = dyn_cast<ConstantFP>(C)) {
            if(T->isX86_FP80Ty()) {
                out.push_back(conc(0));
                return;
            }
            out.push_back(conc(CF->getValueAPF().bitcastToAPInt().getZExtValue()));
            return;
        }
        if(isa<ConstantPointerNull>(C)) {
            out.push_back(conc(0));
            return;
        }
        if(isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
            for(unsigned i = 0, n = slots(T); i < n; ++i)
                out.push_back(conc(0));
            return;
        }
        if(auto* A = dyn_cast<ConstantAggregate>(C)) {
            for(auto& op : A->operands())
                constVals(cast<Constant>(op.get()), out);
            return;
        }
        if(auto* D = dyn_cast<ConstantDataSequential>(C)) {
            for(unsigned i = 0; i < D->getNumElements(); ++i)
                constVals(D->getElementAsConstant(i), out);
            return;
        }
        if(auto* G = dyn_cast<GlobalValue>(C)) {
            out.push_back(conc(addrOf(G)));
            return;
        }
        if(auto* CE = dyn_cast<ConstantExpr>(C)) {
            auto sub = [&](unsigned i) {
                std::vector<Val> v;
                constVals(CE->getOperand(i), v);
                return v[0].c;
            };
            switch(CE->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    if(!cast<GEPOperator>(CE)->accumulateConstantOffset(DL, off))
                        throw Unsupported{ "const gep" };
                    out.push_back(conc(sub(0) + off.getSExtValue()));
                    return;
                }
                case Instruction::BitCast:
                case Instruction::PtrToInt:
                case Instruction::IntToPtr:
                case Instruction::AddrSpaceCast: {
                    uint64_t v = sub(0);
                    unsigned w = bitw(T);
                    if(w < 64)
                        v &= maskOf(w);
                    out.push_back(conc(v));
                    return;
                }
                case Instruction::Add: out.push_back(conc((sub(0) + sub(1)) & maskOf(bitw(T)))); return;
                case Instruction::Sub: out.push_back(conc((sub(0) - sub(1)) & maskOf(bitw(T)))); return;
                case Instruction::Trunc: out.push_back(conc(sub(0) & maskOf(bitw(T)))); return;
                case Instruction::ICmp: {
                    auto p = (CmpInst::Predicate)CE->getPredicate();
                    bool r = p == CmpInst::ICMP_EQ ? sub(0) == sub(1) : p == CmpInst::ICMP_NE ? sub(0) != sub(1) : throw Unsupported{ "const icmp" };
                    out.push_back(conc(r));
                    return;
                }
                default: throw Unsupported{ "constexpr " + std::string(CE->getOpcodeName()) };
            }
        }
        throw Unsupported{ "constant" };
    }
    void initGlobals() {
        // index 0 of the heap stays unused so that null + small offsets never resolve
        for(auto& F : M) {
            auto o = std::make_shared<Obj>();
            o->kind = 3;
            o->size = 1;
            o->ro = true;
            o->conc.resize(1);
            o->origin = &F;
            uint64_t a = base.mem.allocHeap(o);
            gaddr[&F] = a;
            fnAt[a] = &F;
        }
        for(auto& G : M.globals()) {
            auto o = std::make_shared<Obj>();
            o->kind = 2;
            o->size = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()) : 64;
            if(!G.hasInitializer())
                o->size = std::max<uint32_t>(o->size, 64);
            o->ro = G.isConstant();
            o->conc.resize(o->size);
            o->origin = &G;
            uint64_t a = base.mem.allocHeap(o);
            gaddr[&G] = a;
            gvAt[a] = &G;
        }
        for(auto& G : M.globals()) {
            if(!G.hasInitializer())
                continue;
            Obj* o = base.mem.findW(gaddr[&G]);
            if(isa<ConstantAggregateZero>(G.getInitializer()))
                continue;
            try {
                std::vector<Val> vs;
                constVals(G.getInitializer(), vs);
                std::vector<std::pair<Type*, uint64_t>> ls;
                leaves(G.getValueType(), 0, ls);
                for(size_t i = 0; i < ls.size() && i < vs.size(); ++i) {
                    uint64_t sz = DL.getTypeStoreSize(ls[i].first);
                    if(sz <= 8)
                        memcpy(&o->conc[ls[i].second], &vs[i].c, sz);
                }
            } catch(Unsupported& u) {
                // leave zero; reported if such a global matters
                if(opt.verbose)
                    errs() << "global init " << G.getName() << ": " << u.msg << "\n";
            }
        }
    }

    // ---------- decoding ----------
    FInfo* info(const Function* F) {
        auto it = finfo.find(F);
        if(it != finfo.end())
            return it->second;
        auto* fi = new FInfo;
        fi->F = F;
        finfo[F] = fi;
        for(auto& A : F->args()) {
            fi->reg[&A] = fi->nregs;
            fi->argReg.push_back(fi->nregs);
            fi->nregs += slots(A.getType());
        }
        for(auto& BB : *F)
            for(auto& I : BB)
                if(!I.getType()->isVoidTy() && !I.getType()->isTokenTy()) {
                    fi->reg[&I] = fi->nregs;
                    fi->nregs += slots(I.getType());
                }
        for(auto& BB : *F) {
            fi->bb[&BB] = fi->code.size();
            for(auto& I : BB) {
                DInst d;
                d.I = &I;
                d.opc = I.getOpcode();
                if(fi->reg.count(&I))
                    d.dst = fi->reg[&I];
                Type* T = I.getType();
                if(slots(T) == 1 && !T->isAggregateType() && !T->isVectorTy() && T->isSized())
                    d.w = bitw(T);
                auto mkOp = [&](const Value* V) {
                    Opnd o;
                    if(auto* C = dyn_cast<Constant>(V)) {
                        try {
                            constVals(C, o.c);
                        } catch(Unsupported&) { o.c.clear(); }
                    } else if(fi->reg.count(V))
                        o.reg = fi->reg[V];
                    return o;
                };
                if(auto* PN = dyn_cast<PHINode>(&I)) {
                    for(auto& op : PN->incoming_values())
                        d.ops.push_back(mkOp(op.get()));
                } else if(auto* G = dyn_cast<GetElementPtrInst>(&I)) {
                    d.ops.push_back(mkOp(G->getPointerOperand()));
                    for(auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                        const Value* idx = gi.getOperand();
                        if(auto* S = gi.getStructTypeOrNull()) {
                            d.off += DL.getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                        } else {
                            int64_t sz = DL.getTypeAllocSize(gi.getIndexedType());
                            if(auto* CI = dyn_cast<ConstantInt>(idx))
                                d.off += CI->getSExtValue() * sz;
                            else {
                                d.ops.push_back(mkOp(idx));
                                d.gep.push_back({ bitw(idx->getType()), sz });
                            }
                        }
                    }
                } else if(auto* CB = dyn_cast<CallBase>(&I)) {
                    for(auto& A : CB->args())
                        d.ops.push_back(A->getType()->isMetadataTy() ? Opnd{} : mkOp(A.get()));
                    d.callee = dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
                    if(auto* GA = dyn_cast<GlobalAlias>(CB->getCalledOperand()))
                        d.callee = dyn_cast<Function>(GA->getAliaseeObject());
                    if(!d.callee)
                        d.ops.push_back(mkOp(CB->getCalledOperand()));
                } else {
                    for(auto& op : I.operands())
                        if(!isa<BasicBlock>(op.get()))
                            d.ops.push_back(mkOp(op.get()));
                    if(auto* EV = dyn_cast<ExtractValueInst>(&I))
                        d.slot = slotIndex(EV->getAggregateOperand()->getType(), EV->getIndices());
                    if(auto* IV = dyn_cast<InsertValueInst>(&I))
                        d.slot = slotIndex(IV->getType(), IV->getIndices());
                }
                fi->code.push_back(std::move(d));
            }
        }
        if(!opt.merge.empty()) {
            std::string dn = demangle(F->getName().str());
            for(auto& m : opt.merge)
                if(dn.compare(0, m.size(), m) == 0 && !fi->merge)
                    prepareMerge(fi);
            for(auto& m : opt.matcher)
                if(dn.find(m) != std::string::npos && F->getReturnType()->isIntegerTy(1))
                    fi->isMatcher = true;
        }
        return fi;
    }

    // ---------- path condition ----------
    const Dom domOf(State& s, unsigned v) {
        auto it = s.doms.find(v);
        if(it != s.doms.end())
            return it->second;
        Dom d;
        for(int i = 0; i < g_vars[v].domSize; ++i)
            d.set(i);
        return d;
    }
    E domConstraint(State& s, unsigned v) {
        Dom d = domOf(s, v);
        std::vector<uint64_t> t(g_vars[v].domSize);
        for(size_t i = 0; i < t.size(); ++i)
            t[i] = d.test(i);
        E r = mkTab(v, t, 1);
        if(isTrue(r)) {
            // full domain: still bound the index variable
            return nullptr;
        }
        return r;
    }
    // constraints relevant for the variables of e
    std::vector<E> slice(State& s, E e) {
        std::vector<E> r;
        std::set<unsigned> vs(varsOf(e).begin(), varsOf(e).end());
        std::vector<bool> used(s.pc.size(), false);
        bool ch = true;
        while(ch) {
            ch = false;
            for(size_t i = 0; i < s.pc.size(); ++i) {
                if(used[i])
                    continue;
                auto& pv = varsOf(s.pc[i]);
                bool hit = false;
                for(unsigned v : pv)
                    if(vs.count(v)) {
                        hit = true;
                        break;
                    }
                if(hit) {
                    used[i] = true;
                    ch = true;
                    vs.insert(pv.begin(), pv.end());
                    r.push_back(s.pc[i]);
                }
            }
        }
        for(unsigned v : vs)
            if(g_vars[v].domSize)
                if(E d = domConstraint(s, v))
                    r.push_back(d);
        return r;
    }
    bool modelSat(State& s, E c) {
        if(!s.model)
            return false;
        Evaluator ev(*s.model);
        bool r = ev.eval(c) != 0;
        return ev.ok && r;
    }
    bool modelValidDoms(State& s, const Model& m) {
        for(auto& [v, d] : s.doms) {
            auto f = m.v.find(v);
            size_t i = f == m.v.end() ? 0 : (size_t)f->second;
            if(!d.test(i))
                return false;
        }
        return true;
    }
    // single domain variable condition
    bool domCond(E c, unsigned& var) {
        if(c->op == Op::Tab) {
            var = (unsigned)c->c;
            return true;
        }
        auto& v = varsOf(c);
        if(v.size() == 1 && g_vars[v[0]].domSize) {
            var = v[0];
            return true;
        }
        return false;
    }
    bool evalDom(E c, unsigned var, int kind) {
        if(c->op == Op::Tab)
            return (*c->tab)[kind];
        Model m;
        m.v[var] = kind;
        Evaluator ev(m);
        return ev.eval(c) != 0;
    }
    void addConstraint(State& s, E c) {
        if(isTrue(c))
            return;
        if(c->op == Op::And && c->w == 1) {
            addConstraint(s, c->k[0]);
            addConstraint(s, c->k[1]);
            return;
        }
        unsigned var;
        if(domCond(c, var)) {
            Dom d = domOf(s, var);
            for(int i = 0; i < g_vars[var].domSize; ++i)
                if(d.test(i) && !evalDom(c, var, i))
                    d.reset(i);
            s.doms[var] = d;
            if(s.model) {
                size_t i = s.model->v.count(var) ? (size_t)s.model->v[var] : 0;
                if(!d.test(i)) {
                    auto m = std::make_shared<Model>(*s.model);
                    for(int k = 0; k < g_vars[var].domSize; ++k)
                        if(d.test(k)) {
                            m->v[var] = k;
                            break;
                        }
                    bool good = true;
                    Evaluator ev(*m);
                    for(E p : s.pc)
                        if(!ev.eval(p))
                            good = false;
                    s.model = good ? m : nullptr;
                }
            }
            return;
        }
        s.pc.push_back(c);
    }
    // which outcomes are feasible; models receive witnesses
    void feasible(State& s, E c, bool& t, bool& f, std::shared_ptr<Model>& mt, std::shared_ptr<Model>& mf) {
        if(isC(c)) {
            t = c->c;
            f = !t;
            return;
        }
        unsigned var;
        if(domCond(c, var)) {
            Dom d = domOf(s, var);
            t = f = false;
            bool inPc = false;
            for(E p : s.pc) {
                auto& pv = varsOf(p);
                if(std::binary_search(pv.begin(), pv.end(), var)) {
                    inPc = true;
                    break;
                }
            }
            for(int i = 0; i < g_vars[var].domSize; ++i)
                if(d.test(i))
                    (evalDom(c, var, i) ? t : f) = true;
            if(!inPc || !(t && f))
                return;
            t = f = false;
        }
        E nc = mkNot(c);
        for(E p : s.pc) {
            if(p == c) {
                t = true;
                f = false;
                return;
            }
            if(p == nc) {
                t = false;
                f = true;
                return;
            }
        }
        auto q = slice(s, c);
        auto query = [&](E side, std::shared_ptr<Model>& mo) {
            auto cs = q;
            cs.push_back(side);
            auto m = s.model ? std::make_shared<Model>(*s.model) : std::make_shared<Model>();
            std::string by;
            Sat r = check(cs, m.get(), opt.feasTimeout, 0, by);
            if(r == Sat::Sat) {
                if(s.model)
                    mo = m;
                else
                    mo = nullptr;
                return true;
            }
            mo = nullptr;
            return r != Sat::Unsat;
        };
        if(s.model) {
            Evaluator ev(*s.model);
            bool r = ev.eval(c) != 0;
            if(ev.ok) {
                ++g_stats.modelHits;
                if(r) {
                    t = true;
                    mt = s.model;
                    f = query(nc, mf);
                } else {
                    f = true;
                    mf = s.model;
                    t = query(c, mt);
                }
                return;
            }
        }
        t = query(c, mt);
        f = t ? query(nc, mf) : true;
    }
    // Decide a condition on the current path, forking when both outcomes are feasible.
    bool decide(E c) {
        if(isC(c))
            return c->c;
        State& s = *cur;
        bool t, f;
        std::shared_ptr<Model> mt, mf;
        feasible(s, c, t, f, mt, mf);
        if(t && f) {
            if(s.pend)
                separate();
            auto o = std::make_unique<State>(s);
            ++forks;
            ++o->forks;
            ++s.forks;
            if(mf)
                o->model = mf;
            addConstraint(*o, mkNot(c));
            if(!mf)
                fixModel(*o);
            work.push_back(std::move(o));
            if(mt)
                s.model = mt;
            addConstraint(s, c);
            if(!mt)
                fixModel(s);
            return true;
        }
        if(!t && !f) {  // contradictory path (feasibility was unknown before)
            s.dead = true;
            throw s;
        }
        return t;
    }
    void fixModel(State& s) {
        // recompute a model lazily after domain splits
        if(s.model && modelValidDoms(s, *s.model)) {
            Evaluator ev(*s.model);
            bool good = true;
            for(E p : s.pc)
                if(!ev.eval(p)) {
                    good = false;
                    break;
                }
            if(good && ev.ok)
                return;
        }
        s.model = nullptr;
    }
    void ensureModel(State& s) {
        if(s.model)
            return;
        std::vector<E> cs = s.pc;
        for(auto& [v, d] : s.doms)
            if(E c = domConstraint(s, v))
                cs.push_back(c);
        auto m = std::make_shared<Model>();
        Sat r = solverCheck(cs, m.get(), opt.feasTimeout);
        if(r == Sat::Sat)
            s.model = m;
        else if(r == Sat::Unsat) {
            s.dead = true;
            throw s;
        }
    }
    Val simp(Val v, unsigned w) {
        // collapse tabs that are constant on the current domain
        if(v.e && v.e->op == Op::Tab) {
            Dom d = domOf(*cur, (unsigned)v.e->c);
            bool first = true;
            uint64_t x = 0;
            for(int i = 0; i < g_vars[(unsigned)v.e->c].domSize; ++i)
                if(d.test(i)) {
                    if(first) {
                        x = (*v.e->tab)[i];
                        first = false;
                    } else if((*v.e->tab)[i] != x)
                        return v;
                }
            return conc(x);
        }
        return v;
    }
    void assumeCond(E c) {
        if(isC(c)) {
            if(!c->c)
                kill();
            return;
        }
        if(cur->model) {  // the current witness satisfies it
            Evaluator ev(*cur->model);
            if(ev.eval(c) && ev.ok) {
                addConstraint(*cur, c);
                return;
            }
        }
        bool t, f;
        std::shared_ptr<Model> mt, mf;
        feasible(*cur, c, t, f, mt, mf);
        if(!t)
            kill();
        // kept even when entailed: it may be a lemma
        if(mt)
            cur->model = mt;
        addConstraint(*cur, c);
        if(!mt && f)
            fixModel(*cur);
    }
    // paths that access memory elsewhere are not followed
    void restrictAddr(const Val& addr) {
        if(!cur->restrictHi || !addr.e)
            return;
        Val v = simp(addr, 64);
        if(!v.e)
            return;
        assumeCond(mkBin(Op::Ule, mkConst(cur->restrictLo, 64), v.e));
        assumeCond(mkBin(Op::Ult, v.e, mkConst(cur->restrictHi, 64)));
    }
    uint64_t concretize(Val v, unsigned w) {
        v = simp(v, w);
        if(!v.e)
            return v.c;
        State& s = *cur;
        if(v.e->op == Op::Tab) {
            Dom d = domOf(s, (unsigned)v.e->c);
            for(int i = 0; i < g_vars[(unsigned)v.e->c].domSize; ++i)
                if(d.test(i)) {
                    uint64_t x = (*v.e->tab)[i];
                    if(decide(mkBin(Op::Eq, v.e, mkConst(x, v.e->w))))
                        return x;
                    // only reachable if infeasible
                }
        }
        // an ite with constant leaves or arbitrary expression: pick a model value
        for(int iter = 0; iter < 4096; ++iter) {
            ensureModel(s);
            uint64_t x;
            if(s.model) {
                Evaluator ev(*s.model);
                x = (uint64_t)ev.eval(v.e);
            } else
                throw Unsupported{ "concretize: no model" };
            if(decide(mkBin(Op::Eq, v.e, mkConst(x, v.e->w))))
                return x;
        }
        throw Unsupported{ "concretize" };
    }

    // ---------- obligations ----------
    std::string where() {
        if(!cur || cur->st.empty())
            return "";
        std::string r;
        int n = 0;
        for(int i = (int)cur->st.size() - 1; i >= 0 && n < 8; --i, ++n) {
            auto& fr = cur->st[i];
            r += (n ? " < " : "") + demangle(fr.f->F->getName().str());
            if(fr.pc < fr.f->code.size())
                if(auto loc = fr.f->code[fr.pc].I->getDebugLoc())
                    r += ":" + std::to_string(loc.getLine());
        }
        return r;
    }
    void recordFailure(const std::string& name, const std::string& msg, Model* m, bool sat) {
        obs[name].failed++;
        int& cnt = failCount[name];
        if(++cnt > (int)opt.maxFail)
            return;
        Failure fl;
        fl.name = name;
        fl.msg = msg;
        fl.where = where();
        fl.solverSat = sat;
        std::string file = resFile + ".fail" + std::to_string(failSeq++) + ".replay";
        std::ofstream o(file);
        o << "# job " << jobName << "\n# obligation " << name << "\n# " << msg << "\n# at " << fl.where << "\n";
        Model empty;
        Evaluator ev(m ? *m : empty);
        std::vector<std::pair<std::string, u128>> shown;
        for(auto& sr : cur->syms.r()) {
            u128 v = ev.eval(sr.e);
            if(sr.e->op == Op::Tab) {  // clamp to the current domain
                auto var = (unsigned)sr.e->c;
                Dom d = domOf(*cur, var);
                auto f = ev.m.v.find(var);
                size_t i = f == ev.m.v.end() ? 0 : (size_t)f->second;
                if(!d.test(i))
                    for(int k = 0; k < g_vars[var].domSize; ++k)
                        if(d.test(k)) {
                            v = (*sr.e->tab)[k];
                            break;
                        }
            }
            o << sr.name << " " << (uint64_t)v << "\n";
        }
        for(E p : cur->pc)
            o << "# pc " << toStr(p, 8) << "\n";
        fl.replay = file;
        failures.push_back(fl);
    }
    std::map<std::string, int> failCount;
    // replace products/quotients of two non-constants by one arbitrary value per term
    std::unordered_map<E, E> nlVar;
    E abstractNonlinear(E e, std::unordered_map<E, E>& memo) {
        if(e->op == Op::Const || e->op == Op::Var || e->op == Op::Tab)
            return e;
        auto it = memo.find(e);
        if(it != memo.end())
            return it->second;
        E r = e;
        bool nl = (e->op == Op::Mul && !isC(e->k[0]) && !isC(e->k[1]) && e->w >= 16) ||
            ((e->op == Op::UDiv || e->op == Op::SDiv || e->op == Op::URem || e->op == Op::SRem) && !isC(e->k[1]) && e->w >= 16);
        if(nl) {
            E& v = nlVar[e];
            if(!v)
                v = freshVar("nl", e->w);
            r = v;
        } else {
            E k[3] = { nullptr, nullptr, nullptr };
            bool ch = false;
            for(int i = 0; i < 3; ++i)
                if(e->k[i]) {
                    k[i] = abstractNonlinear(e->k[i], memo);
                    ch |= k[i] != e->k[i];
                }
            if(ch)
                r = rebuildExpr(e, k);
        }
        memo[e] = r;
        return r;
    }
    // satisfiability by increasing effort; Unsat also by abstraction
    Sat check(const std::vector<E>& cs, Model* m, unsigned timeout, unsigned portSec, std::string& by) {
        double t0 = nowSec();
        Sat r = check0(cs, m, timeout, portSec, by);
        if(getenv("DVC_SLOW") && nowSec() - t0 > 1) {
            std::cerr << "SLOW " << nowSec() - t0 << " " << (r == Sat::Sat ? "sat" : r == Sat::Unsat ? "unsat" : "unknown") << " " << by << " " << where() << "\n";
            for(E c : cs)
                std::cerr << "   " << toStr(c, 7) << "\n";
        }
        return r;
    }
    Sat check0(const std::vector<E>& cs, Model* m, unsigned timeout, unsigned portSec, std::string& by) {
        std::unordered_map<E, E> memo;
        std::vector<E> abs;
        for(E c : cs)
            abs.push_back(abstractNonlinear(c, memo));
        bool nl = abs != cs;
        if(nl) {
            Model dummy = *m;
            by = "z3-abstract";
            Sat ra = solverCheck(abs, &dummy, std::min(300u, timeout));
            if(ra == Sat::Unsat)
                return ra;
            if(ra == Sat::Sat) {
                Evaluator ev(dummy);
                bool all = true;
                for(E c : cs)
                    if(!ev.eval(c) || !ev.ok) {
                        all = false;
                        break;
                    }
                if(all) {
                    *m = dummy;
                    return Sat::Sat;
                }
            }
            if(ra == Sat::Unknown && intCheck(abs, portSec ? 1000 : 300) == Sat::Unsat)
                return by = "z3-int-abstract", Sat::Unsat;
            if(!portSec)  // feasibility only: an undecided side is kept
                return Sat::Unknown;
            if(ra == Sat::Unknown) {
                ra = portfolioCheck(abs, &dummy, portSec, by);
                if(ra == Sat::Unsat)
                    return ra;
            }
        }
        by = "z3";
        Sat r = solverCheck(cs, m, std::min(400u, timeout));
        if(r != Sat::Unknown)
            return r;
        by = "z3-int";
        if(intCheck(cs, std::max(1000u, timeout / 4)) == Sat::Unsat)
            return Sat::Unsat;
        by = "z3";
        return solverCheck(cs, m, timeout);
    }
    // the job is not going to be accepted any more: less effort for the rest
    unsigned undecidedCount = 0;
    void undecided() {
        if(++undecidedCount >= 2)
            opt.portfolioSec = std::min(opt.portfolioSec, 10U);
        if(undecidedCount >= 12)
            opt.jobWall = std::min(opt.jobWall, 1.0);
    }
    // returns true if proved
    bool prove(const std::string& name, E goal, const std::string& msg) {
        State& s = *cur;
        auto& ob = obs[name];
        if(isTrue(goal)) {
            ob.trivial++;
            return true;
        }
        E g = normalize(goal);
        if(isTrue(g)) {
            ob.ring++;
            return true;
        }
        if(failCount[name] > (int)opt.maxFail + 20) {  // already failing: do not burn time
            ob.failed++;
            return false;
        }
        unsigned var;
        if(domCond(g, var)) {
            bool all = true;
            Dom d = domOf(s, var);
            for(int i = 0; i < g_vars[var].domSize; ++i)
                if(d.test(i) && !evalDom(g, var, i))
                    all = false;
            if(all) {
                ob.trivial++;
                return true;
            }
        }
        auto cs = slice(s, g);
        for(auto& c : cs)
            c = normalize(c);
        g = substituteConstants(cs, g);
        if(isTrue(g)) {
            ob.ring++;
            return true;
        }
        for(E c : cs)
            if(c == g) {
                ob.trivial++;
                return true;
            }
        cs.push_back(mkNot(g));
        Model m;
        std::string by;
        Sat r = check(cs, &m, opt.assertTimeout, opt.absPortfolioSec, by);
        if(r == Sat::Unsat) {
            if(by == "z3")
                ob.z3++;
            else
                ob.portfolio[by]++;
            return true;
        }
        std::string which = "z3(api)";
        if(r == Sat::Unknown) {
            r = portfolioCheck(cs, &m, opt.portfolioSec, which);
            if(r == Sat::Unsat) {
                ob.portfolio[which]++;
                return true;
            }
        }
        if(r == Sat::Unknown) {
            ob.unknown++;
            errors.push_back("undecided obligation " + name + " at " + where());
            undecided();
            if(getenv("DVC_DUMP")) {
                std::ofstream o(resFile + ".unk" + std::to_string(failSeq++) + ".smt2");
                o << toSmt(cs) << "(check-sat)\n";
            }
            return false;
        }
        // complete the model over the whole path
        Model full;
        if(s.model)
            full = *s.model;
        for(auto& kv : m.v)
            full.v[kv.first] = kv.second;
        // verify; otherwise ask for a full model
        {
            Evaluator ev(full);
            bool good = modelValidDoms(s, full);
            for(E p : s.pc)
                if(!ev.eval(p))
                    good = false;
            if(!good || !ev.ok) {
                std::vector<E> all = s.pc;
                for(auto& [v, d] : s.doms)
                    if(E c = domConstraint(s, v))
                        all.push_back(c);
                all.push_back(mkNot(g));
                Model m2;
                Sat r2 = solverCheck(all, &m2, 20000);
                if(r2 == Sat::Unsat) {
                    ob.z3++;
                    return true;
                }
                if(r2 == Sat::Sat)
                    full = m2;
            }
        }
        recordFailure(name, msg, &full, true);
        return false;
    }
    [[noreturn]] void kill() {
        cur->dead = true;
        throw cur;  // caught in run loop
    }
    // obligation "this point is unreachable"
    [[noreturn]] void fail(const std::string& name, const std::string& msg) {
        ensureModel(*cur);
        if(!cur->model) {
            std::vector<E> cs = cur->pc;
            for(auto& [v, d] : cur->doms)
                if(E c = domConstraint(*cur, v))
                    cs.push_back(c);
            Model m;
            std::string which;
            Sat r = portfolioCheck(cs, &m, opt.portfolioSec, which);
            if(r == Sat::Unsat)
                kill();
            if(r == Sat::Sat)
                recordFailure(name, msg, &m, true);
            else {
                obs[name].unknown++;
                errors.push_back("undecided reachability " + name + ": " + msg + " at " + where());
                undecided();
            }
        } else
            recordFailure(name, msg, cur->model.get(), true);
        kill();
    }
    // kills path unless goal holds; continues under goal
    void require(const std::string& name, E goal, const std::string& msg) {
        if(prove(name, goal, msg))
            return;
        // continue on the good side if possible
        bool t, f;
        std::shared_ptr<Model> mt, mf;
        feasible(*cur, goal, t, f, mt, mf);
        if(!t)
            kill();
        if(mt)
            cur->model = mt;
        addConstraint(*cur, goal);
        if(!mt)
            fixModel(*cur);
    }

    // ---------- memory access ----------
    Obj* objFor(uint64_t a, uint64_t n, bool write) {
        Obj* o = write ? cur->mem.findW(a) : const_cast<Obj*>(cur->mem.find(a));
        if(!o) {
            std::ostringstream ss;
            ss << (write ? "store" : "load") << " of " << n << " bytes at invalid address 0x" << std::hex << a;
            fail("memory-safety", ss.str());
        }
        if(o->freed)
            fail("memory-safety", "use after free");
        uint64_t off = a - o->base;
        if(off + n > o->size) {
            std::ostringstream ss;
            ss << (write ? "store" : "load") << " of " << n << " bytes at offset " << off << " of object of size " << o->size;
            if(o->origin)
                ss << " (" << o->origin->getName().str() << ")";
            fail("memory-safety", ss.str());
        }
        if(write && o->ro)
            fail("memory-safety", "store to constant");
        if(write)
            noteWrite(o->base);
        if(!o->lazy.empty()) {
            for(size_t i = 0; i < o->lazy.size(); ++i) {
                auto L = o->lazy[i];
                if(off < L.off + L.len && L.off < off + n) {
                    Obj* w = cur->mem.findW(a);
                    w->lazy.erase(w->lazy.begin() + i);
                    pushHandler(L.fn, w->base + L.off, L.arg);
                    throw Reexec{};
                }
            }
        }
        return o;
    }
    struct Reexec {};
    void noteWrite(uint64_t b) {
        State& s = *cur;
        if(s.mergeFrames.empty() || s.handlerDepth)
            return;
        const unsigned mf = s.mergeFrames.back();
        if(b >= StackBase && s.st.size() > mf + 1 && ((b - StackBase) >> ShiftBits) >= s.st[mf + 1].stackMark)
            return;  // local of a callee
        if(!s.dirty.empty() && s.dirty.back() == b && (s.alts.empty() || s.alts.back().dirty < s.dirty.size()))
            return;
        s.dirty.push_back(b);
    }
    // A call that decides an alternative (a matcher called from a function with a long chain of
    // alternatives) is taken twice: once assuming nothing about its outcome other than that it
    // returned false (the state does not learn why), once into the callee, whose paths that
    // return false are then already covered. A state that learnt something from a match and falls
    // through to a point that the less informed state has visited in the same condition is
    // covered by it as well.
    uint64_t altSeq = 0, frameSeq = 0;
    uint64_t mergedStates = 0, generalised = 0;
    std::map<std::pair<uint64_t, const BasicBlock*>, std::vector<std::shared_ptr<State>>> visited;
    static bool sameObj(const Obj& a, const Obj& b) {
        return a.size == b.size && a.freed == b.freed && a.conc == b.conc && a.sym == b.sym && a.lazy.size() == b.lazy.size();
    }
    // every effect of s since `from` is equal in a, or on a local that a leaves undefined
    bool effectsCovered(const State& a, unsigned fromA, const State& s, unsigned fromS, uint64_t stackMark, uint64_t newFrom = ~0ull) {
        std::set<uint64_t> seen;
        auto one = [&](uint64_t b) {
            if(!seen.insert(b).second)
                return true;
            const Obj *oa = a.mem.find(b), *os = s.mem.find(b);
            if(oa && newFrom != ~0ull)
                for(uint32_t k = 0; k + 8 <= oa->size; k += 8) {
                    if(!oa->sym.empty() && oa->sym[k])
                        continue;
                    uint64_t v;
                    memcpy(&v, &oa->conc[k], 8);
                    if(v >= newFrom && v < StackBase)
                        return false;
                }
            if(oa == os)
                return true;
            if(!oa || !os || oa->size != os->size || oa->freed != os->freed)
                return false;
            bool local = b >= StackBase && ((b - StackBase) >> ShiftBits) >= stackMark;
            if(!local)
                return sameObj(*oa, *os);
            for(uint32_t k = 0; k < oa->size; ++k) {
                E ea = oa->sym.empty() ? nullptr : oa->sym[k], es = os->sym.empty() ? nullptr : os->sym[k];
                if(ea == g_uninit)
                    continue;
                if(ea != es || (!ea && oa->conc[k] != os->conc[k]))
                    return false;
            }
            return true;
        };
        for(size_t i = fromA; i < a.dirty.size(); ++i)
            if(!one(a.dirty[i]))
                return false;
        for(size_t i = fromS; i < s.dirty.size(); ++i)
            if(!one(s.dirty[i]))
                return false;
        return true;
    }
    bool coveredBy(const State& a, const State& s, const BasicBlock* to) {
        const Frame &fa = a.st.back(), &fr = s.st.back();
        // divergence: a skipped an alternative that s explored
        size_t k = 0;
        while(k < a.alts.size() && k < s.alts.size() && a.alts[k] == s.alts[k])
            ++k;
        if(k >= a.alts.size() || k >= s.alts.size() || a.alts[k].id != s.alts[k].id || !a.alts[k].skip || a.alts[k].depth != a.st.size())
            return false;
        if(a.allocs != a.alts[k].allocs || a.pc.size() > s.pc.size())
            return false;
        // what lazy initialisation created since is not referred to
        const uint64_t newFrom = HeapBase + (a.alts[k].heapN << ShiftBits);
        for(size_t i = a.pc.size(); i-- > 0;)
            if(a.pc[i] != s.pc[i])
                return false;
        for(auto& [v, d] : a.doms) {
            auto it = s.doms.find(v);
            if(it == s.doms.end() || (it->second & ~d).any())
                return false;
        }
        for(int r : fr.f->liveIn[to]) {
            const Val &x = fr.regs[r], &y = fa.regs[r];
            if(x.e != y.e || x.c != y.c)
                return false;
            if(!y.e && y.c >= newFrom && y.c < StackBase)
                return false;
        }
        return effectsCovered(a, a.alts[k].dirty, s, s.alts[k].dirty, fr.stackMark, newFrom);
    }
    void arrive(const BasicBlock* to) {
        Frame& fr = cur->st.back();
        if(!fr.serial || !fr.f->liveIn.count(to))
            return;
        auto& v = visited[{ fr.serial, to }];
        for(auto& a : v)
            if(coveredBy(*a, *cur, to)) {
                ++mergedStates;
                kill();
            }
        if(v.size() < 12)
            v.push_back(std::make_shared<State>(*cur));
    }
    // at a matcher call: run it; as soon as its outcome depends on a decision, start again from
    // before the call with a state that takes it to fail, and keep this one for later
    void enterMatcher(const Function* F, std::vector<std::vector<Val>>& args) {
        cur->pend = std::make_shared<State>(*cur);
        pushFrame(F, args);
        cur->st.back().skipped = cur->pend;
    }
    [[noreturn]] void separate() {
        auto o = std::make_unique<State>(*cur);
        auto sk = std::make_unique<State>(*o->pend);
        ++generalised;
        const unsigned depth = sk->st.size();
        const uint64_t id = ++altSeq;
        AltLog l{ id, true, sk->mem.heapN, sk->allocs, depth, (unsigned)sk->dirty.size() };
        sk->alts.push_back(l);
        l.skip = false;
        o->alts.push_back(l);
        Frame& fr = sk->st.back();
        const DInst& d = fr.f->code[fr.pc];
        if(d.dst >= 0)
            fr.regs[d.dst] = conc(0);
        advance(fr, d);
        o->pend = nullptr;
        o->st[depth].skipped = std::make_shared<State>(*sk);
        work.push_back(std::move(o));
        work.push_back(std::move(sk));
        kill();
    }
    // the matcher returns r
    void matcherReturned(Val r) {
        if(cur->pend) {
            if(r.e || r.c)
                separate();
            // nothing was decided: the caller goes on; what a failed match left in its locals is forgotten
            auto old = cur->pend;
            cur->pend = nullptr;
            const uint64_t mark = cur->st[cur->st.size() - 2].stackMark;
            for(size_t i = old->dirty.size(); i < cur->dirty.size(); ++i) {
                uint64_t b = cur->dirty[i];
                const Obj *oa = old->mem.find(b), *os = cur->mem.find(b);
                if(oa == os || !oa || !os || b < StackBase || ((b - StackBase) >> ShiftBits) < mark)
                    continue;
                Obj* w = cur->mem.findW(b);
                ensureSym(w);
                for(uint32_t k = 0; k < w->size; ++k)
                    if((oa->sym.empty() ? nullptr : oa->sym[k]) != w->sym[k] || (!w->sym[k] && oa->conc[k] != w->conc[k]))
                        w->sym[k] = g_uninit;
            }
            return;
        }
        E c = normalize(mkNot(mkBin(Op::Eq, toE(r, 1), mkConst(0, 1))));
        if(decide(c))
            return;
        const State& sk = *cur->st.back().skipped;
        const AltLog& l = sk.alts.back();
        if(!effectsCovered(sk, l.dirty, *cur, l.dirty, cur->st[cur->st.size() - 2].stackMark))
            forgetEffects(sk);
        kill();
    }
    // A failed match left something in locals that were in use before: one more state that takes
    // the match to fail, in which those locals are undefined.
    std::map<uint64_t, std::vector<std::map<uint64_t, std::set<uint32_t>>>> forgotten;
    void forgetEffects(const State& sk) {
        const AltLog& l = sk.alts.back();
        const uint64_t mark = cur->st[cur->st.size() - 2].stackMark;
        std::map<uint64_t, std::set<uint32_t>> bytes;
        for(size_t i = l.dirty; i < cur->dirty.size(); ++i) {
            uint64_t b = cur->dirty[i];
            const Obj *oa = sk.mem.find(b), *os = cur->mem.find(b);
            if(oa == os)
                continue;
            bool local = b >= StackBase && ((b - StackBase) >> ShiftBits) >= mark;
            if(!oa || !os || oa->size != os->size || oa->freed != os->freed || (!local && !sameObj(*oa, *os)))
                throw Unsupported{ "a failed match leaves effects behind" };
            if(!local)
                continue;
            for(uint32_t k = 0; k < oa->size; ++k) {
                E ea = oa->sym.empty() ? nullptr : oa->sym[k], es = os->sym.empty() ? nullptr : os->sym[k];
                if(ea != g_uninit && (ea != es || (!ea && oa->conc[k] != os->conc[k])))
                    bytes[b].insert(k);
            }
        }
        auto& done = forgotten[l.id];
        for(auto& d : done) {
            bool in = true;
            for(auto& [b, ks] : bytes)
                for(auto k : ks)
                    in &= d.count(b) && d[b].count(k);
            if(in)
                return;
        }
        done.push_back(bytes);
        auto v = std::make_unique<State>(sk);
        for(auto& [b, ks] : bytes) {
            Obj* o = v->mem.findW(b);
            ensureSym(o);
            for(auto k : ks)
                o->sym[k] = g_uninit;
            v->dirty.push_back(b);
        }
        work.push_back(std::move(v));
    }
    void prepareMerge(FInfo* fi) {
        Function* F = const_cast<Function*>(fi->F);
        fi->merge = true;
        // liveness of registers at block entries
        DenseMap<const BasicBlock*, std::set<const Value*>> live;
        bool ch = true;
        while(ch) {
            ch = false;
            for(auto& BB : *F) {
                std::set<const Value*> l;
                for(auto* S : successors(&BB)) {
                    l.insert(live[S].begin(), live[S].end());
                    for(auto& I : *S) {
                        auto* PN = dyn_cast<PHINode>(&I);
                        if(!PN)
                            break;
                        l.erase(PN);
                    }
                    for(auto& I : *S) {
                        auto* PN = dyn_cast<PHINode>(&I);
                        if(!PN)
                            break;
                        const Value* v = PN->getIncomingValueForBlock(&BB);
                        if(fi->reg.count(v))
                            l.insert(v);
                    }
                }
                for(auto it = BB.rbegin(); it != BB.rend(); ++it) {
                    l.erase(&*it);
                    if(isa<PHINode>(*it))
                        continue;
                    for(auto& op : it->operands())
                        if(fi->reg.count(op.get()))
                            l.insert(op.get());
                }
                if(l.size() != live[&BB].size()) {
                    live[&BB] = l;
                    ch = true;
                }
            }
        }
        for(auto& BB : *F) {
            if(pred_size(&BB) < 2)
                continue;
            auto& li = fi->liveIn[&BB];
            std::set<const Value*> l = live[&BB];
            for(auto& I : BB) {
                if(!isa<PHINode>(I))
                    break;
                l.insert(&I);
            }
            for(auto* v : l) {
                unsigned n = slots(v->getType());
                for(unsigned k = 0; k < n; ++k)
                    li.push_back(fi->reg[v] + (int)k);
            }
        }
    }
    static bool touchesLazy(const Obj* o, uint64_t off, uint64_t n) {
        for(auto& L : o->lazy)
            if(off < L.off + L.len && L.off < off + n)
                return true;
        return false;
    }
    void pushHandler(uint64_t fn, uint64_t region, uint64_t arg) {
        const Function* F = fnAt.lookup(fn);
        if(!F)
            throw Unsupported{ "lazy handler" };
        std::vector<std::vector<Val>> args{ { conc(region) }, { conc(arg) } };
        pushFrame(F, args);
        cur->st.back().reexec = true;
        ++cur->handlerDepth;
    }
    void ensureSym(Obj* o) {
        if(o->sym.empty())
            o->sym.assign(o->size, nullptr);
    }
    E byteAt(Obj*& o, uint64_t off) {
        if(!o->sym.empty() && o->sym[off]) {
            if(o->sym[off] == g_uninit) {
                if(!cur->mergeFrames.empty())
                    return freshVar("uninit", 8);  // any value, at every read
                Obj* w = cur->mem.findW(o->base);
                E v = freshVar("uninit", 8);
                w->sym[off] = v;
                o = w;
                return v;
            }
            E b = o->sym[off];
            return b->op == Op::Extract ? mkExtract(b->k[0], (unsigned)b->c, 8) : b;
        }
        return mkConst(o->conc[off], 8);
    }
    Val loadBytes(uint64_t a, unsigned n) {
        Obj* o = objFor(a, n, false);
        uint64_t off = a - o->base;
        if(o->sym.empty()) {
            if(n <= 8) {
                uint64_t v = 0;
                memcpy(&v, &o->conc[off], n);
                return conc(v);
            }
        } else {
            bool any = false;
            for(unsigned i = 0; i < n; ++i)
                if(o->sym[off + i])
                    any = true;
            if(!any && n <= 8) {
                uint64_t v = 0;
                memcpy(&v, &o->conc[off], n);
                return conc(v);
            }
        }
        if(n > 1 && o->sym[off] && o->sym[off]->op == Op::Extract) {  // bytes of one stored value
            E b = o->sym[off];
            unsigned k = 1;
            while(k < n && o->sym[off + k] && o->sym[off + k]->op == Op::Extract && o->sym[off + k]->k[0] == b->k[0] &&
                  o->sym[off + k]->c == b->c + 8 * k)
                ++k;
            if(k == n)
                return fromE(mkExtract(b->k[0], (unsigned)b->c, 8 * n));
        }
        E r = byteAt(o, off);
        for(unsigned i = 1; i < n; ++i)
            r = mkConcat(byteAt(o, off + i), r);
        return fromE(r);
    }
    void storeBytes(uint64_t a, unsigned n, Val v) {
        Obj* o = objFor(a, n, true);
        uint64_t off = a - o->base;
        if(!v.e) {
            uint64_t x = v.c;
            if(n <= 8)
                memcpy(&o->conc[off], &x, n);
            else {
                memset(&o->conc[off], 0, n);
                memcpy(&o->conc[off], &x, 8);
            }
            if(!o->sym.empty())
                for(unsigned i = 0; i < n; ++i)
                    o->sym[off + i] = nullptr;
            return;
        }
        ensureSym(o);
        E e = v.e;
        if(e->w < n * 8)
            e = mkZExt(e, n * 8);
        for(unsigned i = 0; i < n; ++i) {
            E b = mkExtract(e, i * 8, 8);
            if(isC(b)) {
                o->sym[off + i] = nullptr;
                o->conc[off + i] = (uint8_t)b->c;
            } else
                o->sym[off + i] = n > 1 && e->w > 8 ? mkRawExtract(e, i * 8, 8) : b;
        }
    }
    Val loadTyped(Val addr, Type* T) {
        unsigned w = bitw(T), n = (w + 7) / 8;
        if(T->isX86_FP80Ty())
            throw Unsupported{ "fp80" };
        addr = simp(addr, 64);
        if(addr.e && addr.e->op == Op::Tab) {
            // pointwise load over the domain
            unsigned var = (unsigned)addr.e->c;
            Dom d = domOf(*cur, var);
            std::vector<uint64_t> r(g_vars[var].domSize);
            std::vector<bool> have(r.size());
            bool ok = true;
            for(int i = 0; i < g_vars[var].domSize && ok; ++i)
                if(d.test(i)) {
                    uint64_t a = (*addr.e->tab)[i];
                    const Obj* o = cur->mem.find(a);
                    if(!o || o->freed || a - o->base + n > o->size || touchesLazy(o, a - o->base, n)) {
                        ok = false;
                        break;
                    }
                    if(!o->sym.empty())
                        for(unsigned k = 0; k < n; ++k)
                            if(o->sym[a - o->base + k])
                                ok = false;
                    if(ok) {
                        uint64_t x = 0;
                        memcpy(&x, &o->conc[a - o->base], n);
                        r[i] = x & (uint64_t)maskOf(w);
                        have[i] = true;
                    }
                }
            if(ok) {
                uint64_t def = 0;
                for(size_t i = 0; i < r.size(); ++i)
                    if(have[i]) {
                        def = r[i];
                        break;
                    }
                for(size_t i = 0; i < r.size(); ++i)
                    if(!have[i])
                        r[i] = def;
                return fromE(mkTab(var, r, w));
            }
        }
        if(addr.e && addr.e->op == Op::Ite && T->isIntegerTy()) {
            // *(c ? p : q) over plain memory: select the values
            int leaves = 0;
            std::function<bool(E)> ok = [&](E e) -> bool {
                if(e->op == Op::Ite)
                    return ok(e->k[1]) && ok(e->k[2]);
                if(!isC(e) || ++leaves > 8)
                    return false;
                const Obj* o = cur->mem.find((uint64_t)e->c);
                return o && !o->freed && (uint64_t)e->c - o->base + n <= o->size && !touchesLazy(o, (uint64_t)e->c - o->base, n);
            };
            if(ok(addr.e)) {
                std::function<E(E)> ld = [&](E e) -> E {
                    if(e->op == Op::Ite) {
                        E x = ld(e->k[1]), y = ld(e->k[2]);
                        return mkIte(e->k[0], x, y);
                    }
                    return toE(loadBytes((uint64_t)e->c, n), n * 8);
                };
                E r = ld(addr.e);
                return fromE(w < n * 8 ? mkExtract(r, 0, w) : r);
            }
        }
        restrictAddr(addr);
        uint64_t a = concretize(addr, 64);
        Val v = loadBytes(a, n);
        if(w < n * 8) {
            if(v.e)
                return fromE(mkExtract(v.e, 0, w));
            v.c &= (uint64_t)maskOf(w);
        }
        return v;
    }
    void storeTyped(Val addr, Type* T, Val v) {
        unsigned w = bitw(T), n = (w + 7) / 8;
        restrictAddr(addr);
        uint64_t a = concretize(addr, 64);
        storeBytes(a, n, v);
    }
    void copyMem(uint64_t d, uint64_t s, uint64_t n) {
        if(!n)
            return;
        Obj* so = objFor(s, n, false);
        uint64_t soff = s - so->base;
        std::vector<uint8_t> cb(so->conc.begin() + soff, so->conc.begin() + soff + n);
        std::vector<E> sb;
        if(!so->sym.empty())
            sb.assign(so->sym.begin() + soff, so->sym.begin() + soff + n);
        Obj* o = objFor(d, n, true);
        uint64_t off = d - o->base;
        memcpy(&o->conc[off], cb.data(), n);
        bool any = false;
        for(E e : sb)
            if(e)
                any = true;
        if(any || !o->sym.empty()) {
            ensureSym(o);
            for(uint64_t i = 0; i < n; ++i)
                o->sym[off + i] = sb.empty() ? nullptr : sb[i];
        }
    }
    uint64_t allocObj(uint64_t size, bool stack, bool zero, const Value* origin = nullptr) {
        if(size >= (1u << ShiftBits))
            throw Unsupported{ "object too large " + std::to_string(size) };
        auto o = std::make_shared<Obj>();
        o->size = size;
        o->kind = stack ? 1 : 0;
        o->conc.assign(size, 0);
        o->origin = origin;
        if(!zero)
            o->sym.assign(size, g_uninit);
        if(stack)
            return cur->mem.allocStack(std::move(o));
        if(!cur->handlerDepth)
            ++cur->allocs;
        return cur->mem.allocHeap(std::move(o));
    }
    E freshVar(const std::string& name, unsigned w) {
        int& n = cur->names.w()[name];
        std::string key = name + "#" + std::to_string(n++) + ":" + std::to_string(w);
        auto it = symCache.find(key);
        if(it != symCache.end())
            return it->second;
        E e = mkVar(key, w);
        symCache[key] = e;
        return e;
    }
    std::string cstr(uint64_t a) {
        std::string r;
        while(true) {
            Val v = loadBytes(a++, 1);
            char ch = (char)concretize(v, 8);
            if(!ch)
                break;
            r += ch;
            if(r.size() > 100000)
                break;
        }
        return r;
    }

    // ---------- frames ----------
    void pushFrame(const Function* F, std::vector<std::vector<Val>>& args) {
        if(F->isDeclaration())
            throw Unsupported{ "external function " + demangle(F->getName().str()) };
        FInfo* fi = info(F);
        if(cur->st.size() > 400)
            throw Unsupported{ "call depth" };
        Frame fr;
        fr.f = fi;
        fr.regs.resize(fi->nregs);
        fr.stackMark = cur->mem.stack.size();
        for(size_t i = 0; i < fi->argReg.size() && i < args.size(); ++i) {
            auto* A = F->getArg(i);
            if(A->hasByValAttr()) {
                uint64_t sz = DL.getTypeAllocSize(A->getParamByValType());
                uint64_t na = allocObj(sz, true, false);
                copyMem(na, concretize(args[i][0], 64), sz);
                fr.regs[fi->argReg[i]] = conc(na);
            } else
                for(size_t k = 0; k < args[i].size(); ++k)
                    fr.regs[fi->argReg[i] + k] = args[i][k];
        }
        fr.stackMark = fr.stackMark;
        executed.insert(F);
        cur->st.push_back(std::move(fr));
        if(fi->merge) {
            cur->st.back().serial = ++frameSeq;
            cur->mergeFrames.push_back(cur->st.size() - 1);
        }
    }
    const Val& opv(const Frame& fr, const Opnd& o, unsigned k = 0) {
        if(o.reg >= 0)
            return fr.regs[o.reg + k];
        if(k >= o.c.size())
            throw Unsupported{ "operand constant" };
        return o.c[k];
    }
    void setDst(Frame& fr, const DInst& d, Val v) { fr.regs[d.dst] = v; }
    void jump(Frame& fr, const BasicBlock* from, const BasicBlock* to) {
        unsigned p = fr.f->bb[to];
        // parallel phi
        std::vector<std::pair<int, Val>> upd;
        unsigned q = p;
        while(fr.f->code[q].opc == Instruction::PHI) {
            auto& d = fr.f->code[q];
            auto* PN = cast<PHINode>(d.I);
            int ix = PN->getBasicBlockIndex(from);
            unsigned n = slots(PN->getType());
            for(unsigned k = 0; k < n; ++k)
                upd.push_back({ d.dst + (int)k, opv(fr, d.ops[ix], k) });
            ++q;
        }
        for(auto& u : upd)
            fr.regs[u.first] = u.second;
        fr.pc = q;
    }

    // ---------- binary operations ----------
    Val binop(unsigned opc, Val a, Val b, unsigned w) {
        if(opc == Instruction::UDiv || opc == Instruction::SDiv || opc == Instruction::URem || opc == Instruction::SRem) {
            E d = toE(b, w);
            require("host-ub", mkNot(mkBin(Op::Eq, d, mkConst(0, w))), "division by zero in the compiler");
            if(opc == Instruction::SDiv || opc == Instruction::SRem) {
                E n = toE(a, w);
                E ov = mkAnd(mkBin(Op::Eq, n, mkConst(u128(1) << (w - 1), w)), mkBin(Op::Eq, d, mkConst(~u128(0), w)));
                require("host-ub", mkNot(ov), "signed division overflow in the compiler");
            }
        }
        if((opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr) && (b.e || b.c >= w)) {
            // an out-of-range shift yields an arbitrary value (it may be speculated)
            E inr = normalize(mkBin(Op::Ult, toE(b, w), mkConst(w, w)));
            if(!isTrue(inr)) {
                bool t = true, f = true;
                std::shared_ptr<Model> mt, mf;
                if(!isFalse(inr))
                    feasible(*cur, inr, t, f, mt, mf);
                if(f || isFalse(inr)) {
                    E sh = mkBin(opc == Instruction::Shl ? Op::Shl : opc == Instruction::LShr ? Op::LShr : Op::AShr, toE(a, w), toE(b, w));
                    return fromE(mkIte(inr, sh, freshVar("overshift", w)));
                }
            }
        }
        Op op;
        switch(opc) {
            case Instruction::Add: op = Op::Add; break;
            case Instruction::Sub: op = Op::Sub; break;
            case Instruction::Mul: op = Op::Mul; break;
            case Instruction::UDiv: op = Op::UDiv; break;
            case Instruction::SDiv: op = Op::SDiv; break;
            case Instruction::URem: op = Op::URem; break;
            case Instruction::SRem: op = Op::SRem; break;
            case Instruction::Shl: op = Op::Shl; break;
            case Instruction::LShr: op = Op::LShr; break;
            case Instruction::AShr: op = Op::AShr; break;
            case Instruction::And: op = Op::And; break;
            case Instruction::Or: op = Op::Or; break;
            case Instruction::Xor: op = Op::Xor; break;
            default: throw Unsupported{ "binop" };
        }
        if(!a.e && !b.e && w <= 64) {
            uint64_t m = (uint64_t)maskOf(w);
            switch(op) {
                case Op::Add: return conc((a.c + b.c) & m);
                case Op::Sub: return conc((a.c - b.c) & m);
                case Op::And: return conc(a.c & b.c);
                case Op::Or: return conc(a.c | b.c);
                case Op::Xor: return conc(a.c ^ b.c);
                default: break;
            }
        }
        return fromE(mkBin(op, toE(a, w), toE(b, w)));
    }
    Val icmp(CmpInst::Predicate p, Val a, Val b, unsigned w) {
        if(!a.e && !b.e) {
            int64_t sa = (int64_t)sextOf(a.c, w), sb = (int64_t)sextOf(b.c, w);
            switch(p) {
                case CmpInst::ICMP_EQ: return conc(a.c == b.c);
                case CmpInst::ICMP_NE: return conc(a.c != b.c);
                case CmpInst::ICMP_UGT: return conc(a.c > b.c);
                case CmpInst::ICMP_UGE: return conc(a.c >= b.c);
                case CmpInst::ICMP_ULT: return conc(a.c < b.c);
                case CmpInst::ICMP_ULE: return conc(a.c <= b.c);
                case CmpInst::ICMP_SGT: return conc(sa > sb);
                case CmpInst::ICMP_SGE: return conc(sa >= sb);
                case CmpInst::ICMP_SLT: return conc(sa < sb);
                case CmpInst::ICMP_SLE: return conc(sa <= sb);
                default: break;
            }
        }
        E x = toE(a, w), y = toE(b, w);
        switch(p) {
            case CmpInst::ICMP_EQ: return fromE(mkBin(Op::Eq, x, y));
            case CmpInst::ICMP_NE: return fromE(mkNot(mkBin(Op::Eq, x, y)));
            case CmpInst::ICMP_UGT: return fromE(mkBin(Op::Ult, y, x));
            case CmpInst::ICMP_UGE: return fromE(mkBin(Op::Ule, y, x));
            case CmpInst::ICMP_ULT: return fromE(mkBin(Op::Ult, x, y));
            case CmpInst::ICMP_ULE: return fromE(mkBin(Op::Ule, x, y));
            case CmpInst::ICMP_SGT: return fromE(mkBin(Op::Slt, y, x));
            case CmpInst::ICMP_SGE: return fromE(mkBin(Op::Sle, y, x));
            case CmpInst::ICMP_SLT: return fromE(mkBin(Op::Slt, x, y));
            case CmpInst::ICMP_SLE: return fromE(mkBin(Op::Sle, x, y));
            default: throw Unsupported{ "icmp" };
        }
    }
    Val fcmp(CmpInst::Predicate p, Val a, Val b, unsigned w) {
        E x = toE(a, w), y = toE(b, w);
        E un = mkOr(mkFp(Op::FIsNan, 1, x), mkFp(Op::FIsNan, 1, y));
        E r;
        switch(p) {
            case CmpInst::FCMP_FALSE: return conc(0);
            case CmpInst::FCMP_TRUE: return conc(1);
            case CmpInst::FCMP_ORD: return fromE(mkNot(un));
            case CmpInst::FCMP_UNO: return fromE(un);
            case CmpInst::FCMP_OEQ: return fromE(mkFp(Op::FEq, 1, x, y));
            case CmpInst::FCMP_UEQ: return fromE(mkOr(un, mkFp(Op::FEq, 1, x, y)));
            case CmpInst::FCMP_ONE: return fromE(mkAnd(mkNot(un), mkNot(mkFp(Op::FEq, 1, x, y))));
            case CmpInst::FCMP_UNE: return fromE(mkNot(mkFp(Op::FEq, 1, x, y)));
            case CmpInst::FCMP_OLT: return fromE(mkFp(Op::FLt, 1, x, y));
            case CmpInst::FCMP_OGT: return fromE(mkFp(Op::FLt, 1, y, x));
            case CmpInst::FCMP_OLE: return fromE(mkFp(Op::FLe, 1, x, y));
            case CmpInst::FCMP_OGE: return fromE(mkFp(Op::FLe, 1, y, x));
            case CmpInst::FCMP_ULT: return fromE(mkOr(un, mkFp(Op::FLt, 1, x, y)));
            case CmpInst::FCMP_UGT: return fromE(mkOr(un, mkFp(Op::FLt, 1, y, x)));
            case CmpInst::FCMP_ULE: return fromE(mkOr(un, mkFp(Op::FLe, 1, x, y)));
            case CmpInst::FCMP_UGE: return fromE(mkOr(un, mkFp(Op::FLe, 1, y, x)));
            default: throw Unsupported{ "fcmp" };
        }
        (void)r;
    }
    E popcount(E x) {
        unsigned w = x->w;
        E acc = mkConst(0, w);
        for(unsigned i = 0; i < w; ++i)
            acc = mkBin(Op::Add, acc, mkZExt(mkExtract(x, i, 1), w));
        return acc;
    }
    E ctlz(E x) {
        unsigned w = x->w;
        E r = mkConst(w, w);
        for(unsigned i = 0; i < w; ++i)  // highest bit decides last
            r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r);
        return r;
    }
    E cttz(E x) {
        unsigned w = x->w;
        E r = mkConst(w, w);
        for(int i = (int)w - 1; i >= 0; --i)
            r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r);
        return r;
    }

    // ---------- rtti ----------
    const GlobalVariable* tiOfVtable(uint64_t vptr, int64_t& top) {
        const Obj* o = cur->mem.find(vptr - 16);
        if(!o || o->kind != 2)
            return nullptr;
        uint64_t off = vptr - 16 - o->base;
        uint64_t ti;
        memcpy(&top, &o->conc[off], 8);
        memcpy(&ti, &o->conc[off + 8], 8);
        return gvAt.lookup(ti);
    }
    bool castTo(const GlobalVariable* ti, const GlobalVariable* dst, int64_t off, int64_t& res) {
        if(ti == dst) {
            res = off;
            return true;
        }
        if(!ti || !ti->hasInitializer())
            return false;
        auto* C = dyn_cast<ConstantStruct>(ti->getInitializer());
        if(!C)
            return false;
        auto gv = [&](unsigned i) { return dyn_cast<GlobalVariable>(C->getOperand(i)->stripPointerCasts()); };
        if(C->getNumOperands() == 3)
            return castTo(gv(2), dst, off, res);
        if(C->getNumOperands() > 4) {
            for(unsigned i = 4; i + 1 < C->getNumOperands(); i += 2) {
                int64_t of = cast<ConstantInt>(C->getOperand(i + 1))->getSExtValue();
                if(of & 1)
                    throw Unsupported{ "virtual base" };
                if(castTo(gv(i), dst, off + (of >> 8), res))
                    return true;
            }
        }
        return false;
    }
    uint64_t dynCast(uint64_t p, uint64_t vptr, const GlobalVariable* dst) {
        int64_t top = 0, r = 0;
        auto* ti = tiOfVtable(vptr, top);
        if(!ti)
            throw Unsupported{ "dynamic_cast: no type info" };
        if(castTo(ti, dst, 0, r))
            return p + top + r;
        return 0;
    }

    // ---------- calls ----------
    // returns true if handled (result in out)
    bool external(const Function* F, std::vector<std::vector<Val>>& a, Val& out) {
        StringRef n = F->getName();
        auto A = [&](unsigned i) -> Val { return a[i][0]; };
        auto C = [&](unsigned i) { return concretize(a[i][0], bitw(F->getArg(i)->getType())); };
        if(n.starts_with("vf_")) {
            if(n == "vf_engine") {
                out = conc(1);
                return true;
            }
            if(n == "vf_sym") {
                std::string name = cstr(C(0));
                unsigned w = C(1);
                E e = freshVar(name, w);
                int k = cur->names.w()[name] - 1;
                cur->syms.w().push_back({ name + "#" + std::to_string(k), e });
                out = fromE(mkZExt(e, 64));
                return true;
            }
            if(n == "vf_fresh") {  // unnamed arbitrary value, not part of the replay
                out = fromE(mkZExt(freshVar("fresh", C(0)), 64));
                return true;
            }
            if(n == "vf_dom") {
                std::string name = cstr(C(0));
                unsigned cnt = C(1);
                int& k = cur->names.w()["dom:" + name];
                std::string key = "dom:" + name + "#" + std::to_string(k) + ":" + std::to_string(cnt);
                auto it = symCache.find(key);
                E e;
                if(it != symCache.end())
                    e = it->second;
                else {
                    unsigned v = newDomVar(name, cnt);
                    std::vector<uint64_t> t(cnt);
                    for(unsigned i = 0; i < cnt; ++i)
                        t[i] = i;
                    e = mkTab(v, t, 64);
                    symCache[key] = e;
                }
                cur->syms.w().push_back({ name + "#" + std::to_string(k), e });
                ++k;
                out = fromE(e);
                return true;
            }
            if(n == "vf_concretize") {
                out = conc(C(0));
                return true;
            }
            if(n == "vf_is_concrete") {
                out = conc(simp(A(0), 64).e == nullptr);
                return true;
            }
            if(n == "vf_assume") {
                Val v = A(0);
                E c = toE(v, bitw(F->getArg(0)->getType()));
                if(c->w != 1)
                    c = mkExtract(c, 0, 1);
                assumeCond(c);
                return true;
            }
            if(n == "vf_restrict") {
                cur->restrictLo = C(0);
                cur->restrictHi = C(1);
                return true;
            }
            if(n == "vf_lazy_alloc") {
                out = conc(allocObj(C(0), false, false));
                return true;
            }
            if(n == "vf_assert") {
                std::string name = cstr(C(1));
                E c = toE(A(0), bitw(F->getArg(0)->getType()));
                if(c->w != 1)
                    c = mkExtract(c, 0, 1);
                require(name, c, "postcondition does not hold");
                return true;
            }
            if(n == "vf_known") {  // is the condition entailed on this path?
                E c = toE(A(0), bitw(F->getArg(0)->getType()));
                if(c->w != 1)
                    c = mkExtract(c, 0, 1);
                if(isC(c)) {
                    out = conc(c->c);
                    return true;
                }
                if(cur->model) {
                    Evaluator ev(*cur->model);
                    if(!ev.eval(c) && ev.ok) {
                        out = conc(0);
                        return true;
                    }
                }
                bool t, f;
                std::shared_ptr<Model> mt, mf;
                feasible(*cur, c, t, f, mt, mf);
                out = conc(!f);
                return true;
            }
            if(n == "vf_cover") {
                ++covers[cstr(C(0))];
                return true;
            }
            if(n == "vf_stop")
                kill();
            if(n == "vf_lazy") {
                uint64_t p = C(0), sz = C(1);
                Obj* o = cur->mem.findW(p);
                if(!o || p - o->base + sz > o->size)
                    throw Unsupported{ "vf_lazy" };
                o->lazy.push_back({ (uint32_t)(p - o->base), (uint32_t)sz, C(2), C(3) });
                return true;
            }
            if(n == "vf_disable_contract") {
                cur->disabledContracts.insert(cstr(C(0)));
                return true;
            }
            if(n == "vf_enable_contract") {
                cur->disabledContracts.erase(cstr(C(0)));
                return true;
            }
            if(n == "vf_print") {
                E v = toE(A(1), 64);
                errs() << cstr(C(0)) << " = " << toStr(v, 12) << "\n";
                return true;
            }
            if(n == "vf_ite") {  // branch-free selection of 64-bit values
                E c = toE(A(0), bitw(F->getArg(0)->getType()));
                if(c->w != 1)
                    c = mkExtract(c, 0, 1);
                out = fromE(mkIte(c, toE(A(1), 64), toE(A(2), 64)));
                return true;
            }
            if(n == "vf_opaque") {  // forget the structure: fresh value constrained equal
                E e = toE(A(0), 64);
                if(isC(e)) {
                    out = A(0);
                    return true;
                }
                E f = freshVar("opq", 64);
                addConstraint(*cur, mkBin(Op::Eq, f, e));
                cur->model = nullptr;
                out = fromE(f);
                return true;
            }
            if(n == "vf_hide_mul") {  // an arbitrary value standing for an (unused) product
                out = fromE(freshVar("prod", 64));
                return true;
            }
            throw Unsupported{ "unknown intrinsic " + n.str() };
        }
        if(!F->isDeclaration())
            return false;
        if(n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t") {
            out = conc(allocObj(C(0), false, false));
            return true;
        }
        if(n == "aligned_alloc") {
            out = conc(allocObj(C(1), false, false));
            return true;
        }
        if(n == "calloc") {
            out = conc(allocObj(C(0) * C(1), false, true));
            return true;
        }
        if(n == "free" || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv")) {
            uint64_t p = C(0);
            if(p) {
                Obj* o = cur->mem.findW(p);
                if(!o || o->kind != 0 || o->base != p)
                    fail("memory-safety", "free of a non-heap pointer");
                if(o->freed)
                    fail("memory-safety", "double free");
                o->freed = true;
                o->conc.clear();
                o->sym.clear();
            }
            return true;
        }
        if(n == "memcpy" || n == "memmove") {
            copyMem(C(0), C(1), C(2));
            out = A(0);
            return true;
        }
        if(n == "memset") {
            memsetImpl(C(0), A(1), 32, C(2));
            out = A(0);
            return true;
        }
        if(n == "strlen") {
            out = conc(cstr(C(0)).size());
            return true;
        }
        if(n == "memcmp" || n == "bcmp") {
            uint64_t p = C(0), q = C(1), len = C(2);
            E r = mkConst(0, 32);
            for(int64_t i = (int64_t)len - 1; i >= 0; --i) {
                E x = toE(loadBytes(p + i, 1), 8), y = toE(loadBytes(q + i, 1), 8);
                r = mkIte(mkBin(Op::Eq, x, y), r, mkIte(mkBin(Op::Ult, x, y), mkConst(~u128(0), 32), mkConst(1, 32)));
            }
            out = fromE(r);
            return true;
        }
        if(n == "strcmp") {
            out = conc((uint32_t)(int)strcmp(cstr(C(0)).c_str(), cstr(C(1)).c_str()));
            return true;
        }
        if(n == "__cxa_guard_acquire") {
            uint64_t p = C(0);
            out = conc(concretize(loadBytes(p, 1), 8) == 0);
            return true;
        }
        if(n == "__cxa_guard_release") {
            storeBytes(C(0), 1, conc(1));
            return true;
        }
        if(n == "__cxa_atexit" || n == "__cxa_thread_atexit" || n.starts_with("_ZNSt8ios_base4InitC") || n.starts_with("_ZNSt8ios_base4InitD")) {
            out = conc(0);
            return true;
        }
        if(n == "__dynamic_cast") {
            uint64_t p = C(0);
            auto* dst = gvAt.lookup(C(2));
            Type* PT = Type::getInt64Ty(M.getContext());
            Val vp = simp(loadTyped(conc(p), PT), 64);
            if(vp.e && vp.e->op == Op::Tab) {
                unsigned var = (unsigned)vp.e->c;
                Dom d = domOf(*cur, var);
                std::vector<uint64_t> r(g_vars[var].domSize, 0);
                for(int i = 0; i < g_vars[var].domSize; ++i)
                    if(d.test(i))
                        r[i] = dynCast(p, (*vp.e->tab)[i], dst);
                out = simp(fromE(mkTab(var, r, 64)), 64);
                return true;
            }
            out = conc(dynCast(p, concretize(vp, 64), dst));
            return true;
        }
        if(n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_ZSt9terminatev" || n.starts_with("_ZSt20__throw") || n.starts_with("_ZSt17__throw") || n.starts_with("_ZSt19__throw") ||
           n.starts_with("_ZSt16__throw") || n.starts_with("_ZSt24__throw") || n.starts_with("_ZSt28__throw") || n.starts_with("_ZSt25__throw") || n.starts_with("_ZSt21__throw"))
            fail("no-exception", "exception thrown (" + demangle(n.str()) + ")");
        if(n == "__cxa_bad_cast")
            fail("no-exception", "bad cast");
        if(n == "abort" || n == "exit" || n == "_exit" || n == "__cxa_pure_virtual" || n == "__assert_fail")
            fail("no-abort", n.str() + " reached");
        if(n == "sqrt") {
            out = fromE(mkFp(Op::FSqrt, 64, toE(A(0), 64)));
            return true;
        }
        if(n == "sqrtf") {
            out = fromE(mkFp(Op::FSqrt, 32, toE(A(0), 32)));
            return true;
        }
        if(n == "fabs") {
            out = fromE(mkFp(Op::FAbs, 64, toE(A(0), 64)));
            return true;
        }
        if(n == "fabsf") {
            out = fromE(mkFp(Op::FAbs, 32, toE(A(0), 32)));
            return true;
        }
        return false;
    }
    void memsetImpl(uint64_t p, Val v, unsigned w, uint64_t len) {
        if(!len)
            return;
        Obj* o = objFor(p, len, true);
        uint64_t off = p - o->base;
        if(!v.e) {
            memset(&o->conc[off], (int)v.c, len);
            if(!o->sym.empty())
                for(uint64_t i = 0; i < len; ++i)
                    o->sym[off + i] = nullptr;
        } else {
            E b = mkExtract(toE(v, w), 0, 8);
            ensureSym(o);
            for(uint64_t i = 0; i < len; ++i)
                o->sym[off + i] = b;
        }
    }
    bool intrinsic(const DInst& d, Frame& fr, const Function* F) {
        auto V = [&](unsigned i, unsigned k = 0) { return simp(opv(fr, d.ops[i], k), 64); };
        auto W = [&](unsigned i) { return bitw(d.I->getOperand(i)->getType()); };
        switch(F->getIntrinsicID()) {
            case Intrinsic::lifetime_start:
            case Intrinsic::lifetime_end:
                if(fr.serial) {
                    uint64_t a = concretize(V(1), 64);
                    if(Obj* o = cur->mem.findW(a)) {
                        noteWrite(o->base);
                        o->sym.assign(o->size, g_uninit);
                    }
                }
                return true;
            case Intrinsic::dbg_declare:
            case Intrinsic::dbg_value:
            case Intrinsic::dbg_label:
            case Intrinsic::assume:
            case Intrinsic::invariant_end:
            case Intrinsic::experimental_noalias_scope_decl:
            case Intrinsic::donothing:
            case Intrinsic::prefetch: return true;
            case Intrinsic::invariant_start:
            case Intrinsic::stacksave: setDst(fr, d, conc(0)); return true;
            case Intrinsic::stackrestore: return true;
            case Intrinsic::memcpy:
            case Intrinsic::memcpy_inline:
            case Intrinsic::memmove: {
                uint64_t n = concretize(V(2), W(2)), p = concretize(V(0), 64), q = concretize(V(1), 64);
                copyMem(p, q, n);
                return true;
            }
            case Intrinsic::memset: {
                uint64_t n = concretize(V(2), W(2)), p = concretize(V(0), 64);
                memsetImpl(p, V(1), 8, n);
                return true;
            }
            case Intrinsic::expect:
            case Intrinsic::expect_with_probability:
            case Intrinsic::launder_invariant_group:
            case Intrinsic::strip_invariant_group:
            case Intrinsic::threadlocal_address:
            case Intrinsic::ptr_annotation:
            case Intrinsic::ssa_copy: setDst(fr, d, V(0)); return true;
            case Intrinsic::is_constant: setDst(fr, d, conc(0)); return true;
            case Intrinsic::objectsize: setDst(fr, d, conc(~0ull)); return true;
            case Intrinsic::ctpop:
                if(!V(0).e)
                    setDst(fr, d, conc(__builtin_popcountll(V(0).c)));
                else
                    setDst(fr, d, fromE(popcount(V(0).e)));
                return true;
            case Intrinsic::ctlz:
            case Intrinsic::cttz: {
                E x = toE(V(0), d.w);
                E r = F->getIntrinsicID() == Intrinsic::ctlz ? ctlz(x) : cttz(x);
                if(!(d.ops[1].c.empty()) && d.ops[1].c[0].c) {  // arbitrary for 0 (may be speculated)
                    E z = normalize(mkBin(Op::Eq, x, mkConst(0, d.w)));
                    bool t = true, f = true;
                    std::shared_ptr<Model> mt, mf;
                    if(!isC(z))
                        feasible(*cur, z, t, f, mt, mf);
                    else
                        t = isTrue(z);
                    if(t)
                        r = mkIte(z, freshVar("ctz0", d.w), r);
                }
                setDst(fr, d, fromE(r));
                return true;
            }
            case Intrinsic::abs: {
                E x = toE(V(0), d.w);
                setDst(fr, d, fromE(mkIte(mkBin(Op::Slt, x, mkConst(0, d.w)), mkBin(Op::Sub, mkConst(0, d.w), x), x)));
                return true;
            }
            case Intrinsic::smax:
            case Intrinsic::smin:
            case Intrinsic::umax:
            case Intrinsic::umin: {
                E x = toE(V(0), d.w), y = toE(V(1), d.w);
                auto id = F->getIntrinsicID();
                bool sg = id == Intrinsic::smax || id == Intrinsic::smin;
                bool mx = id == Intrinsic::smax || id == Intrinsic::umax;
                E lt = mkBin(sg ? Op::Slt : Op::Ult, x, y);
                setDst(fr, d, fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y)));
                return true;
            }
            case Intrinsic::fshl:
            case Intrinsic::fshr: {
                unsigned w = d.w;
                E x = toE(V(0), w), y = toE(V(1), w), z = mkBin(Op::URem, toE(V(2), w), mkConst(w, w));
                E cc = mkConcat(x, y);
                E zz = mkZExt(z, 2 * w);
                E r = F->getIntrinsicID() == Intrinsic::fshl ? mkExtract(mkBin(Op::Shl, cc, zz), w, w) : mkExtract(mkBin(Op::LShr, cc, zz), 0, w);
                setDst(fr, d, fromE(r));
                return true;
            }
            case Intrinsic::bswap: {
                E x = toE(V(0), d.w);
                E r = mkExtract(x, 0, 8);
                for(unsigned i = 8; i < d.w; i += 8)
                    r = mkConcat(r, mkExtract(x, i, 8));
                setDst(fr, d, fromE(r));
                return true;
            }
            case Intrinsic::sadd_with_overflow:
            case Intrinsic::uadd_with_overflow:
            case Intrinsic::ssub_with_overflow:
            case Intrinsic::usub_with_overflow:
            case Intrinsic::smul_with_overflow:
            case Intrinsic::umul_with_overflow: {
                unsigned w = W(0);
                auto id = F->getIntrinsicID();
                bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
                bool mul = id == Intrinsic::smul_with_overflow || id == Intrinsic::umul_with_overflow;
                unsigned w2 = mul ? 2 * w : w + 1;
                E x = toE(V(0), w), y = toE(V(1), w);
                E xx = sg ? mkSExt(x, w2) : mkZExt(x, w2), yy = sg ? mkSExt(y, w2) : mkZExt(y, w2);
                Op op = mul ? Op::Mul : (id == Intrinsic::sadd_with_overflow || id == Intrinsic::uadd_with_overflow) ? Op::Add : Op::Sub;
                E full = mkBin(op, xx, yy);
                E r = mkBin(op, x, y);
                E back = sg ? mkSExt(r, w2) : mkZExt(r, w2);
                fr.regs[d.dst] = fromE(r);
                fr.regs[d.dst + 1] = fromE(mkNot(mkBin(Op::Eq, full, back)));
                return true;
            }
            case Intrinsic::usub_sat: {
                E x = toE(V(0), d.w), y = toE(V(1), d.w);
                setDst(fr, d, fromE(mkIte(mkBin(Op::Ult, x, y), mkConst(0, d.w), mkBin(Op::Sub, x, y))));
                return true;
            }
            case Intrinsic::fabs: setDst(fr, d, fromE(mkFp(Op::FAbs, d.w, toE(V(0), d.w)))); return true;
            case Intrinsic::sqrt: setDst(fr, d, fromE(mkFp(Op::FSqrt, d.w, toE(V(0), d.w)))); return true;
            case Intrinsic::fmuladd:
                setDst(fr, d, fromE(mkFp(Op::FAdd, d.w, mkFp(Op::FMul, d.w, toE(V(0), d.w), toE(V(1), d.w)), toE(V(2), d.w))));
                return true;
            case Intrinsic::trap:
            case Intrinsic::ubsantrap: fail("no-abort", "trap reached");
            case Intrinsic::load_relative: throw Unsupported{ "load.relative" };
            default: throw Unsupported{ "intrinsic " + F->getName().str() };
        }
    }

    void advance(Frame& fr, const DInst& d) {
        if(auto* II = dyn_cast<InvokeInst>(d.I))
            jump(fr, II->getParent(), II->getNormalDest());
        else
            ++fr.pc;
    }

    void step() {
        Frame& fr = cur->st.back();
        const DInst& d = fr.f->code[fr.pc];
        const Instruction& I = *d.I;
        ++cur->steps;
        ++totalSteps;
        auto V = [&](unsigned i) -> Val { return opv(fr, d.ops[i]); };
        auto opw = [&](unsigned i) { return bitw(I.getOperand(i)->getType()); };
        if(I.getType()->isVectorTy() && d.opc != Instruction::Load && d.opc != Instruction::PHI && d.opc != Instruction::Call && d.opc != Instruction::Invoke)
            return stepVector(fr, d);
        switch(d.opc) {
            case Instruction::Add:
            case Instruction::Sub:
            case Instruction::Mul:
            case Instruction::UDiv:
            case Instruction::SDiv:
            case Instruction::URem:
            case Instruction::SRem:
            case Instruction::Shl:
            case Instruction::LShr:
            case Instruction::AShr:
            case Instruction::And:
            case Instruction::Or:
            case Instruction::Xor: {
                Val r = binop(d.opc, V(0), V(1), d.w);
                fr.regs[d.dst] = r;
                ++fr.pc;
                return;
            }
            case Instruction::FNeg: fr.regs[d.dst] = fromE(mkBin(Op::Xor, toE(V(0), d.w), mkConst(u128(1) << (d.w - 1), d.w))); ++fr.pc; return;
            case Instruction::FAdd: fr.regs[d.dst] = fromE(mkFp(Op::FAdd, d.w, toE(V(0), d.w), toE(V(1), d.w))); ++fr.pc; return;
            case Instruction::FSub: fr.regs[d.dst] = fromE(mkFp(Op::FSub, d.w, toE(V(0), d.w), toE(V(1), d.w))); ++fr.pc; return;
            case Instruction::FMul: fr.regs[d.dst] = fromE(mkFp(Op::FMul, d.w, toE(V(0), d.w), toE(V(1), d.w))); ++fr.pc; return;
            case Instruction::FDiv: fr.regs[d.dst] = fromE(mkFp(Op::FDiv, d.w, toE(V(0), d.w), toE(V(1), d.w))); ++fr.pc; return;
            case Instruction::ICmp:
                fr.regs[d.dst] = icmp(cast<ICmpInst>(I).getPredicate(), V(0), V(1), opw(0));
                ++fr.pc;
                return;
            case Instruction::FCmp:
                fr.regs[d.dst] = fcmp(cast<FCmpInst>(I).getPredicate(), V(0), V(1), opw(0));
                ++fr.pc;
                return;
            case Instruction::Alloca: {
                auto& AI = cast<AllocaInst>(I);
                uint64_t n = concretize(V(0), opw(0));
                uint64_t sz = DL.getTypeAllocSize(AI.getAllocatedType()) * n;
                fr.regs[d.dst] = conc(allocObj(sz, true, false, &I));
                ++fr.pc;
                return;
            }
            case Instruction::Load: {
                Type* T = I.getType();
                if(T->isAggregateType() || T->isVectorTy()) {
                    std::vector<std::pair<Type*, uint64_t>> ls;
                    leaves(T, 0, ls);
                    uint64_t a = concretize(V(0), 64);
                    std::vector<Val> tmp;
                    for(auto& l : ls)
                        tmp.push_back(loadTyped(conc(a + l.second), l.first));
                    for(size_t i = 0; i < tmp.size(); ++i)
                        fr.regs[d.dst + i] = tmp[i];
                } else {
                    Val v = loadTyped(V(0), T);
                    fr.regs[d.dst] = v;
                }
                ++fr.pc;
                return;
            }
            case Instruction::Store: {
                Type* T = I.getOperand(0)->getType();
                if(T->isAggregateType() || T->isVectorTy()) {
                    std::vector<std::pair<Type*, uint64_t>> ls;
                    leaves(T, 0, ls);
                    uint64_t a = concretize(V(1), 64);
                    for(size_t i = 0; i < ls.size(); ++i)
                        storeTyped(conc(a + ls[i].second), ls[i].first, opv(fr, d.ops[0], i));
                } else
                    storeTyped(V(1), T, simp(V(0), d.w));
                ++fr.pc;
                return;
            }
            case Instruction::GetElementPtr: {
                Val b = simp(V(0), 64);
                if(!b.e) {
                    bool allc = true;
                    uint64_t acc = b.c + d.off;
                    for(size_t i = 0; i < d.gep.size(); ++i) {
                        Val x = opv(fr, d.ops[i + 1]);
                        if(x.e) {
                            allc = false;
                            break;
                        }
                        acc += (uint64_t)((int64_t)sextOf(x.c, d.gep[i].first) * d.gep[i].second);
                    }
                    if(allc) {
                        fr.regs[d.dst] = conc(acc);
                        ++fr.pc;
                        return;
                    }
                }
                E e = mkBin(Op::Add, toE(b, 64), mkConst((u128)(i128)d.off, 64));
                for(size_t i = 0; i < d.gep.size(); ++i) {
                    E x = toE(simp(opv(fr, d.ops[i + 1]), d.gep[i].first), d.gep[i].first);
                    x = d.gep[i].first < 64 ? mkSExt(x, 64) : mkExtract(x, 0, 64);
                    e = mkBin(Op::Add, e, mkBin(Op::Mul, x, mkConst((u128)(i128)d.gep[i].second, 64)));
                }
                fr.regs[d.dst] = simp(fromE(e), 64);
                ++fr.pc;
                return;
            }
            case Instruction::Trunc:
                if(!V(0).e)
                    fr.regs[d.dst] = conc(V(0).c & (uint64_t)maskOf(d.w));
                else
                    fr.regs[d.dst] = fromE(mkExtract(V(0).e, 0, d.w));
                ++fr.pc;
                return;
            case Instruction::ZExt: fr.regs[d.dst] = fromE(mkZExt(toE(V(0), opw(0)), d.w)); ++fr.pc; return;
            case Instruction::SExt: fr.regs[d.dst] = fromE(mkSExt(toE(V(0), opw(0)), d.w)); ++fr.pc; return;
            case Instruction::FPToSI:
            case Instruction::FPToUI: {
                E x = toE(V(0), opw(0));
                if(isC(x)) {
                    E r = mkFp(d.opc == Instruction::FPToSI ? Op::FPToSI : Op::FPToUI, d.w, x);
                    if(!isC(r))
                        fail("host-ub", "floating point value out of range of the integer type in the compiler");
                    fr.regs[d.dst] = fromE(r);
                } else {
                    // range obligation
                    double lo = d.opc == Instruction::FPToSI ? -std::ldexp(1.0, d.w - 1) : 0.0, hi = std::ldexp(1.0, d.opc == Instruction::FPToSI ? d.w - 1 : d.w);
                    auto k = [&](double v) {
                        if(opw(0) == 32) {
                            float f = (float)v;
                            uint32_t b;
                            memcpy(&b, &f, 4);
                            return mkConst(b, 32);
                        }
                        uint64_t b;
                        memcpy(&b, &v, 8);
                        return mkConst(b, 64);
                    };
                    E ok = mkAnd(mkFp(Op::FLt, 1, x, k(hi)), d.opc == Instruction::FPToSI ? mkFp(Op::FLe, 1, k(lo), x) : mkFp(Op::FLt, 1, k(-1.0), x));
                    E r = mkFp(d.opc == Instruction::FPToSI ? Op::FPToSI : Op::FPToUI, d.w, x);
                    // computed speculatively for a select: an arbitrary value when out of range
                    bool speculated = I.hasNUsesOrMore(1);
                    for(auto* u : I.users())
                        speculated &= isa<SelectInst>(u);
                    if(speculated)
                        r = mkIte(ok, r, freshVar("fresh", d.w));
                    else
                        require("host-ub", ok, "floating point value out of range of the integer type in the compiler");
                    fr.regs[d.dst] = fromE(r);
                }
                ++fr.pc;
                return;
            }
            case Instruction::SIToFP: fr.regs[d.dst] = fromE(mkFp(Op::SIToFP, d.w, toE(V(0), opw(0)))); ++fr.pc; return;
            case Instruction::UIToFP: fr.regs[d.dst] = fromE(mkFp(Op::UIToFP, d.w, toE(V(0), opw(0)))); ++fr.pc; return;
            case Instruction::FPExt: fr.regs[d.dst] = fromE(mkFp(Op::FPExt, d.w, toE(V(0), opw(0)))); ++fr.pc; return;
            case Instruction::FPTrunc: fr.regs[d.dst] = fromE(mkFp(Op::FPTrunc, d.w, toE(V(0), opw(0)))); ++fr.pc; return;
            case Instruction::PtrToInt: {
                Val v = V(0);
                if(d.w < 64)
                    v = v.e ? fromE(mkExtract(v.e, 0, d.w)) : conc(v.c & (uint64_t)maskOf(d.w));
                fr.regs[d.dst] = v;
                ++fr.pc;
                return;
            }
            case Instruction::IntToPtr: fr.regs[d.dst] = fromE(mkZExt(toE(V(0), opw(0)), 64)); ++fr.pc; return;
            case Instruction::BitCast:
                if(I.getOperand(0)->getType()->isVectorTy()) {
                    // vector -> scalar
                    auto* VT = cast<FixedVectorType>(I.getOperand(0)->getType());
                    unsigned ew = bitw(VT->getElementType());
                    E r = nullptr;
                    for(unsigned i = 0; i < VT->getNumElements(); ++i) {
                        E x = toE(opv(fr, d.ops[0], i), ew);
                        r = r ? mkConcat(x, r) : x;
                    }
                    fr.regs[d.dst] = fromE(r);
                } else
                    fr.regs[d.dst] = V(0);
                ++fr.pc;
                return;
            case Instruction::Freeze: {
                unsigned n = slots(I.getType());
                for(unsigned k = 0; k < n; ++k)
                    fr.regs[d.dst + k] = opv(fr, d.ops[0], k);
                ++fr.pc;
                return;
            }
            case Instruction::Select: {
                E c = toE(simp(V(0), 1), 1);
                unsigned n = slots(I.getType());
                if(isC(c)) {
                    for(unsigned k = 0; k < n; ++k)
                        fr.regs[d.dst + k] = opv(fr, d.ops[c->c ? 1 : 2], k);
                } else if(n == 1 && !I.getType()->isPointerTy()) {
                    fr.regs[d.dst] = fromE(mkIte(c, toE(V(1), d.w), toE(V(2), d.w)));
                } else if(n == 1 && (I.getFunction()->getName().starts_with("_ZSt3minI") || I.getFunction()->getName().starts_with("_ZSt3maxI"))) {
                    fr.regs[d.dst] = fromE(mkIte(c, toE(V(1), d.w), toE(V(2), d.w)));
                } else if(n == 1 && c->op == Op::Tab && !V(1).e && !V(2).e) {
                    fr.regs[d.dst] = fromE(mkIte(c, toE(V(1), d.w), toE(V(2), d.w)));
                } else {
                    bool t = decide(c);
                    for(unsigned k = 0; k < n; ++k)
                        fr.regs[d.dst + k] = opv(fr, d.ops[t ? 1 : 2], k);
                }
                ++fr.pc;
                return;
            }
            case Instruction::ExtractValue: {
                unsigned n = slots(I.getType());
                for(unsigned k = 0; k < n; ++k)
                    fr.regs[d.dst + k] = opv(fr, d.ops[0], d.slot + k);
                ++fr.pc;
                return;
            }
            case Instruction::InsertValue: {
                unsigned n = slots(I.getType()), m = slots(I.getOperand(1)->getType());
                std::vector<Val> t;
                for(unsigned k = 0; k < n; ++k)
                    t.push_back(k >= d.slot && k < d.slot + m ? opv(fr, d.ops[1], k - d.slot) : opv(fr, d.ops[0], k));
                for(unsigned k = 0; k < n; ++k)
                    fr.regs[d.dst + k] = t[k];
                ++fr.pc;
                return;
            }
            case Instruction::ExtractElement: {
                uint64_t i = concretize(V(1), opw(1));
                fr.regs[d.dst] = opv(fr, d.ops[0], i);
                ++fr.pc;
                return;
            }
            case Instruction::Br: {
                auto& B = cast<BranchInst>(I);
                if(B.isUnconditional()) {
                    jump(fr, B.getParent(), B.getSuccessor(0));
                    arrive(B.getSuccessor(0));
                    return;
                }
                E c = toE(simp(V(0), 1), 1);
                bool t = decide(c);
                Frame& f2 = cur->st.back();
                jump(f2, B.getParent(), B.getSuccessor(t ? 0 : 1));
                arrive(B.getSuccessor(t ? 0 : 1));
                return;
            }
            case Instruction::Switch: {
                auto& S = cast<SwitchInst>(I);
                unsigned w = opw(0);
                Val v = simp(V(0), w);
                const BasicBlock* dest = nullptr;
                if(!v.e) {
                    for(auto& cs : S.cases())
                        if(cs.getCaseValue()->getZExtValue() == v.c)
                            dest = cs.getCaseSuccessor();
                    if(!dest)
                        dest = S.getDefaultDest();
                } else {
                    // group cases by successor
                    std::vector<std::pair<const BasicBlock*, E>> groups;
                    for(auto& cs : S.cases()) {
                        E c = mkBin(Op::Eq, v.e, mkConst(cs.getCaseValue()->getZExtValue(), w));
                        bool f = false;
                        for(auto& g : groups)
                            if(g.first == cs.getCaseSuccessor()) {
                                g.second = mkOr(g.second, c);
                                f = true;
                            }
                        if(!f)
                            groups.push_back({ cs.getCaseSuccessor(), c });
                    }
                    for(auto& g : groups)
                        if(decide(g.second)) {
                            dest = g.first;
                            break;
                        }
                    if(!dest)
                        dest = S.getDefaultDest();
                }
                jump(cur->st.back(), S.getParent(), dest);
                arrive(dest);
                return;
            }
            case Instruction::Unreachable: fail("no-unreachable", "unreachable code reached");
            case Instruction::Ret: {
                unsigned n = I.getNumOperands() ? slots(I.getOperand(0)->getType()) : 0;
                std::vector<Val> r;
                for(unsigned k = 0; k < n; ++k)
                    r.push_back(opv(fr, d.ops[0], k));
                bool re = fr.reexec;
                unsigned mark = fr.stackMark;
                if(re)
                    --cur->handlerDepth;
                bool matched = fr.skipped != nullptr;
                if(matched) {
                    const bool p = cur->pend != nullptr;
                    matcherReturned(r[0]);
                    if(p)
                        matched = false;
                }
                if(cur->st.back().serial) {
                    cur->mergeFrames.pop_back();
                    while(!cur->alts.empty() && cur->alts.back().depth >= cur->st.size())
                        cur->alts.pop_back();
                }
                cur->st.pop_back();
                cur->mem.stack.resize(mark);
                if(cur->st.empty())
                    return;
                if(re)
                    return;
                Frame& c = cur->st.back();
                const DInst& cd = c.f->code[c.pc];
                if(cd.dst >= 0)
                    for(unsigned k = 0; k < n; ++k)
                        c.regs[cd.dst + k] = r[k];
                advance(c, cd);
                if(matched && cd.dst >= 0)
                    cur->st.back().regs[cd.dst] = conc(1);
                return;
            }
            case Instruction::Call:
            case Instruction::Invoke: return call(fr, d);
            case Instruction::Fence: ++fr.pc; return;
            case Instruction::AtomicRMW: {
                auto& R = cast<AtomicRMWInst>(I);
                Type* T = I.getType();
                uint64_t a = concretize(V(0), 64);
                Val old = loadTyped(conc(a), T);
                Val nv;
                switch(R.getOperation()) {
                    case AtomicRMWInst::Add: nv = binop(Instruction::Add, old, V(1), d.w); break;
                    case AtomicRMWInst::Sub: nv = binop(Instruction::Sub, old, V(1), d.w); break;
                    case AtomicRMWInst::Xchg: nv = V(1); break;
                    default: throw Unsupported{ "atomicrmw" };
                }
                storeTyped(conc(a), T, nv);
                fr.regs[d.dst] = old;
                ++fr.pc;
                return;
            }
            case Instruction::AtomicCmpXchg: {
                Type* T = I.getOperand(1)->getType();
                uint64_t a = concretize(V(0), 64);
                unsigned w = bitw(T);
                Val old = loadTyped(conc(a), T);
                bool eq = decide(mkBin(Op::Eq, toE(old, w), toE(V(1), w)));
                if(eq)
                    storeTyped(conc(a), T, V(2));
                fr.regs[d.dst] = old;
                fr.regs[d.dst + 1] = conc(eq);
                ++fr.pc;
                return;
            }
            default: throw Unsupported{ std::string("instruction ") + I.getOpcodeName() };
        }
    }
    void stepVector(Frame& fr, const DInst& d) {
        const Instruction& I = *d.I;
        unsigned n = slots(I.getType());
        switch(d.opc) {
            case Instruction::InsertElement: {
                uint64_t ix = concretize(opv(fr, d.ops[2]), 64);
                std::vector<Val> t;
                for(unsigned k = 0; k < n; ++k)
                    t.push_back(k == ix ? opv(fr, d.ops[1]) : opv(fr, d.ops[0], k));
                for(unsigned k = 0; k < n; ++k)
                    fr.regs[d.dst + k] = t[k];
                ++fr.pc;
                return;
            }
            case Instruction::BitCast: {
                Type* ST = I.getOperand(0)->getType();
                auto* VT = cast<FixedVectorType>(I.getType());
                unsigned ew = bitw(VT->getElementType());
                if(!ST->isVectorTy()) {
                    E x = toE(opv(fr, d.ops[0]), bitw(ST));
                    for(unsigned k = 0; k < n; ++k)
                        fr.regs[d.dst + k] = fromE(mkExtract(x, k * ew, ew));
                    ++fr.pc;
                    return;
                }
                break;
            }
            default: break;
        }
        throw Unsupported{ std::string("vector instruction ") + I.getOpcodeName() };
    }
    void call(Frame& fr, const DInst& d) {
        auto* CB = cast<CallBase>(d.I);
        const Function* F = d.callee;
        unsigned na = CB->arg_size();
        if(CB->isInlineAsm()) {
            ++fr.pc;
            return;
        }
        if(!F) {
            Val t = simp(opv(fr, d.ops[na]), 64);
            uint64_t a = concretize(t, 64);
            F = fnAt.lookup(a);
            if(!F)
                fail("memory-safety", "call through an invalid function pointer");
        }
        if(F->isIntrinsic()) {
            intrinsic(d, fr, F);
            advance(cur->st.back(), d);
            return;
        }
        std::vector<std::vector<Val>> args(na);
        for(unsigned i = 0; i < na; ++i) {
            unsigned n = slots(CB->getArgOperand(i)->getType());
            for(unsigned k = 0; k < n; ++k)
                args[i].push_back(simp(opv(fr, d.ops[i], k), 64));
        }
        // contract instead of the body
        std::string nm = F->getName().str();
        if(!StringRef(nm).starts_with("vf")) {
            if(const Function* K = M.getFunction("vfc_" + nm))
                if(!cur->disabledContracts.count(nm) && !K->isDeclaration()) {
                    contracted.insert(F);
                    pushFrame(K, args);
                    return;
                }
        }
        if(fr.serial && !cur->pend && !F->isDeclaration() && info(F)->isMatcher)
            return enterMatcher(F, args);
        Val out;
        if(F->isDeclaration() || StringRef(nm).starts_with("vf_")) {
            if(external(F, args, out)) {
                Frame& f2 = cur->st.back();
                if(d.dst >= 0)
                    f2.regs[d.dst] = out;
                advance(f2, d);
                return;
            }
        }
        pushFrame(F, args);
    }

    // ---------- main loop ----------
    double startT = 0;
    void runState() {
        State* s = cur;
        uint64_t lim = opt.maxSteps;
        int tick = 0;
        while(!s->st.empty()) {
            try {
                if(opt.verbose)
                    while(!s->st.empty()) {
                        lastInst = s->st.back().f->code[s->st.back().pc].I;
                        step();
                    }
                else
                    while(!s->st.empty()) {
                        step();
                        if((++tick & 1023) == 0 && (s->steps > lim || nowSec() - startT > opt.jobWall))
                            break;
                    }
                if(!s->st.empty()) {
                    if(s->steps > lim) {
                        errors.push_back("step limit at " + where());
                        return;
                    }
                    errors.push_back("time limit at " + where());
                    incomplete = true;
                    return;
                }
            } catch(Reexec&) { continue; } catch(State*) {
                ++killed;
                return;
            } catch(State&) {
                ++killed;
                return;
            } catch(Unsupported& u) {
                // only an error if the path is feasible
                try {
                    ensureModel(*s);
                } catch(State&) {
                    ++killed;
                    return;
                }
                std::string e = "unsupported: " + u.msg + " at " + where();
                if(errors.size() < 40)
                    errors.push_back(e);
                else
                    incomplete = true;
                return;
            }
        }
        ++paths;
    }
    const Instruction* lastInst = nullptr;
    int tokenR = -1, tokenW = -1;
    std::vector<pid_t> kids;
    int splitSeq = 0;
    bool isSplitChild = false;
    void trySplit() {
        if(tokenR < 0 || work.size() < 4)
            return;
        char ch;
        if(read(tokenR, &ch, 1) != 1)
            return;
        int seq = splitSeq++;
        pid_t p = fork();
        if(p == 0) {
            // take every other state
            std::vector<std::unique_ptr<State>> mine;
            for(size_t i = 0; i < work.size(); ++i)
                if(i % 2)
                    mine.push_back(std::move(work[i]));
            work = std::move(mine);
            resetResults();
            resFile += "_" + std::to_string(seq);
            isSplitChild = true;
            kids.clear();
            splitSeq = 0;
            return;
        }
        kids.push_back(p);
        std::vector<std::unique_ptr<State>> keep;
        for(size_t i = 0; i < work.size(); ++i)
            if(!(i % 2))
                keep.push_back(std::move(work[i]));
        work = std::move(keep);
    }
    void resetResults() {
        obs.clear();
        covers.clear();
        failures.clear();
        errors.clear();
        failCount.clear();
        paths = killed = totalSteps = forks = 0;
        executed.clear();
        contracted.clear();
        failSeq = 0;
        g_stats = SolverStats();
    }
    static std::string js(const std::string& s) {
        std::string r = "\"";
        for(char ch : s) {
            if(ch == '"' || ch == '\\')
                r += '\\';
            if(ch == '\n')
                r += "\\n";
            else if((unsigned char)ch < 32)
                r += ' ';
            else
                r += ch;
        }
        return r + "\"";
    }
    void writeResult(double wall) {
        std::ofstream o(resFile + ".json");
        o << "{\"job\":" << js(jobName) << ",\"paths\":" << paths << ",\"killed\":" << killed << ",\"steps\":" << totalSteps << ",\"forks\":" << forks << ",\"merged\":" << mergedStates << ",\"generalised\":" << generalised << ",\"wall\":" << wall
          << ",\"incomplete\":" << (incomplete ? "true" : "false") << ",\"exprs\":" << exprCount() << ",\"solver\":{\"queries\":" << g_stats.queries << ",\"cache_hits\":" << g_stats.cacheHits
          << ",\"model_hits\":" << g_stats.modelHits << ",\"unknown\":" << g_stats.unknown << ",\"time\":" << g_stats.time << ",\"int_queries\":" << g_stats.intQueries << ",\"int_time\":" << g_stats.intTime << ",\"portfolio_time\":" << g_stats.portfolioTime << "},\"obligations\":{";
        bool first = true;
        for(auto& [n, s] : obs) {
            uint64_t pf = 0;
            std::string p = "{";
            for(auto& [k, v] : s.portfolio) {
                p += (p.size() > 1 ? "," : "") + js(k) + ":" + std::to_string(v);
                pf += v;
            }
            p += "}";
            o << (first ? "" : ",") << js(n) << ":{\"simplifier\":" << s.trivial << ",\"ring\":" << s.ring << ",\"z3\":" << s.z3 << ",\"portfolio\":" << p << ",\"failed\":" << s.failed
              << ",\"unknown\":" << s.unknown << "}";
            first = false;
        }
        o << "},\"covers\":{";
        first = true;
        for(auto& [n, c] : covers) {
            o << (first ? "" : ",") << js(n) << ":" << c;
            first = false;
        }
        o << "},\"failures\":[";
        first = true;
        for(auto& f : failures) {
            o << (first ? "" : ",") << "{\"name\":" << js(f.name) << ",\"msg\":" << js(f.msg) << ",\"where\":" << js(f.where) << ",\"replay\":" << js(f.replay) << "}";
            first = false;
        }
        o << "],\"errors\":[";
        first = true;
        std::set<std::string> seen;
        for(auto& e : errors)
            if(seen.insert(e).second) {
                o << (first ? "" : ",") << js(e);
                first = false;
            }
        o << "],\"functions\":[";
        first = true;
        auto dump = [&](std::set<const Function*>& fs) {
            first = true;
            for(auto* F : fs) {
                std::string n = F->getName().str();
                std::string dn = demangle(n);
                if(dn.find("cmmc") == std::string::npos || StringRef(n).starts_with("vf") || dn.compare(0, 5, "std::") == 0 || dn.find(" std::") < dn.find("cmmc::"))
                    continue;
                o << (first ? "" : ",") << js(dn);
                first = false;
            }
        };
        dump(executed);
        o << "],\"contracted\":[";
        dump(contracted);
        o << "]}\n";
    }
    void runJob(const std::string& entry, const std::vector<uint64_t>& args) {
        startT = nowSec();
        const Function* F = M.getFunction(entry);
        if(!F) {
            errors.push_back("no entry " + entry);
            writeResult(0);
            return;
        }
        auto s = std::make_unique<State>(base);
        s->model = std::make_shared<Model>();
        cur = s.get();
        std::vector<std::vector<Val>> av;
        for(size_t i = 0; i < F->arg_size(); ++i)
            av.push_back({ conc(i < args.size() ? args[i] & (uint64_t)maskOf(bitw(F->getArg(i)->getType())) : 0) });
        try {
            pushFrame(F, av);
        } catch(Unsupported& u) {
            errors.push_back(u.msg);
            writeResult(0);
            return;
        }
        work.push_back(std::move(s));
        double lastSplit = nowSec();
        while(!work.empty()) {
            auto st = std::move(work.back());
            work.pop_back();
            cur = st.get();
            runState();
            cur = nullptr;
            double t = nowSec();
            if(t - startT > opt.jobWall) {
                if(!work.empty())
                    incomplete = true;
                if(incomplete) {
                    errors.push_back("job wall limit, " + std::to_string(work.size()) + " states left");
                    break;
                }
            }
            if(t - lastSplit > 0.25) {
                trySplit();
                lastSplit = nowSec();
            }
            if(failures.size() > 60) {
                // enough evidence
                break;
            }
        }
        if(isSplitChild && tokenW >= 0) {
            char ch = 'x';
            (void)!write(tokenW, &ch, 1);
        }
        writeResult(nowSec() - startT);
        for(pid_t p : kids) {
            int st;
            waitpid(p, &st, 0);
            if(!WIFEXITED(st) || WEXITSTATUS(st)) {
                incomplete = true;
                errors.push_back("split worker died");
                writeResult(nowSec() - startT);
            }
        }
    }
};

static void optimizeModule(Module& M, const std::set<std::string>& keep) {
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    MPM.addPass(InternalizePass([&](const GlobalValue& G) { return keep.count(G.getName().str()) > 0 || G.getName().starts_with("vfc_"); }));
    MPM.addPass(GlobalDCEPass());
    FunctionPassManager FPM;
    FPM.addPass(LowerExpectIntrinsicPass());
    FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
    FPM.addPass(EarlyCSEPass());
    FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).forwardSwitchCondToPhi(false).speculateBlocks(true)));
    FPM.addPass(InstCombinePass());
    FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).forwardSwitchCondToPhi(false).speculateBlocks(true)));
    MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
    MPM.run(M, MAM);
}

int main(int argc, char** argv) {
    std::vector<std::string> files;
    std::vector<std::string> jobs;
    bool runCtors = false;
    std::vector<std::string> ctorFilter;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() -> std::string { return argv[++i]; };
        if(a == "--out")
            opt.outDir = nxt();
        else if(a == "--job")
            jobs.push_back(nxt());
        else if(a == "--jobs-file") {
            std::ifstream f(nxt());
            std::string l;
            while(std::getline(f, l))
                if(!l.empty())
                    jobs.push_back(l);
        } else if(a == "-j")
            opt.jobs = atoi(nxt().c_str());
        else if(a == "-v")
            opt.verbose = true;
        else if(a == "--wall")
            opt.jobWall = atof(nxt().c_str());
        else if(a == "--assert-ms")
            opt.assertTimeout = atoi(nxt().c_str());
        else if(a == "--feas-ms")
            opt.feasTimeout = atoi(nxt().c_str());
        else if(a == "--portfolio-s")
            opt.portfolioSec = atoi(nxt().c_str());
        else if(a == "--max-steps")
            opt.maxSteps = strtoull(nxt().c_str(), nullptr, 10);
        else if(a == "--matcher")
            opt.matcher.push_back(nxt());
        else if(a == "--merge")
            opt.merge.push_back(nxt());
        else if(a == "--ctors") {
            runCtors = true;
            ctorFilter.push_back(nxt());
        } else
            files.push_back(a);
    }
    struct rlimit rl {
        512ull << 20, 512ull << 20
    };
    setrlimit(RLIMIT_STACK, &rl);
    LLVMContext Ctx;
    SMDiagnostic Err;
    std::unique_ptr<Module> M;
    std::unique_ptr<Linker> L;
    for(auto& f : files) {
        auto m = parseIRFile(f, Err, Ctx);
        if(!m) {
            Err.print(argv[0], errs());
            return 2;
        }
        if(!M) {
            M = std::move(m);
            L = std::make_unique<Linker>(*M);
        } else if(L->linkInModule(std::move(m))) {
            errs() << "link failed: " << f << "\n";
            return 2;
        }
    }
    std::set<std::string> keep;
    for(auto& j : jobs)
        keep.insert(j.substr(0, j.find(':')));
    // global constructors are not run unless asked for
    std::vector<std::string> ctors;
    if(auto* G = M->getNamedGlobal("llvm.global_ctors")) {
        if(runCtors && G->hasInitializer())
            if(auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
                for(auto& op : A->operands()) {
                    auto* S = cast<ConstantStruct>(op.get());
                    if(auto* F = dyn_cast<Function>(S->getOperand(1)->stripPointerCasts())) {
                        std::string n = F->getName().str();
                        for(auto& c : ctorFilter)
                            if(n.find(c) != std::string::npos) {
                                ctors.push_back(n);
                                keep.insert(n);
                                break;
                            }
                    }
                }
        G->eraseFromParent();
    }
    optimizeModule(*M, keep);
    if(getenv("DVC_WRITE_BC")) {
        std::error_code ec;
        raw_fd_ostream o(getenv("DVC_WRITE_BC"), ec);
        M->print(o, nullptr);
    }
    Exec ex(*M);
    ex.initGlobals();
    for(auto& c : ctors) {
        // run concretely in the base state
        auto s = std::make_unique<State>(ex.base);
        s->model = std::make_shared<Model>();
        ex.cur = s.get();
        std::vector<std::vector<Val>> av;
        ex.resFile = opt.outDir + "/ctor";
        ex.startT = nowSec();
        ex.pushFrame(M->getFunction(c), av);
        ex.runState();
        if(!ex.errors.empty() || !ex.failures.empty()) {
            errs() << "ctor " << c << ": " << (ex.errors.empty() ? "failed" : ex.errors[0]) << "\n";
            return 2;
        }
        ex.base = *s;
        ex.base.st.clear();
        ex.resetResults();
    }
    ex.cur = nullptr;
    int pfd[2];
    if(pipe(pfd))
        return 2;
    fcntl(pfd[0], F_SETFL, O_NONBLOCK);
    size_t next = 0;
    std::map<pid_t, size_t> running;
    std::vector<std::string> jobErr;
    unsigned free = opt.jobs;
    int bad = 0;
    // tokens in the pipe: idle cores once every job has been started
    while(next < jobs.size() || !running.empty()) {
        // prefer starting queued jobs
        while(next < jobs.size()) {
            if(free == 0) {
                char ch;
                if(read(pfd[0], &ch, 1) == 1)
                    ++free;
                else
                    break;
            }
            --free;
            size_t ix = next++;
            pid_t p = fork();
            if(p == 0) {
                ex.tokenR = pfd[0];
                ex.tokenW = pfd[1];
                std::string j = jobs[ix];
                ex.jobName = j;
                ex.resFile = opt.outDir + "/job" + std::to_string(ix);
                std::vector<uint64_t> args;
                std::string entry = j.substr(0, j.find(':'));
                if(j.find(':') != std::string::npos) {
                    std::stringstream ss(j.substr(j.find(':') + 1));
                    std::string t;
                    while(std::getline(ss, t, ','))
                        args.push_back((uint64_t)strtoll(t.c_str(), nullptr, 0));
                }
                ex.runJob(entry, args);
                _exit(0);
            }
            running[p] = ix;
        }
        if(next >= jobs.size() && free) {
            // hand idle cores to the splitters
            std::string s(free, 'x');
            (void)!write(pfd[1], s.data(), s.size());
            free = 0;
        }
        int st;
        pid_t p = waitpid(-1, &st, 0);
        if(p < 0)
            break;
        auto it = running.find(p);
        if(it != running.end()) {
            if(!WIFEXITED(st) || WEXITSTATUS(st)) {
                std::ofstream o(opt.outDir + "/job" + std::to_string(it->second) + ".json");
                o << "{\"job\":" << Exec::js(jobs[it->second]) << ",\"crashed\":true,\"status\":" << st << "}\n";
                bad = 1;
            }
            running.erase(it);
            ++free;
        }
    }
    return bad ? 3 : 0;
}
