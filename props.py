# property -> what is compiled, which jobs are run, what is assumed
import os
V = os.path.dirname(os.path.abspath(__file__))
TRUSTED = [
    'clang 18 front end and the verifier /verif/engine (symbolic execution of the bitcode, term rewriting)',
    'z3 5.3 (bit-vectors, integers), cvc5/bitwuzla-free portfolio (z3, cvc5, kissat, cadical) for the queries z3 leaves open',
    'no compiler optimisation beyond SROA, EarlyCSE, InstCombine and SimplifyCFG is assumed correct',
]


def R(*names):
    return ['cmmc/' + n for n in names]


def span(name, *ranges):
    import itertools
    return [name + ':' + ','.join(map(str, t)) for t in itertools.product(*ranges)]


LEMMAS = {
    'closed': True,
    'harness': ['lemmas.cpp'],
    'jobs': ['lemma_mulMono', 'lemma_mulMonoU', 'lemma_sdivNum', 'lemma_sdivDen', 'lemma_udivMono', 'lemma_mulCorners', 'lemma_mulCornersU',
             'lemma_sdivCorners', 'lemma_mulFits'] + span('lemma_mulLow', range(33)),
}
RT = ['-DVF_RUNTIME_SOURCE="/repo/cmmc/Runtime/cmmc_sysy_rt.cpp"']
IRREPO = R('IR/Instruction.cpp', 'IR/Block.cpp', 'IR/Function.cpp', 'IR/ConstantValue.cpp', 'IR/Type.cpp', 'IR/IRBuilder.cpp', 'IR/Value.cpp',
           'Transforms/Util/BlockUtil.cpp', 'Analysis/AnalysisPass.cpp')


def arith(jobs):
    return {'harness': ['arith.cpp'], 'flags': ['-DVF_SOURCE="/repo/cmmc/Transforms/Combine/ArithmeticReduce.cpp"'], 'models': ['support.cpp'],
            'repo': IRREPO, 'jobs': jobs, 'portfolio_s': 10,
            'opts': ['--merge', 'cmmc::ArithmeticReduce::runOnBlock', '--matcher', 'operator()(cmmc::MatchContext<cmmc::Value> const&) const']}


def fold(jobs):
    return {'harness': ['constfold.cpp'], 'flags': ['-DVF_SOURCE="/repo/cmmc/Transforms/Combine/ConstantPropagation.cpp"'], 'models': ['support.cpp'],
            'repo': IRREPO, 'jobs': jobs, 'portfolio_s': 20,
            'opts': ['--merge', 'cmmc::ConstantPropagation::runOnBlock', '--matcher', 'operator()(cmmc::MatchContext<cmmc::Value> const&) const']}


def ranged(jobs):
    return {'harness': ['rangefold.cpp'], 'flags': ['-DVF_SOURCE="/repo/cmmc/Transforms/Combine/RangeAwareArithReduce.cpp"'], 'models': ['support.cpp'],
            'repo': IRREPO + ['cmmc/Analysis/IntegerRange.cpp'], 'jobs': jobs, 'portfolio_s': 20,
            'opts': ['--merge', 'cmmc::RangeAwareArithReduce::runOnBlock', '--matcher', 'operator()(cmmc::MatchContext<cmmc::Value> const&) const']}


# every kind of instruction of harness/isel.cpp with each of its result types


def isel(share, harness='isel.cpp', first=('79,', '12,', '13,', '78,', '32,')):
    import re
    text = open(os.path.join(V, 'harness', harness)).read()
    table = text[text.index('static const Kind kinds[]'):]
    bits = {'tB': 1, 't8': 2, 't16': 4, 't32': 8, 't64': 16, 'tF': 32, 'tInt': 24, 'tW': 24, 'tAll': 25}
    jobs = []
    for k, (op, sig, types) in enumerate(re.findall(r'\{ (\w+), "(\w*)", ([^}]*) \}', table[:table.index('};')])):
        mask = eval(types, bits)
        jobs += [f'isel_root:{k},{t},{share}' for t in range(6) if k and mask >> t & 1]
    slow = [j for p in first for j in jobs if ':' + p in j]
    return slow + [j for j in jobs if j not in slow]


AR_ASSUME = ['the meaning of IR integer instructions of harness/irlazy.hpp (signed overflow, division by zero and over-wide shifts are undefined in the program before the rewriting; the rewritten program may not become undefined)',
             'models/support.cpp: arena allocation, interned strings, profiling and fatal errors',
             'expressions are trees of 32-bit integer and boolean instructions with shared leaves (a compound operand is not shared), casts between 1, 8, 32 and 64 bits']
AR_BOUND = 'divisors, constants below a division and constants a quotient is compared with are taken from lists of nine values; every other constant and every variable is arbitrary'
PROPS = {
    'R01': {
        'groups': [
            {'harness': ['intrange.cpp'], 'repo': R('Analysis/IntegerRange.cpp'),
             'jobs': ['ir_binary:2', 'ir_binary:20', 'ir_binary:3'] + span('ir_shift', [2, 1, 0], range(33)) +
                     span('ir_binary', [0, 1, 4, 5, 6, 7, 8, 9, 13, 14]) + span('ir_unary', [0, 1]) + ['ir_sync'] +
                     span('ir_refine', range(5)) + span('ir_sets', range(7)), 'portfolio_s': 90, 'wall': 600},
            LEMMAS,
        ],
        'assumptions': ['32-bit operations with the wrap-around semantics of the interpreter and of the targets; division by zero and INT_MIN / -1 are undefined in the source language, as are shift amounts outside 0..31 and abs(INT_MIN)'],
    },
    'R02': {
        'groups': [
            {'harness': ['runtime.cpp'], 'flags': RT,
             'jobs': ['rt_parallelFor', 'rt_futexWait', 'rt_futexPost'] + span('rt_worker', range(4)) + span('rt_selectEntry', range(17), range(2))},
        ],
        'assumptions': ['a worker thread runs the function and the range that were stored before its semaphore was posted, and posts its own semaphore afterwards (rt_worker, rt_futexWait and rt_futexPost prove this from the contracts of the futex system calls and of the atomic operations)',
                        'clock_gettime returns any time'],
        'bounded': 'rt_selectEntry: three of the sixteen statistics entries arbitrary at a time, the others empty or owned by other loops; all other obligations unbounded',
    },
    'R03': {
        'groups': [
            {'harness': ['runtime.cpp'], 'flags': RT,
             'jobs': ['rt_cacheKey', 'rt_cacheLookup', 'rt_cacheBounds', 'rt_addRec']},
        ],
        'assumptions': ['one arbitrary entry of the memo table is considered at a time; entries other than the probed one are not followed'],
    },
    'R04': {
        'groups': [arith(span('ar_int', [32], [7, 5, 9, 23, 21, 3, 2] + [k for k in range(2, 24) if k not in (7, 5, 9, 23, 21, 3, 2)], [1]))],
        'assumptions': AR_ASSUME,
        'bounded': AR_BOUND,
    },
    'R05': {
        'groups': [arith(span('ar_bool', [32], [2, 3, 5, 7, 4, 6], [1]))],
        'assumptions': AR_ASSUME,
        'bounded': AR_BOUND,
    },
    'R06': {
        'groups': [
            {'harness': ['isel.cpp', 'iselflags.cpp'], 'models': ['support.cpp'], 'generate': ['RISCV', 'Generic'],
             'repo': R('CodeGen/ISelInfo.cpp', 'CodeGen/InstInfo.cpp', 'Target/RISCV/RISCVInstInfo.cpp'), 'jobs': isel(1), 'portfolio_s': 30},
        ],
        'assumptions': [
            'RV64 with Zba/Zbb as in evalInst of harness/isel.cpp; floating-point operations, memory and addresses are uninterpreted functions',
            'registers hold Int32 sign-extended, Bool as 0 or 1; other widths appear only below conversions; the only fixed register is x0',
            'operations on two constants are folded before selection; 32-bit sums replaced by sh*add and quotients by a power of two rely on the absence of signed overflow in the source program',
            'ISelContext::lookupDef, hasOneUse, isSafeToUse, getRegRef, newInst, removeInst and replaceOperand are used through their contracts: a definition found is the only reaching one and its registers still hold the same values; the order of memory accesses is not considered',
        ],
        'bounded': 'the divisor of a signed division by a constant is one of the 39 values of harness/isel.cpp; every other constant and every register is arbitrary',
    },
    'R07': {
        'groups': [
            {'harness': ['expand.cpp', 'iselflags.cpp'], 'models': ['support.cpp'], 'generate': ['RISCV', 'Generic'],
             'repo': R('CodeGen/ISelInfo.cpp', 'CodeGen/InstInfo.cpp', 'Target/RISCV/RISCVInstInfo.cpp'), 'portfolio_s': 30,
             'jobs': span('exp_imm', [0], [0, 2, 3, 4]) + ['exp_imm:1,4'] + span('exp_select', [0, 1], [0, 3, 4], [0, 3, 4]) + span('exp_select', [2], [5], [0, 3, 4]) +
                     span('exp_last', [0, 1, 2], [0, 3, 4, 5]) + span('exp_last', [3], [0, 3, 4]) + span('exp_stack', range(16)) + ['exp_adjust'] + span('exp_branch', range(11))},
        ],
        'assumptions': [
            'RV64 with Zba/Zbb as in evalInst of harness/isel.cpp; floating-point operations, memory and addresses are uninterpreted functions',
            'the result register of a select pseudo differs from its operands (it runs before register allocation)',
            'stack offsets are within the 12-bit range of one instruction; larger frames are rejected by the compiler (reportUnreachable)',
            'LoadImm64Complex (li with a wide constant) is left to the assembler, materializeFPConstant is not covered',
        ],
    },
    'R08': {
        'groups': [
            {'harness': ['mips.cpp', 'iselflags.cpp'], 'models': ['support.cpp'], 'generate': ['MIPS', 'Generic'],
             'repo': R('CodeGen/ISelInfo.cpp', 'CodeGen/InstInfo.cpp', 'Target/MIPS/MIPSInstInfo.cpp'), 'jobs': isel(1, 'mips.cpp', ()), 'portfolio_s': 30},
        ],
        'assumptions': [
            'MIPS32 release 2 as in evalMachine of harness/mips.cpp; floating-point operations, memory and addresses are uninterpreted functions',
            'registers hold narrower integers sign-extended and Bool as 0 or 1; fixed registers are $zero, HI/LO and the condition flag',
            'operations on two constants are folded before selection; no quotient by a constant overflows; unsigned <= and >= are not compared with the limits of the signed range (the simplifier turns them into < and >)',
            'ISelContext::lookupDef, hasOneUse, isSafeToUse, getRegRef, newInst, removeInst and replaceOperand are used through their contracts: a definition found is the only reaching one and its registers still hold the same values; the order of memory accesses is not considered',
        ],
        'bounded': 'the divisor of a signed division by a constant is one of the 39 values of harness/iselcore.hpp; every other constant and every register is arbitrary',
    },
    'R09': {
        'groups': [
            {'harness': ['mexpand.cpp', 'iselflags.cpp'], 'models': ['support.cpp'], 'generate': ['MIPS', 'Generic'],
             'repo': R('CodeGen/ISelInfo.cpp', 'CodeGen/InstInfo.cpp', 'Target/MIPS/MIPSInstInfo.cpp'), 'portfolio_s': 30,
             'jobs': span('mex_select', range(4)) + span('mex_last', [0, 1, 2], [0, 3, 5]) + span('mex_last', [3], [0, 3]) + span('mex_stack', range(11)) +
                     ['mex_adjust'] + span('mex_branch', range(9)) + span('mex_slots', [1, 2, 3])},
        ],
        'assumptions': [
            'MIPS32 release 2 as in evalMachine of harness/mips.cpp; floating-point operations, memory and addresses are uninterpreted functions',
            'stack offsets are within the 16-bit range of one instruction; larger frames are rejected by the compiler (reportUnreachable)',
            'LI (a wide constant) is left to the assembler, materializeFPConstant is not covered',
        ],
        'bounded': 'mex_slots: the block has at most three instructions, one of which needs a delay slot; all other obligations unbounded',
    },
    'R10': {
        'groups': [
            {'harness': ['arm.cpp', 'iselflags.cpp'], 'models': ['support.cpp'], 'generate': ['ARM', 'Generic'],
             'repo': R('CodeGen/ISelInfo.cpp', 'CodeGen/InstInfo.cpp', 'Target/ARM/ARMInstInfo.cpp'), 'jobs': isel(1, 'arm.cpp', ('14,', '15,', '6,')), 'portfolio_s': 40},
        ],
        'assumptions': [
            'ARMv7 (A32, VFPv4) as in evalMachine of harness/armsem.hpp and harness/arm.cpp; floating-point arithmetic, memory and addresses are uninterpreted functions',
            'registers hold narrower integers extended to 32 bits and Bool as 0 or 1',
            'operations on two constants are folded before selection; the float comparisons one and ueq do not reach selection (the front ends do not produce them)',
            'ISelContext::lookupDef, hasOneUse, isSafeToUse, getRegRef, newInst, removeInst and replaceOperand are used through their contracts: a definition found is the only reaching one and its registers still hold the same values; the order of memory accesses is not considered',
        ],
        'bounded': 'the divisor of a signed division by a constant is one of the 39 values of harness/iselcore.hpp; every other constant and every register is arbitrary',
    },
    'R11': {
        'groups': [
            {'harness': ['aexpand.cpp', 'iselflags.cpp'], 'models': ['support.cpp'], 'generate': ['ARM', 'Generic'],
             'repo': R('CodeGen/ISelInfo.cpp', 'CodeGen/InstInfo.cpp', 'Target/ARM/ARMInstInfo.cpp'), 'portfolio_s': 30,
             'jobs': span('aex_select', range(11)) + span('aex_last', [0, 1, 2], [0, 3, 5]) + ['aex_last:3,3'] + span('aex_stack', range(13)) + ['aex_adjust'] +
                     span('aex_pair', [0, 1]) + span('aex_branch', [0, 1]) + ['aex_op2', 'aex_opposite']},
        ],
        'assumptions': [
            'ARMv7 (A32, VFPv4) as in evalMachine of harness/armsem.hpp and harness/arm.cpp; floating-point arithmetic, memory and addresses are uninterpreted functions',
            'stack offsets are within the range one instruction (or one ADD with an operand2 constant) reaches; larger frames are rejected by the compiler',
        ],
    },
    'R12': {
        'groups': [fold([j for j in span('cf_int', [32, 64, 8], range(2, 24)) if j not in ('cf_int:64,21', 'cf_int:64,22')] + span('cf_bool', [8, 32, 64], range(2, 8)) +
                        span('cf_fpUnary', [4, 8], [0, 1]) + span('cf_fpBinary', [4, 8], range(4)) + span('cf_fpCompare', [4, 8], range(10)) +
                        span('cf_fpToInt', [4, 8], [0, 1], [8, 32]) + span('cf_intToFp', [4, 8], [0, 1], [8, 32]) + span('cf_intToFp', [8], [0, 1], [64]) +
                        span('cf_fpCast', [4, 8], [4, 8]) + span('cf_fpSelect', [4, 8]) + span('cf_fpValue', [4, 8]) + span('cf_fpEqual', [4, 8]) +
                        span('cf_intEqual', [1, 8, 32, 64]))],
        'assumptions': ['the meaning of IR instructions of harness/irlazy.hpp (signed overflow, division by zero and over-wide shifts are undefined in the program before the folding); IEEE 754 with round-to-nearest for floating point',
                        'the dominator analysis is used through a contract: the one block of the function',
                        'models/support.cpp: arena allocation, interned strings, profiling and fatal errors'],
    },
    'R13': {
        'groups': [ranged(span('rf_int', [32], [7] + [k for k in range(2, 21) if k != 7])), ranged(span('rf_bool', [32], range(2, 8)))],
        'lemmas': ['mulrem.v'],
        'assumptions': ['the meaning of IR instructions of harness/irlazy.hpp',
                        'the range analysis is used through its contract: any range that contains the values the operand has (exact for constants); R01 and the analysis itself are separate',
                        'the dominator analysis is used through a contract: the one block of the function',
                        'models/support.cpp: arena allocation, interned strings, profiling and fatal errors'],
    },
}
