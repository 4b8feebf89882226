#!/usr/bin/env python3
"""Texts of the properties; `python3 meta.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))


def P(id, title, statement, over, text, why, files, mech, observe=(), technique=None, note=None, na=None, level='proof', state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                technique=technique, note=note, na=na, level=level, state=state)


DED = 'contract-based deductive verification of the compiled real functions (function-by-function contracts, symbolic execution of their bitcode, z3/cvc5/SAT portfolio)'
PROPS = [
    P('R01', 'Inferred integer value ranges contain every possible result',
      'For every integer operation (add, subtract, multiply, divide, remainder, bitwise, shifts, min, max, negate, absolute value), the range computed for the result from the ranges of the operands contains every value the operation can really produce from operand values inside those ranges, with 32-bit wrap-around. '
      'Union keeps every value of either range, intersection keeps every common value, and narrowing a range by a known comparison never drops a value for which the comparison holds.',
      ['inputs'], 'all operand ranges (signed bounds, unsigned bounds and known bits chosen independently) and all operand values in them',
      'The unit tests sample a few thousand random ranges per operator; corner ranges (INT_MIN, sign changes, wrap-around of one bound only, disagreeing known bits) are hit with vanishing probability.',
      ['cmmc/Analysis/IntegerRange.cpp', 'cmmc/Analysis/IntegerRange.hpp'],
      [('operators, sync, intersect/union', 'cmmc/Analysis/IntegerRange.cpp')],
      ['the range an optimisation asks for'], DED,
      'Every obligation of every operator is discharged for all 32-bit ranges and values (no bound); division by zero, INT_MIN/-1, shifts outside 0..31 and abs(INT_MIN) are excluded as undefined. Trusts clang, the verifier and the solvers.'),
    P('R02', 'The parallel-for runtime runs every iteration exactly once',
      'When the runtime executes a loop body over an index range with worker threads, the sub-ranges handed to the body are disjoint and together cover exactly the requested range, for every range and whatever thread count was chosen or measured. '
      'The call returns only after all the sub-ranges were handed out and completed, and the body is never called with an empty or inverted range.',
      ['inputs', 'schedules'], 'all begin/end pairs, all thread-count decisions, all states of the tuning statistics (at most three used entries at a time)',
      'The repository tests never link the runtime; the partition arithmetic depends on ranges near the 32-bit limits and on timing-dependent thread choices.',
      ['cmmc/Runtime/cmmc_sysy_rt.cpp'],
      [('cmmcParallelFor', 'cmmc/Runtime/cmmc_sysy_rt.cpp'), ('selectEntry / ParallelForEntry', 'cmmc/Runtime/cmmc_sysy_rt.cpp')],
      ['the (begin, end) pairs the loop body receives'], DED,
      'Loop over the threads under an invariant; the semaphores are used through their contracts, which are proved against the futex system calls, and the worker loop is proved for two consecutive signals; statistics-table search bounded to three arbitrary entries of sixteen at a time.'),
    P('R03', 'The memoisation table never confuses two argument tuples',
      'A lookup in the runtime memoisation table for one pair of 32-bit arguments never returns a filled entry that was stored for a different pair. '
      'The returned entry always lies inside the table, a freshly claimed entry is reported as empty, and a claimed entry belongs to the arguments it was claimed for.',
      ['inputs', 'histories'], 'all pairs of arguments, all contents of the table',
      'Tests call the memoised functions with small non-negative arguments; collisions need particular 64-bit keys and hash residues.',
      ['cmmc/Runtime/cmmc_sysy_rt.cpp'],
      [('cmmcCacheLookup, LUTEntry', 'cmmc/Runtime/cmmc_sysy_rt.cpp')],
      ['cmmcCacheLookup'], DED,
      'All argument pairs and all table contents, one arbitrary table entry at a time; no bound.'),
    P('R04', 'Rewriting a 32-bit integer expression keeps its value',
      'When the algebraic simplifier replaces a 32-bit integer instruction (add, subtract, multiply, divide, remainder, negate, absolute value, bitwise, shift, min, max, casts, select), the replacement has the same value as the original for all values of the variables for which the original is defined. '
      'The replacement is defined wherever the original was: it never divides by zero, shifts too far or overflows a division.',
      ['inputs'], 'all expressions of 32-bit integer, boolean and cast instructions the simplifier can tell apart, all constants and variable values in them (constants around divisions: nine values)',
      'Each of the roughly two hundred rules fires only for particular shapes and constants; the tests contain a few instances of some of them, never the extreme constants or wrapping values for which a wrong side condition matters.',
      ['cmmc/Transforms/Combine/ArithmeticReduce.cpp', 'cmmc/IR/Instruction.hpp', 'cmmc/Analysis/PatternMatch.hpp' if os.path.exists('/repo/cmmc/Analysis/PatternMatch.hpp') else 'cmmc/Transforms/Util/PatternMatch.hpp'],
      [('integer rules of the simplifier', 'cmmc/Transforms/Combine/ArithmeticReduce.cpp')],
      ['the value of the replaced instruction'], DED,
      'Each rule application is proved for all values; divisors and constants next to divisions are taken from a list of nine values (bounded).', level='proof'),
    P('R05', 'Rewriting a condition keeps its truth value',
      'When the algebraic simplifier replaces a boolean instruction (comparison of 32-bit integers or booleans, and, or, xor, not, select, truncation to bool), the replacement has the same truth value as the original for all values of the variables for which the original is defined, and is defined wherever the original was.',
      ['inputs'], 'all conditions built from comparisons of 32-bit integers and logic that the simplifier can tell apart, all constants and variable values in them (constants around divisions: nine values)',
      'Merging two comparisons or moving a constant across a comparison is wrong only at the limits of the integer range or for one predicate out of ten; the tests do not combine them.',
      ['cmmc/Transforms/Combine/ArithmeticReduce.cpp', 'cmmc/IR/Instruction.hpp'],
      [('boolean and comparison rules of the simplifier', 'cmmc/Transforms/Combine/ArithmeticReduce.cpp')],
      ['the value of the replaced condition'], DED,
      'Each rule application is proved for all values; divisors and constants next to divisions are taken from a list of nine values (bounded). One known finding: comparisons merged through y + 1 when y + 1 wraps.', level='proof'),
    P('R06', 'Instruction selection keeps the meaning of every instruction (RISC-V)',
      'When the RISC-V back end selects machine instructions for a generic instruction, or combines machine instructions, the value left in the result register is the value the instruction computes, for all contents of the registers and all constants; loads and stores access the same address with the same width and value, and branches are taken under the same condition. '
      'A 32-bit value is kept sign-extended in its 64-bit register and a boolean is 0 or 1, and every immediate operand fits the field of the instruction that carries it.',
      ['inputs'], 'all generic and machine instructions on 32-bit and 64-bit integers, booleans and 32-bit floats that the selector can tell apart, with all definitions of their operands it looks at, all constants, all register contents (constant divisors: 39 values)',
      'Over two hundred selection patterns fire for particular operand shapes and constants; the tests compile some programs and compare texts, so a pattern that is wrong for a negative constant, a full-width constant or an unusual operand shape is not noticed.',
      ['cmmc/Target/RISCV/RISCV.yml', 'cmmc/Target/RISCV/RISCVISelInfo.cpp', 'cmmc/Target/Generic/Generic.yml', 'cmmc/CodeGen/ISelInfo.cpp'],
      [('selection patterns', 'cmmc/Target/RISCV/RISCV.yml'), ('matchAndSelect and the helper predicates', 'cmmc/Target/RISCV/RISCVISelInfo.cpp')],
      ['the emitted instructions'], DED,
      'Every path of the generated selector is proved against the semantics of RV64 for all operand values; floating point, addresses and memory uninterpreted; divisors of signed division bounded to 39 values. One known finding: quotients by some constants are not sign-extended.'),
    P('R07', 'Expanding pseudo instructions keeps their meaning (RISC-V)',
      'The instructions that replace a RISC-V pseudo instruction leave the same values in the registers and access the same memory: loading any 32-bit or 64-bit constant yields exactly that constant, a select turned into a branch picks the same operand under the same condition and writes nothing else, '
      'a load, store or address computation on a stack object uses stack pointer + object offset with its own width and value, adjusting the stack pointer adds exactly the given amount, inverting or redirecting a branch negates or keeps its condition, and the last legalisation changes no value; every immediate fits the field that carries it.',
      ['inputs'], 'all constants, all register contents, all operand shapes of the pseudo instructions, all stack offsets in the supported range',
      'Constants are split into parts with carries between them, so only particular bit patterns go wrong; the tests contain a handful of constants and frame layouts.',
      ['cmmc/Target/RISCV/RISCVISelInfo.cpp', 'cmmc/Target/RISCV/RISCV.hpp', 'cmmc/Target/RISCV/RISCVTarget.cpp'],
      [('preRALegalizeInst, postLegalizeInst, legalizeInstWithStackOperand, adjustReg', 'cmmc/Target/RISCV/RISCVISelInfo.cpp')],
      ['the emitted instructions'], DED,
      'Proved for all constants and register contents against the semantics of RV64; floating point and memory uninterpreted.'),
    P('R08', 'Instruction selection keeps the meaning of every instruction (MIPS)',
      'When the MIPS back end selects machine instructions for a generic instruction, or combines machine instructions, the value left in the result register is the value the instruction computes, for all contents of the registers and all constants; loads and stores access the same address with the same width and value, and branches are taken under the same condition. '
      'Every immediate operand fits the field of the instruction that carries it, and results of compares through the condition flag or HI/LO reach the register that is read.',
      ['inputs'], 'all generic and machine instructions on 32-bit integers, booleans and 32-bit floats that the selector can tell apart, with all definitions of their operands it looks at, all constants, all register contents (constant divisors: 39 values)',
      'The tests compare the generated text of some programs and never run MIPS code; a wrong predicate, operand order or immediate range shows only for particular comparisons and constants.',
      ['cmmc/Target/MIPS/MIPS.yml', 'cmmc/Target/MIPS/MIPSISelInfo.cpp', 'cmmc/Target/Generic/Generic.yml', 'cmmc/CodeGen/ISelInfo.cpp'],
      [('selection patterns', 'cmmc/Target/MIPS/MIPS.yml'), ('matchAndSelect and the helper predicates', 'cmmc/Target/MIPS/MIPSISelInfo.cpp')],
      ['the emitted instructions'], DED,
      'Every path of the generated selector is proved against the semantics of MIPS32 for all operand values; floating point, addresses and memory uninterpreted; divisors of signed division bounded to 39 values. Two known findings (branch on a wrapped difference, unordered float comparisons).'),
    P('R09', 'Expanding pseudo instructions keeps their meaning (MIPS)',
      'The instructions that replace a MIPS pseudo instruction leave the same values in the registers and access the same memory: constants are loaded exactly, a select turned into a branch picks the same operand under the same condition, stack objects are accessed at stack pointer + object offset, adjusting the stack pointer adds exactly the given amount, and inverting or redirecting a branch negates or keeps its condition. '
      'Filling branch delay slots changes neither the order of dependent instructions nor what is executed on either way of the branch.',
      ['inputs'], 'all constants, all register contents, all operand shapes of the pseudo instructions, all stack offsets in the supported range; delay slots: blocks of up to three instructions',
      'The tests compare a few texts and never run MIPS code; a wrong high half, an inverted condition or a moved instruction shows only for particular constants, conditions and neighbours.',
      ['cmmc/Target/MIPS/MIPSISelInfo.cpp', 'cmmc/Target/MIPS/MIPS.hpp', 'cmmc/Target/MIPS/MIPSTarget.cpp', 'cmmc/Target/MIPS/MIPSInstInfo.cpp'],
      [('preRALegalizeInst, postLegalizeInst, legalizeInstWithStackOperand, adjustReg', 'cmmc/Target/MIPS/MIPSISelInfo.cpp'), ('postLegalizeFunc (delay slots)', 'cmmc/Target/MIPS/MIPSTarget.cpp'), ('inverseBranch, redirectBranch', 'cmmc/Target/MIPS/MIPSInstInfo.cpp')],
      ['the emitted instructions'], DED,
      'Proved for all constants and register contents against the semantics of MIPS32; floating point and memory uninterpreted; delay slots bounded to blocks of three instructions.'),
    P('R10', 'Instruction selection keeps the meaning of every instruction (ARM)',
      'When the ARM back end selects machine instructions for a generic instruction, or combines machine instructions, the value left in the result register is the value the instruction computes, for all contents of the registers and all constants; loads and stores access the same address with the same width and value, and branches and conditional instructions act under the same condition. '
      'Every immediate operand fits the field of the instruction that carries it, including the rotated-byte form of flexible operands.',
      ['inputs'], 'all generic and machine instructions on 32-bit integers, booleans and 32-bit floats that the selector can tell apart, with all definitions of their operands it looks at, all constants, all register contents (constant divisors: 39 values)',
      'The tests compare the generated text of some programs and never run ARM code; negated, inverted and shifted operand forms and condition codes go wrong only for particular constants and operand shapes.',
      ['cmmc/Target/ARM/ARM.yml', 'cmmc/Target/ARM/ARMISelInfo.cpp', 'cmmc/Target/Generic/Generic.yml', 'cmmc/CodeGen/ISelInfo.cpp'],
      [('selection patterns', 'cmmc/Target/ARM/ARM.yml'), ('matchAndSelect and the helper predicates', 'cmmc/Target/ARM/ARMISelInfo.cpp')],
      ['the emitted instructions'], DED,
      'Every path of the generated selector is proved against the semantics of ARMv7 for all operand values; floating point, addresses and memory uninterpreted; divisors of signed division bounded to 39 values. One known finding: the width of ssat.'),
    P('R11', 'Expanding pseudo instructions keeps their meaning (ARM)',
      'The instructions that replace an ARM pseudo instruction leave the same values in the registers and access the same memory: a select, minimum, maximum or conditional operation turned into predicated instructions picks the same operand under the same condition, any 32-bit constant loaded in two halves is exactly that constant, stack objects are accessed at stack pointer + object offset, and adjusting the stack pointer adds exactly the given amount. '
      'A constant is taken for a flexible operand exactly if it is a byte rotated by an even amount, and inverting or redirecting a branch negates or keeps its condition.',
      ['inputs'], 'all constants, all register contents, all condition codes and flags, all operand shapes of the pseudo instructions, all stack offsets in the supported range',
      'Only particular constants, condition codes and frame layouts go wrong; the tests contain a handful of them and compare texts.',
      ['cmmc/Target/ARM/ARMISelInfo.cpp', 'cmmc/Target/ARM/ARM.hpp', 'cmmc/Target/ARM/ARMInstInfo.cpp'],
      [('preRALegalizeInst, postLegalizeInst, legalizeInstWithStackOperand, adjustReg, isOperandOp2Constant', 'cmmc/Target/ARM/ARMISelInfo.cpp'), ('inverseBranch, redirectBranch', 'cmmc/Target/ARM/ARMInstInfo.cpp')],
      ['the emitted instructions'], DED,
      'Proved for all constants, flags and register contents against the semantics of ARMv7; floating point and memory uninterpreted.'),
    P('R12', 'Constant folding computes what the program would compute',
      'If the optimiser replaces an operation on constants by a constant, then that constant is the value the operation has at run time with the wrap-around, signedness, width and rounding of its type, wherever the operation is defined; folding never crashes the compiler. '
      'Two constants are treated as the same constant only if they have the same type and the same value, and +0.0 and -0.0 are different.',
      ['inputs'], 'all values of the operands of every integer, comparison, conversion, select and floating-point operation of 1, 8, 32 and 64 bits and of 32-bit and 64-bit floats',
      'Folding happens in the 64-bit host type; a missing sign extension, a comparison of the wrong signedness or of an unordered pair shows only for values the tests do not contain.',
      ['cmmc/Transforms/Combine/ConstantPropagation.cpp', 'cmmc/IR/ConstantValue.cpp'],
      [('ConstantPropagation::runOnBlock', 'cmmc/Transforms/Combine/ConstantPropagation.cpp'), ('ConstantInteger and ConstantFloatingPoint: canonical values, isEqual', 'cmmc/IR/ConstantValue.cpp')],
      ['the instruction operands after the pass'], DED,
      'One operation on arbitrary constants; proved for all operand values (floating point in the IEEE theory of the solvers). Conversions of 64-bit integers to 32-bit floats are excluded (the front ends never form them).'),
    P('R13', 'Rewriting that relies on value ranges preserves the result',
      'If the optimiser replaces a 32-bit integer expression or comparison because of the ranges its operands lie in (decided comparisons, constants, dropped abs, min, max, unsigned instead of signed remainders, merged bound checks, merged remainders of products), '
      'then for all values within these ranges for which the original is defined the replacement is defined and has the same value.',
      ['inputs'], 'all values and all ranges of the operands of every integer instruction and comparison, over expressions of any shape the patterns look at',
      'A range check that is off by one, of the wrong signedness, or made on a range that has wrapped around shows only for values at the boundary of a range.',
      ['cmmc/Transforms/Combine/RangeAwareArithReduce.cpp', 'cmmc/Analysis/IntegerRange.cpp'],
      [('RangeAwareArithReduce::runOnBlock', 'cmmc/Transforms/Combine/RangeAwareArithReduce.cpp'), ('IntegerRange predicates and bounds', 'cmmc/Analysis/IntegerRange.cpp')],
      ['the value of the replaced instruction before and after the pass'], DED,
      'The operands are explored lazily like in R04; the range analysis enters by its contract (the range contains the value), so the proof holds for every sound analysis. 32-bit integers, the only width the analysis tracks.'),
    P('R20', 'An optimised program behaves like the program that was written',
      'For every source program and every optimisation level the compiled program prints the same output and returns the same value as the source program, whenever the source program is defined.',
      ['programs'], 'all source programs, all optimisation levels, all targets', 'The tests compile a fixed set of programs.',
      ['cmmc/Transforms', 'cmmc/CodeGen'], [('pass pipeline', 'cmmc/Transforms/TransformPass.cpp')],
      na='the property of the whole pipeline of about eighty passes over linked graphs of unbounded size: contracts that decide it amount to a verified compiler; the per-rule properties R04, R05, R06 to R13 are the parts of it brought under contract'),
    P('R21', 'Register allocation and spilling keep every value',
      'After register allocation every use of a register reads the value that was last written to the virtual register it stands for, on every path through the function.',
      ['programs'], 'all machine functions', 'The tests compile a fixed set of programs.',
      ['cmmc/CodeGen/GraphColoringRegisterAllocator.cpp', 'cmmc/CodeGen/GreedyRegisterAllocator.cpp'], [('graph colouring', 'cmmc/CodeGen/GraphColoringRegisterAllocator.cpp')],
      na='needs an inductive invariant over liveness, interference graph, coalescing and spill code of unbounded functions held in standard-library containers and lists, which the available verifiers cannot carry (no separation logic for this C++ code)'),
    P('R22', 'Loop transformations keep the iterations of a loop',
      'Unrolling, rotation, parallelisation, interchange and induction-variable rewriting execute the same loop bodies with the same values and in an order that respects their dependences.',
      ['programs', 'inputs'], 'all loops, all trip counts', 'The tests contain particular loops.',
      ['cmmc/Transforms/Loop'], [('loop passes', 'cmmc/Transforms/Loop')],
      na='the passes clone and rewire block graphs of unbounded size; a contract would have to relate executions of two graphs, which is outside what a function-by-function deductive verifier of the C++ code can express here'),
    P('R23', 'Rescheduling instructions respects their dependences',
      'The order of machine instructions after scheduling keeps every definition before its uses and the order of memory accesses that may alias.',
      ['programs'], 'all blocks of machine instructions', 'The tests contain particular blocks.',
      ['cmmc/CodeGen/Scheduler.cpp'], [('list scheduler', 'cmmc/CodeGen/Scheduler.cpp')],
      na='dependence graph and ready lists are hash maps and linked lists of unbounded size; only a bound of a few instructions would be within reach and would not exercise the scheduler'),
    P('R24', 'Accepted source text is given the meaning of the language',
      'For every source text the front ends accept exactly the programs of the language and translate each construct into code of its meaning, with the precedence, conversions and evaluation order the language defines.',
      ['programs'], 'all source texts', 'The tests contain particular programs.',
      ['cmmc/Frontend'], [('parsers and AST lowering', 'cmmc/Frontend')],
      na='the parsers are generated by flex and bison and no machine-readable specification of the languages exists to state contracts against'),
]


def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
            if p['observe']:
                a['observe_at'] = list(p['observe'])
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': [], 'not_applicable': [],
         'notes': 'check.py PROPERTY is the driver, props.py the table of translation units and jobs, harness/ the contracts, engine/ the verifier.'}
    for p in PROPS:
        if p['na']:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            m['checks'].append({'property': p['id'], 'quick_cmd': f'python3 check.py {p["id"]}', 'thorough_cmd': f'python3 check.py {p["id"]} --thorough',
                                'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)


main()
