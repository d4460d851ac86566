"""Writes properties.jsonl (kept so that the statements are edited in one place)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, (id, statement)
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe), 'hook_needed': None,
        }})

p('C01', 'Accelerated runs end exactly where the stepwise machine ends',
  'Whenever the accelerated machine reports that a program halted on an undefined instruction or spun out, the ordinary cell-by-cell Turing machine started on a blank tape does the same, in the same slot and with the same number of marks on the tape. Whenever it also reports a step count (a run in which no rule was applied), or the steps at which the tape became blank, those counts are exact, including at a step limit.',
  ['programs', 'inputs'], 'every program table and every cycle limit',
  'The existing tests of the machine need the Rust extension and do not run at all; where they run they check a few hundred hand-picked programs.',
  ['tm/machine.py', 'tm/tape.py', 'tm/prover.py', 'tm/rules.py'],
  [('run loop', 'tm/machine.py Machine.run'), ('multi-cell step', 'tm/tape.py Tape.step'), ('rule application', 'tm/rules.py apply_rule')],
  ['Machine.undfnd/spnout/xlimit/steps/marks/blanks/tape after run()'],
  [('tape', 'run-length encoded tape', 'tm/tape.py')])
p('C02', 'A verdict of "runs forever" is never given to a program that halts',
  'Whenever the machine reports that a program loops forever (a rule that can be applied without end, a repeated blank tape, or an endless macro), the ordinary machine started on a blank tape never reaches an undefined instruction. This holds with and without macros.',
  ['programs'], 'every program table, macro choice and limit',
  'A wrong verdict needs a program whose accelerated history looks periodic before it halts; the tests sample a fixed list and currently cannot run.',
  ['tm/machine.py', 'tm/rules.py', 'tm/prover.py', 'tm/macro.py'],
  [('infinite-rule detection', 'tm/rules.py make_rule'), ('blank repetition', 'tm/machine.py Machine.run'), ('macro loop detection', 'tm/macro.py MacroProg.run_simulator')],
  ['Machine.infrul'])
p('C03', 'Applying a proved rule is the same as running the machine',
  'Every time the machine skips ahead by applying a rule it has proved, the configuration it jumps to is one that the ordinary machine reaches from the configuration it jumped from.',
  ['programs', 'histories'], 'every program, every rule proved during its run, every tape the rule is matched to',
  'Rules are discovered at run time; no unit test looks at the configurations between which a rule jumps.',
  ['tm/prover.py', 'tm/rules.py', 'tm/tape.py'],
  [('rule search', 'tm/prover.py Prover.try_rule'), ('rule matching', 'tm/prover.py Prover.get_rule'), ('footprint of a proof', 'tm/tape.py EnumTape')],
  ['the tape before and after each rule application', 'the rule store of the prover'],
  [('rules', 'proved rules per slot with the least signature they need', 'tm/prover.py')])
p('C04', 'Block and back-symbol macros do not change what a program does',
  'Running a program through any block size, back-symbol width, or composition of both gives the same behaviour as running it plainly: each macro instruction is exactly the run of the base machine inside the macro cell, a macro halt is in the corresponding base configuration, and a macro is declared endless only if the base machine never leaves the cell. Looking instructions up in any order, or repeatedly, gives the same answers.',
  ['programs', 'configurations', 'histories'], 'every program, block size, back-symbol width and lookup order',
  'Existing tests compare end results for a few programs and sizes and do not run without the extension; they never look at single macro instructions.',
  ['tm/macro.py'],
  [('macro simulation', 'tm/macro.py MacroProg.run_simulator'), ('cell encoding', 'tm/macro.py TapeColorConverter'), ('shared caches', 'tm/macro.py make_converter, make_block, make_backsym')],
  ['MacroProg[slot]', 'Machine(prog, blocks=, backsym=)'],
  [('converter caches', 'colour to cell-tuple maps shared between programs', 'tm/macro.py')])
p('C05', 'The native simulator reports exact counts',
  'For every program and cycle limit, the native (Rust) simulator without the prover reports the outcome, slot, step count, marks and blank-tape steps that the cell-by-cell machine has. A program it calls infinite never halts.',
  ['programs', 'inputs'], 'every program table and limit',
  'No Rust code is compiled or run by the tests that work here, and its own tests check a few programs.',
  ['src/machine.rs', 'src/tape.rs', 'src/instrs.rs'],
  [('run loop', 'src/machine.rs run_quick_machine'), ('multi-cell step', 'src/tape.rs Tape::step')],
  ['MachineResult fields'])
p('C06', 'The native prover is sound',
  'Whenever the native prover reports a halt or a spin-out, the cell-by-cell machine ends in the same slot with the same number of marks; whenever it reports an infinite rule, the program never halts. It never returns counts that have silently wrapped around.',
  ['programs', 'inputs'], 'every program table and limit',
  'The native prover is not compiled by the tests that run here; its own tests pin three programs.',
  ['src/prover.rs', 'src/rules.rs', 'src/machine.rs', 'src/tape.rs'],
  [('rule search', 'src/prover.rs Prover::try_rule'), ('rule application', 'src/rules.rs apply_rule'), ('proof footprint', 'src/tape.rs EnumTape')],
  ['run_prover result'])
p('C07', 'The quick recurrence filter only drops programs that never halt',
  'When the quick filter says that a (normal form) program terminates trivially or is recurrent, the program never reaches an undefined instruction.',
  ['programs', 'inputs'], 'every program starting with 1RB, and every limit',
  'It decides which programs are thrown away while enumerating; a wrong drop is silent.',
  ['src/machine.rs', 'src/tape.rs'],
  [('translated-cycle detection', 'src/machine.rs quick_term_or_rec'), ('alignment', 'src/tape.rs Alignment::aligns_with')],
  ['py_quick_term_or_rec'])
p('C08', 'A refutation of halting means the program never halts',
  'When backward reasoning says that a program cannot halt, the program started on a blank tape never reaches an undefined instruction. Searching deeper never withdraws or changes a refutation.',
  ['programs', 'inputs'], 'every program table and search depth',
  'A refutation is a universal statement about all predecessors; the tests only check fixed lists of names.',
  ['src/reason.rs'],
  [('backward search', 'src/reason.rs cant_reach')], ['py_cant_halt'])
p('C09', 'A refutation of blanking means the tape never becomes blank',
  'When backward reasoning says that a program cannot blank the tape, the program started on a blank tape never returns to an all-blank tape after its first write.',
  ['programs', 'inputs'], 'every program table and search depth',
  'As for halting: a fixed list of programs is checked, and only with the extension present.',
  ['src/reason.rs'],
  [('backward search', 'src/reason.rs cant_reach')], ['py_cant_blank'])
p('C10', 'A refutation of spinning out means the program never spins out',
  'When backward reasoning says that a program cannot spin out, the program started on a blank tape never enters a self-loop on blank cells heading into the blank end of the tape.',
  ['programs', 'inputs'], 'every program table and search depth',
  'As for halting.',
  ['src/reason.rs'],
  [('backward search', 'src/reason.rs cant_reach')], ['py_cant_spin_out'])
p('C11', 'Segment analysis only refutes programs that never halt',
  'When segment analysis says that a program cannot halt, for any number of segments, the program started on a blank tape never reaches an undefined instruction. The analysis always gives an answer.',
  ['programs', 'inputs'], 'every program table and segment bound',
  'Not compiled by the tests that run here; fixed lists otherwise.',
  ['src/segment.rs'],
  [('segment search', 'src/segment.rs segment_cant_halt')], ['py_segment_cant_halt'])
p('C12', 'Program enumeration is complete, duplicate free and schedule independent',
  'Enumerating the programs of given dimensions lists exactly the leaves of the normal-form tree: starting from 1RB, each undefined slot is filled when and only when the run reaches it within the limit, with new states and colours taken in order, until one slot is left (when halting is wanted) or none. Only programs that use the last state and colour are listed, each once, well formed and of the right dimensions. The set does not depend on the number of threads or their timing.',
  ['programs', 'schedules', 'configurations'], 'all dimensions, modes, simulation limits, thread counts and interleavings',
  'Only result counts for two or three dimensions are pinned in tests that cannot run here; nothing tests schedules.',
  ['src/tree.rs', 'src/machine.rs'],
  [('tree search', 'src/tree.rs tree_progs'), ('parallel split and shared result', 'src/tree.rs')],
  ['tree_progs'])
p('C13', 'Program text round-trips',
  'Reading a program from text and writing it back gives the same text, writing a program table and reading it back gives the same table, and the same is true of single instructions, slots and states. Undefined instructions are preserved and never confused with defined ones.',
  ['inputs', 'programs'], 'every well-formed program text and table of up to 26 states and 10 colours',
  'The tests use short lists of programs.',
  ['src/instrs.rs', 'tools/__init__.py', 'tm/parse.py', 'tm/show.py', 'src/lib.rs'],
  [('reader and writer', 'src/instrs.rs Parse'), ('python reader', 'tools/__init__.py')],
  ['tcompile', 'py_show_comp', 'read_*/show_*', 'tools.parse'])
p('C14', 'Graph views agree with the program table',
  'The state graph of a program has exactly the transitions of its table, and every derived answer (connectedness, entry and exit points, dispersion, reflexive and irreflexive states, normal form, simplification) is the one that follows from that graph. The Python and the native implementation agree on connectedness, and a program is never called disconnected if its graph is strongly connected.',
  ['programs'], 'every program table',
  'Tests pin a few graphs.',
  ['tools/graph.py', 'src/graph.rs', 'tools/dot.py'],
  [('graph', 'tools/graph.py Graph'), ('native connectedness', 'src/graph.rs is_connected')],
  ['Graph properties', 'py_is_connected', 'dot output'])
p('C15', 'Normalizing a program keeps its behaviour and is canonical',
  'Normalizing a program gives a program that makes the same run from the first mark on: same halting, steps and tape up to the names of states and colours and the mirror image. For a program whose states and colours are all reached and mentioned before they are needed, normalizing again changes nothing, and programs that differ only by names or direction normalize to the same text.',
  ['programs'], 'every program table; the canonical form for those whose order of mention is settled',
  'Tests pin pairs of programs.',
  ['tools/normalize.py', 'normalize.py'],
  [('renaming', 'tools/normalize.py Normalizer')],
  ['normalize()', 'normalize.py output'])
p('C16', 'Instruction sequences and tree-normal forms describe the actual run',
  'The instruction sequence of a program lists, in order, the partial programs obtained by running it from a blank tape and revealing one instruction whenever an undefined slot is reached; each partial program stops at the stated step and slot. The tree-normal form of a program is the same program with its states and colours named in the order in which its run meets them.',
  ['programs'], 'every program table',
  'Tests pin a dozen sequences.',
  ['tools/instr_seq.py', 'tools/tree_norm.py', 'instr_seq.py'],
  [('sequence', 'tools/instr_seq.py'), ('tree normal form', 'tools/tree_norm.py')],
  ['instr_seq()', 'tree_norm()'])
p('C17', 'Symbolic arithmetic is exact',
  'Adding, subtracting, negating, multiplying, dividing exactly and raising to a (positive, symbolic) power with symbolic numbers gives a number whose value is exactly the value of the same operation on the integers they stand for. When the library cannot do an operation it refuses with an error (NotImplementedError, AssertionError, ExpModLimit, ModDepthLimit, ValueError, OverflowError, RecursionError) rather than return a wrong number.',
  ['inputs', 'histories'], 'every combination of symbolic numbers and integers, in any order of construction',
  'The tests check listed identities and a handful of generated values; rewriting rules interact.',
  ['tm/num.py'],
  [('rewriting constructors and operators', 'tm/num.py Add, Mul, Div, Exp, Tet')],
  ['operators of tm.num numbers, int()'])
p('C18', 'Remainders of symbolic numbers are exact',
  'The remainder of any symbolic number, however large, modulo any positive integer is the true remainder; divisibility tests and exact divisions that rest on it agree. When the library cannot compute a remainder it refuses with an error.',
  ['inputs', 'histories'], 'every symbolic number, including towers far too large to expand, and every modulus',
  'The special-case tables and period arguments are checked for a few bases, and towers cannot be expanded to compare.',
  ['tm/num.py'],
  [('modular exponentiation', 'tm/num.py exp_mod, find_period, exp_mod_special_cases'), ('remainder', 'tm/num.py __mod__')],
  ['% and divmod of tm.num numbers'])
p('C19', 'Comparisons of symbolic numbers are right',
  'Comparing positive symbolic numbers with each other or with positive integers gives the true order of their values; equality holds only between equal values. When the library cannot decide, it refuses with an error. (Counts are positive; numbers with a negative symbolic factor, and powers with exponents so small that ordinary integers outweigh them, are outside this.)',
  ['inputs', 'histories'], 'every pair of symbolic numbers, including ones too large to expand',
  'The rules compare by shape and by estimates; the tests list known pairs.',
  ['tm/num.py'],
  [('order', 'tm/num.py __lt__ and estimates')],
  ['<, <=, >, >=, == of tm.num numbers'])
p('C20', 'Symbolic numbers are well-behaved values',
  'Building the same expression twice gives the same number however the library was used before, numbers never change after they are built, printing a number and evaluating the text gives its value (unless the text is abbreviated), and the estimate of a positive number has its number of digits to within a few, or its height as a tower of tens. Working on one number never changes the value of another.',
  ['inputs', 'histories'], 'every history of operations in one process',
  'Tests run on fresh caches in one order.',
  ['tm/num.py'],
  [('shared caches', 'tm/num.py make_add, make_mul, make_div, make_exp'), ('estimates', 'tm/num.py estimate, digits')],
  ['identity, str, estimate, digits, depth'],
  [('hash-consing caches', 'canonical nodes', 'tm/num.py')])
p('C21', 'An inferred rule reproduces the counts it was inferred from, any number of times',
  'A rule inferred from four successive block-count observations predicts the third and fourth from the earlier ones, and applying a rule to a tape gives the counts that repeating its single step the reported number of times gives. The number of repetitions is the largest that leaves every decreasing count at least one, and a rule is reported infinite only if nothing in it decreases.',
  ['inputs'], 'every tuple of counts (small, huge and symbolic), every rule and every tape',
  'Tests list examples of each rule kind.',
  ['tm/rules.py', 'src/rules.rs'],
  [('inference', 'tm/rules.py make_rule'), ('application', 'tm/rules.py apply_rule, apply_mult, apply_ops')],
  ['make_rule, apply_rule'])
p('C22', 'The compressed tape is the plain tape',
  'After any sequence of steps, the run-length tape represents exactly the cells that an ordinary tape has after the corresponding single-cell steps, and the step counts, marks, blank and edge answers are those of that tape. It stays in canonical form: no empty blocks, no equal neighbours, no trailing blanks; and copies do not share state.',
  ['inputs', 'histories'], 'every tape and every sequence of steps, copies and counts changes',
  'Tests replay a few sequences.',
  ['tm/tape.py', 'src/tape.rs'],
  [('pull and push', 'tm/tape.py Tape.step'), ('copy', 'tm/tape.py clone, to_enum')],
  ['Tape spans, scan, marks, blank, at_edge, signature'])
p('C23', 'The recorded footprint of a proof covers everything the proof depended on',
  'After any sequence of steps and rule applications, the recorded depth into each side and the recorded touching of each end are enough: any other tape that agrees with the original on that part, and is blank beyond where an end was touched, takes the same steps with the same effect on that part, and no block beyond it has changed. It never claims to have looked deeper than the tape is.',
  ['inputs', 'histories'], 'every tape and every sequence of steps and count reads',
  'Tests check a few recorded offsets.',
  ['tm/tape.py', 'src/tape.rs'],
  [('recording', 'tm/tape.py EnumTape')],
  ['EnumTape.offsets, edges'])
p('C24', 'Generated C programs do what the Turing machine does',
  'The C program generated for a Turing machine performs exactly the steps of that machine, stops where it halts (an undefined instruction writes a 1, moves right and stops) or where its tape becomes blank, and its counter and its marks are then those of the machine. It never reads or writes outside its tape as long as the run fits the tape it declares.',
  ['programs'], 'every program table whose run fits the generated tape',
  'Tests compare generated text for a few machines; nothing compiles or runs it.',
  ['tools/c.py', 'c_prog.py'],
  [('generator', 'tools/c.py make_c')],
  ['generated source, its execution under sanitizers'])
p('C25', 'The C enumerators report the right machines and counts',
  'For every list of programs on standard input, each C enumerator runs every program of its own format in turn until it halts, blanks its tape or is about to repeat itself forever on unvisited tape, and prints, for exactly those programs that do so within its limits, the program with its true step count, once and in order, and finishes with its closing line. It never reads or writes outside its buffers.',
  ['inputs', 'programs'], 'every input list of programs of the enumerator\'s dimensions',
  'Only compilation and one run on a fixed input are exercised; the output is not compared with anything.',
  ['machines/2-2.c', 'machines/2-3.c', 'machines/2-4.c', 'machines/3-2.c', 'machines/4-2.c', 'machines/5-2.c'],
  [('dispatch loop', 'machines/*.c')],
  ['standard output', 'AddressSanitizer/UBSan'])
p('C26', 'The structured C programs are faithful translations',
  'Each hand-structured C program performs, step by step, the same run as the Turing machine it is a translation of, and stops after exactly the number of steps it is named after, with its tape as the machine leaves it, and without reading or writing outside its tape. (Three programs return at once because they take too long; it is the code behind that return that is meant.)',
  ['programs', 'histories'], 'the whole run of each program',
  'The programs only compare their own counter with a constant, and some return before the comparison.',
  ['machines/structured'],
  [('control flow', 'machines/structured/*.c'), ('step macros', 'machines/structured/machine.h')],
  ['trace of writes and moves', 'sanitizers'])
p('C27', 'The command line tools process every input line, in order',
  'For every list of programs on standard input, each filter script (run, normalize, instruction sequences, C programs, measurements, macros, graphs) writes exactly one result for every line, in input order, equal to what the library function gives for it; no line is lost, repeated or mixed with another. The graph script draws the graph of each line exactly once, into a file named after it. The history that run.py prints consists of configurations that the machine really passes through, in order.',
  ['inputs', 'configurations'], 'every input list and every kind of standard output (terminal, file, pipe)',
  'No test runs the scripts.',
  ['run.py', 'normalize.py', 'instr_seq.py', 'c_prog.py', 'measure.py', 'dump_macros.py', 'dump_graphs.py'],
  [('loops over standard input', 'the scripts')],
  ['standard output of the scripts'])
p('C28', 'The parallel holdout filter prints each survivor exactly once',
  'For every list of programs, the parallel filter prints exactly the programs that the chosen decider, with the cycles or segments asked for, does not refute, each once and intact, whatever the number of worker processes, their timing, and whether the output is a terminal, a file or a pipe.',
  ['inputs', 'schedules', 'configurations'], 'every input list, worker count, schedule and output kind',
  'No test runs it; loss and interleaving need several workers and a pipe.',
  ['just_so.py'],
  [('worker pool', 'just_so.py'), ('per-worker output', 'just_so.py')],
  ['standard output of the script'])
p('C29', 'Results do not depend on what was run before',
  'Running a program gives the same result in a fresh process as after any history of other programs, macros and symbolic computations in the same process, and running the same machine object again, whatever its limit was before, gives the same result as a new one. The same holds for macros, the deciders, symbolic arithmetic and the tools.',
  ['histories', 'programs'], 'every history of runs in one process',
  'The tests run in one fixed order and never compare with a fresh process.',
  ['tm/num.py', 'tm/macro.py', 'tm/machine.py', 'tm/prover.py'],
  [('process-wide caches', 'tm/num.py, tm/macro.py')],
  ['all results of Machine'],
  [('caches', 'number, converter and logic caches', 'tm/num.py, tm/macro.py')])
p('C30', 'The Python and the native implementations agree',
  'Wherever a computation exists both in Python and in the native code (running a program, macros, block-size choice, recurrence search state, connectedness), the two give the same answers, and the helper that schedules rule attempts proposes exactly the repetition intervals that follow from the cycles it was shown.',
  ['programs', 'histories'], 'every program, limit and sequence of observations',
  'No test compares the two.',
  ['src/machine.rs', 'src/macros.rs', 'src/prover.rs', 'src/blocks.rs', 'tm/machine.py', 'tm/macro.py'],
  [('rule scheduling', 'src/prover.rs PastConfigs'), ('native macros', 'src/macros.rs'), ('block choice', 'src/blocks.rs')],
  ['both implementations on the same program'])
p('C31', 'The Idris proofs check',
  'The Idris development type-checks, so the statements proved in it hold.',
  ['programs'], 'all statements in the development',
  'Nothing builds it.',
  ['idris'],
  [('dependent types', 'idris')])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
