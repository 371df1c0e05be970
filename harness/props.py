"""The properties, and what MANIFEST.json says of each.  `python3
harness/props.py` rewrites properties.jsonl and MANIFEST.json from here."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

P = []      # properties
M = {}      # id -> (technique, note)
NA = {}     # id -> reason


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=None, state=None, technique=None, note=None, na=None):
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s))
                      for s in state or []],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': observe or [],
            'hook_needed': None}})
    if technique:
        M[id] = (' '.join(technique.split()), ' '.join(note.split()))
    else:
        NA[id] = na or 'no check built yet'


PROGS = ['programs', 'inputs']

prop('C01', 'Arithmetic on symbolic numbers is exact',
     """Adding, subtracting, multiplying, exactly dividing, negating and raising
     symbolic numbers (sums, products, quotients and powers kept as formulas)
     gives a number whose mathematical value is the exact result of the same
     operation on the operands' values. An operation either gives that number or
     refuses with an error; it never gives a formula or an integer of another
     value.""",
     ['inputs', 'histories'],
     """every pair of symbolic numbers reachable by the operations from integers
     and powers of the bases in use, small, large, negative and nested""",
     """The unit tests check some dozens of identities; a rewriting rule is wrong
     only for particular shapes, signs and nestings of both operands, and there
     are thousands of combinations of these.""",
     ['tm/num.py'],
     [('rewriting constructors', 'tm/num.py: make_add, make_mul, make_div, make_exp'),
      ('operators', 'tm/num.py: Num, Add, Mul, Div, Exp __add__ ... __floordiv__')],
     ['value of the result, evaluated independently']
     , technique="""bounded exhaustive exploration of operation sequences on the
     real number classes against an exact hereditary-representation model""",
     note="""Every operation on every pair of the generated numbers (all shapes to
     two or three operations deep over bases 2, 3, 4, 6, 7, 8, 10 and a fixed set of
     leaves, small, large, negative, towers); refusals are allowed. Trusts the
     reference arithmetic in harness/numref.py.""")

prop('C02', 'Remainders of symbolic numbers are exact',
     """The remainder of a symbolic number by a positive integer, and the quotient
     and remainder together, are those of its mathematical value, however large
     that value is. The computation either gives that remainder or refuses with an
     error.""",
     ['inputs'],
     """every symbolic number and every modulus""",
     """Powers are reduced by hand-written tables of cycles per base and modulus;
     tests sample a few exponents, while a wrong entry shows only for one residue of
     the exponent and one modulus.""",
     ['tm/num.py'],
     [('modular exponentiation', 'tm/num.py: Exp.__mod__, exp_mod_special_cases'),
      ('remainders of sums, products, quotients', 'tm/num.py: Add/Mul/Div.__mod__')],
     technique="""bounded exhaustive enumeration of numbers and moduli on the real
     number classes against an exact model""",
     note="""All moduli 1..48 and the larger ones that occur in rule periods, every
     exponent residue in a window of up to 1500 consecutive exponents and towers, for
     each base. Trusts harness/numref.py.""")

prop('C03', 'Answered comparisons of symbolic numbers are right',
     """When two symbolic numbers, or one and an integer, are compared with <, <=, >,
     >=, == or !=, the answer is the one for their mathematical values, or the
     comparison refuses with an error. Building the same number in the same way
     twice gives equal numbers that hash alike.""",
     ['inputs', 'histories'],
     'every pair of symbolic numbers reachable by the operations',
     """Ordering is decided by estimates and special cases per pair of shapes; the
     tests sample a few pairs and cannot settle all shapes and signs.""",
     ['tm/num.py'],
     [('ordering', 'tm/num.py: __lt__ of Add, Mul, Div, Exp'),
      ('hash-consing', 'tm/num.py: ADDS, MULS, DIVS, EXPS, make_*')],
     technique="""bounded exhaustive enumeration of pairs on the real number classes
     against an exact model""",
     note="""All ordered pairs of the generated numbers for each base. A listed set
     of wrong answers (close values, nested towers, negative factors) is a recorded
     finding, counted per base, operator and operand kinds: more of them is a
     violation. Trusts harness/numref.py.""")

prop('C05', 'The compressed tape is a faithful tape',
     """After any sequence of moves, single steps and block jumps alike, the
     compressed tape represents exactly the cells that the same moves leave on an
     ordinary tape, with the head on the same cell. Its derived answers (blank,
     at the edge, marks, counts, signature, rendering) are those of that
     ordinary tape, and a copy never changes with its original.""",
     ['histories', 'inputs'],
     """every sequence of head moves, with and without jumping over a block, on every
     starting tape""",
     """The tape tests replay a handful of sequences; merging, splitting and emptying
     of blocks at both ends depend on the whole history of the tape.""",
     ['tm/tape.py', 'src/tape.rs'],
     [('moves', 'tm/tape.py: HeadTape.step; src/tape.rs: step, Span::push/pull'),
      ('derived answers', 'tm/tape.py: blank, at_edge, marks, counts, signature')],
     technique="""breadth-first exhaustive state-space exploration of the real tape classes in
     lock step with a plain-cell model""",
     note="""Every reachable tape up to a width and depth for 2, 3 and 4 colours, every
     move from each; every straight sequence of moves to a smaller depth without
     merging states. Trusts the plain cells in harness/cells.py and tapes.rs.""")

prop('C06', 'Inferred rules depend only on what was touched',
     """When a loop of steps is replayed to learn which part of the tape it depends
     on, the part reported is enough: any tape that agrees on it goes through the
     same transitions with the same change to the touched blocks. Rules taken from
     the replay never depend on blocks outside the part reported.""",
     ['programs', 'histories'],
     'every tape and every sequence of steps that the replay covers',
     """The recorded part depends on the order of merges and splits along the replay;
     the tests look only at final verdicts of known programs.""",
     ['tm/tape.py', 'src/tape.rs', 'tm/prover.py', 'src/prover.rs'],
     [('offset tracking', 'tm/tape.py: EnumTape, TagTape; src/tape.rs: EnumTape'),
      ('minimal signature', 'tm/prover.py: get_min_sig; src/prover.rs')],
     technique="""exhaustive enumeration of tapes and move sequences on the real classes, with
     every pair of agreeing tapes compared""",
     note="""All tapes within stated sizes, all move sequences to a depth. The sequence is
     given, not chosen by a program. Trusts the plain cells in harness/cells.py.""")

prop('C07', 'Tape rules do what repeating the loop would do',
     """A rule inferred from the block counts of successive repetitions predicts
     them all, and applying a rule to a tape gives exactly the counts that repeating
     it the same number of times by hand gives, stopping before any count would
     vanish. A rule that is not applied leaves the tape as it was.""",
     ['inputs', 'histories'],
     """every rule (additive and multiplicative, with signs) and every tape""",
     """The rule tests are a few dozen examples; the number of repetitions and the
     counts depend on divisibility, signs and on which block runs out first.""",
     ['tm/rules.py', 'src/rules.rs'],
     [('inference', 'tm/rules.py: make_rule, calculate_diff; src/rules.rs: make_rule'),
      ('application', 'tm/rules.py: apply_rule, apply_add, apply_mult; src/rules.rs: apply_rule')],
     technique="""exhaustive enumeration of count histories and of rules times tapes on the real
     functions, against repetition by hand""",
     note="""All four-tuples of counts to a bound plus edges of the machine integers, rule
     components -3..3 and multiplicative ones over all counts to a bound, and a fixed
     set of symbolic counts. Trusts harness/numref.py.""")

prop('C08', 'The accelerated Python run only visits reachable configurations',
     """Running a program on the accelerated Python machine, with blocks of cells
     moved at once and loops applied as rules, shows only configurations that the
     program really reaches from the blank tape, in that order. The way the run ends
     (halted, spun out, blank again, infinitely repeating, undefined instruction) and
     the steps and marks it states are true of the program.""",
     ['programs', 'histories'],
     'every program and every step limit',
     """The Python suites run famous programs and compare one figure; whether each
     rule application is sound depends on the program's whole history.""",
     ['tm/machine.py', 'tm/prover.py', 'tm/rules.py', 'tm/tape.py'],
     [('run loop', 'tm/machine.py: Machine.run'),
      ('loop detection', 'tm/prover.py: Prover.test_rule, PastConfig')],
     technique="""exhaustive enumeration of programs, each run of the real
     implementation followed configuration by configuration by a plain machine""",
     note="""All 2-state 2-symbol programs, all normal-form programs of 3x2 and 2x3
     (and those of 4x2, 2x4 a plain run leaves open, in part). Every configuration
     shown must occur on the plain machine within its horizon; symbolic counts that
     cannot be written out are not followed. Trusts the plain machine in rust/.""")

prop('C09', 'Macro machines do what the underlying machine does',
     """A machine built over blocks of cells, over a back symbol, or over any stack
     of these, behaves as the program underneath: each of its steps stands for the
     exact run of the program on those cells, and a missing step means that this run
     never leaves them. A run on such a machine ends only as the program does.""",
     ['programs', 'configurations', 'histories'],
     'every program, block size, back-symbol size and stacking of the two',
     """Tests compare final figures for some listed programs and block sizes; a wrong
     block instruction shows only for cells that the sampled programs never meet.""",
     ['tm/macro.py', 'tm/machine.py', 'tm/parse.py'],
     [('block instructions', 'tm/macro.py: MacroProg.calculate_instr, run_simulator'),
      ('colour conversion', 'tm/macro.py: BlockLogic, BacksymbolLogic, CONVERTERS'),
      ('memo', 'tm/macro.py: MacroProg.instrs')],
     technique="""exhaustive enumeration of programs x macro configurations x
     macro (state, symbol) pairs on the real code, each macro instruction compared
     with the window run of the plain machine""",
     note="""Every (state, symbol) pair reachable in a run, for ten stackings of
     block sizes 1-4 and back-symbol sizes 1-3. Trusts the cell-level
     interpreter in harness/checks/c09.py.""")

prop('C10', 'The fast native run is exactly the program',
     """For every program and step limit the native block-compressed run states the
     step count, marks, rulapp count, blank-tape events and ending (halt slot,
     spin-out, limit, infinite blank) that the same program has on an ordinary tape
     within that limit.""",
     ['programs', 'inputs'],
     'every program and step limit',
     """The tests list known programs with their known ends; off-by-one steps at a
     limit, at a jump or at the tape's edge need the unlisted ones.""",
     ['src/machine.rs', 'src/tape.rs', 'src/instrs.rs'],
     [('run loop', 'src/machine.rs: run_quick_machine'), ('tape', 'src/tape.rs: Tape, BasicTape')],
     technique="""exhaustive enumeration of programs and limits on the real compiled
     code against a plain reference machine""",
     note="""All 2x2 programs, all 2x3 ones starting 1RB, all normal-form 3x2 and 2x3
     with many limits. Trusts the plain machine in rust/checker/src/refm.rs.""")

prop('C11', 'The native accelerated run only visits reachable configurations',
     """Running a program on the native machine with rules ends as the program does:
     a stated halt, spin-out, undefined instruction, blank tape, step or mark figure
     is true of it, and a program it calls infinite really never halts. Every
     configuration the run passes through occurs in the program's own run.""",
     ['programs', 'histories'],
     'every program and step limit',
     """Tests list known programs; soundness of each rule depends on the history of
     the tape, and only a search over all programs reaches the rare shapes.""",
     ['src/machine.rs', 'src/prover.rs', 'src/rules.rs', 'src/tape.rs'],
     [('run loop', 'src/machine.rs: run_prover'),
      ('loop detection', 'src/prover.rs: Prover::try_rule'),
      ('application', 'src/rules.rs: apply_rule')],
     technique="""exhaustive enumeration of programs on the real compiled code,
     verdicts and each configuration compared with a plain reference machine""",
     note="""All 2x2 programs, normal-form 3x2, 2x3 and 2x4. Twenty-nine recorded
     programs for which the run leaves the program's own run are known findings.
     Trusts the plain machine; infinite verdicts are refuted only by a halt within
     the reference's horizon.""")

prop('C12', 'A claim that a program cannot halt, blank or spin out is true',
     """When backward reasoning says a program can never halt, never make the tape
     blank again, or never spin out, then no run of it from the blank tape ever does.
     This holds for every search depth.""",
     ['programs', 'inputs'],
     'every program and every depth',
     """A false claim silently drops programs from a search; tests list some programs
     known to be accepted or refused, and cannot cover the depth of every refutation.""",
     ['tm/reason.py', 'src/reason.rs', 'src/lib.rs'],
     [('backward search', 'src/reason.rs: cant_reach, get_valid_steps'),
      ('backward tape', 'src/reason.rs / tape.rs: Backstepper')],
     technique="""exhaustive enumeration of programs and depths on the real compiled
     code; every refutation checked against the plain machine's run""",
     note="""All 2x2 programs, normal-form 3x2, 2x3, 4x2. Claims about programs that
     never come back to the start state's first slot, or that lead to undefined rows
     or columns, are recorded findings, counted per class.""")

prop('C13', 'A segment-based claim that a program cannot halt is true',
     """When the bounded-segment search says that a program cannot halt, then no run of it from the blank tape ever does, for every segment
     size.""",
     ['programs', 'inputs'],
     'every program and every segment size',
     """The claims are absolute and used to discard programs; the tests check a list
     of programs.""",
     ['src/segment.rs', 'src/lib.rs'],
     [('segment search', 'src/segment.rs: segment_cant_reach, Configs, Tape')],
     technique="""exhaustive enumeration of programs and segment sizes on the real
     compiled code; every refutation checked against the plain machine's run""",
     note="""All 2x2 programs, normal-form 3x2, 2x3 and 4x2. A refutation is wrong if
     the program halts within the reference's horizon.""")

prop('C14', 'A claim of termination or recurrence is true',
     """When the quick test says a program either ends or falls into exact recurrence
     within a limit, the program really halts, spins out or repeats itself with a
     shift.""",
     ['programs', 'inputs'],
     'every program starting with the standard first instruction, and every limit',
     """The test decides from where the head was and a tape comparison; whether it is
     right depends on the history, and a wrong yes drops a program from a search.""",
     ['src/machine.rs', 'src/tape.rs'],
     [('recurrence test', 'src/machine.rs: quick_term_or_rec'),
      ('tape comparison', 'src/tape.rs: HeadTape::aligns_with')],
     technique="""exhaustive enumeration of programs and limits on the real compiled
     code against a plain machine with exact recurrence detection""",
     note="""All 2x2 programs starting 1RB and all normal-form 3x2, 2x3 and 4x2 ones.
     Trusts the plain machine.""")

prop('C15', 'The tree search misses no program and repeats none',
     """For given states, colours, halting goal and limit, the search over programs
     hands over, once each, exactly the programs that start 1RB, have their names in
     order, give instructions only to slots that their run comes to, and go on until
     the run spins out, goes blank, takes the limit of sweeps without a new slot, or all
     slots (but one for halting) are given; but for those of a smaller size. So every
     table is represented by one of them, and the result does not depend on how work is
     spread over threads.""",
     ['schedules', 'configurations', 'programs'],
     'every parameter setting and every thread schedule',
     """The tests compare counts for a few settings on one schedule; a lost branch and
     a duplicated one cancel in a count.""",
     ['src/tree.rs', 'branch.py'],
     [('branching', 'src/tree.rs: branch, leaf'),
      ('filters', 'src/tree.rs: run_for_undefined, tree_progs'),
      ('threads', 'src/tree.rs: build_tree')],
     technique="""exhaustive enumeration of the search space by a second search and, for 2x2, 3x2,
     2x3, of all tables: the programs handed over by the real search are compared one by one""",
     note="""Sizes up to 4x2 and 2x4 in full, 2x5, 3x3, 5x2 with small limits; limits 1 to
     876; 1, 3 and 8 threads (thread interleavings are not controlled: what tasks share is
     one locked list).""")

prop('C16', 'Program notation is read and written without change',
     """Reading a program text and writing it back gives the same text, and every
     reader in the project gives the same instruction for the same slot. Blank slots,
     states and colours are read the same everywhere.""",
     ['programs', 'inputs'],
     'every program in the notation, of any size it allows',
     """Parsers exist several times (two languages, tuples and strings); tests parse a
     few programs, while the error cases lie in columns, blanks and large indices.""",
     ['tm/parse.py', 'tm/show.py', 'src/instrs.rs', 'tools/instr_seq.py'],
     [('reading', 'tm/parse.py; src/instrs.rs'), ('writing', 'tm/show.py')],
     technique="""exhaustive enumeration of programs by size and content on the real readers and
     writers, against a reader of its own""",
     note="""All instructions and slots of the notation (26 states, 10 colours); all 2x2
     programs, all tree-generated 2x3 and 3x2 ones; for every size to 16 slots each
     single instruction in an empty and in a full table. Native readers are called
     through the C bridge.""")

prop('C17', 'Normalising a program keeps its behaviour',
     """The normal form of a program runs as the program does, up to the renaming of
     states and colours and mirroring that normalising is. Normalising a normal form
     changes nothing, and programs that differ only by such renaming have one normal
     form, wherever naming in the order of first use leaves no choice: reading the
     table by rows, each row and column has its name before it is read.""",
     ['programs'],
     'every program, partial ones included',
     """Tests normalise a list of programs; the order in which states, colours and
     directions are settled matters only for particular instruction tables.""",
     ['tools/normalize.py'],
     [('normaliser', 'tools/normalize.py: Normalizer.normalize')],
     technique="""exhaustive enumeration of programs and of their renamings on the real
     normaliser, with a bisimulation check of each result""",
     note="""All 2x2 programs, all programs of up to three instructions in 3x2 and 2x3, two in
     3x3, 4x2, 2x4, 5x2, and tree-generated ones, each under all its names.""")

prop('C18', 'The recorded instruction order is the order of first use',
     """The instruction sequence of a program lists exactly its instructions in the
     order its run first needs them, and each partial program with the slot stated
     next to it really stops at that slot. The tree normal form of a program is the
     program with its states and colours named in the order its run first visits
     them, whatever names they had.""",
     ['programs'],
     'every program',
     """Tests list a few sequences; the order follows from the run.""",
     ['tools/instr_seq.py', 'tools/tree_norm.py'],
     [('sequence', 'tools/instr_seq.py: instr_seq'), ('normal form', 'tools/tree_norm.py')],
     technique="""exhaustive enumeration of programs and renamings on the real tools against
     step-by-step runs""",
     note="""All 2x2 programs that start 1RB, tree-generated 2x3 and 3x2, open 4x2, 2x4, 3x3
     ones with few instructions; runs that do not tell within 3000 steps are left out.""")

prop('C19', 'Generated C code runs the program it was made from',
     """The C source generated for a program compiles with machine.h, and run, takes the
     same steps to the same cells and keeps the same marks as the program, with 1RH
     where the program has no instruction, until it halts, goes blank, or spins out.""",
     ['programs'],
     'every program and every tape it can be started on',
     """Tests compile the few checked-in files; the generator's output for other tables
     is never compiled.""",
     ['tools/c.py', 'machines/structured/machine.h'],
     [('generator', 'tools/c.py: make_c')],
     technique="""exhaustive enumeration of programs and tapes: the generated code is compiled with
     callbacks at every basic block and stopped at every step next to the table's run""",
     note="""All 2x2 programs, tree-generated 3x2 and 2x3, every place of a single
     instruction for the shapes up to 12 states by 10 colours; blank tape and every tape of 4 or
     5 cells, 300 steps.""")

prop('C20', 'Each hand-structured C program is its stated program',
     """Every structured C machine writes what the table program it is a rewriting of
     writes, on the same cells, in the same order, on every tape that is blank where the
     file takes it to be (it writes some cells at once); started on the blank tape it
     stays on the cells it has.""",
     ['programs', 'histories'],
     'every such file, and every tape it can be started on',
     """The tests run each from the blank tape and compare one printed line, which a
     wrong branch off the sampled path leaves as it is.""",
     ['machines/structured'],
     [('structured programs', 'machines/structured/*.c')],
     technique="""exhaustive enumeration of starting tapes: the real file is compiled with callbacks
     at every basic block and stopped at every step next to the table's run""",
     note="""Blank tape to the end or 60 million steps, and all contents of the cells around those
     assumed blank (up to 70000: 16 cells with 2 colours, 6 with 5), 2000 steps each. Only steps at which the code has a branch are
     looked at.""")

prop('C21', 'A C enumerator reports each program as if it were alone',
     """The C enumerators report, for each program read from their input that halts, goes
     blank or spins out before their limit, its number, table, steps and marks, whatever
     programs came before it on the stream, and stay on the cells they have.""",
     ['histories', 'programs'],
     'every sequence of programs on the input',
     """Tests feed one fixed list; a variable not reset between programs shows only
     for particular successions.""",
     ['machines/2-2.c', 'machines/machine.h'],
     [('loop over programs', 'machines/*.c')],
     technique="""exhaustive enumeration of input histories: all ordered pairs and triples of
     programs of a pool in one stream through the compiled files, against a run of each
     program on a tape of its own""",
     note="""All 1728 programs of 2-2 in all pairs, all 1.9 million of 2-3 in one stream,
     pairs of 500 (1500) and triples of 50 (100) of the others, and short programs after
     those cut off at the limit.""")

prop('C22', 'Program graph facts are true of the program',
     """The entry and exit points, connectedness, normality, reduction and the other
     facts stated of a program's state graph are those of the graph whose edges are
     the program's instructions. (Connected: every state has a way out and the last
     leads to the first. Reduced: what is left when states with one way in or out are
     taken out, which keeps what leads to what and does not depend on names.)""",
     ['programs'],
     'every program',
     """Tests look at a list; the answers depend on the shape of the whole graph.""",
     ['tools/graph.py', 'src/graph.rs', 'tools/dot.py'],
     [('graph', 'tools/graph.py: Graph; src/graph.rs: is_connected')],
     technique="""exhaustive enumeration of all state graphs of a size on the real code, against
     reachability computed independently""",
     note="""All tables of targets up to 2x4, 3x2 with blanks, 4x2, 3x3 without; reduction
     under all names.""")

prop('C23', 'The best block size found is a real one',
     """The block size chosen for a program and a number of sweeps is at least one, and is
     the least number of cells at which the tape is shortest when equal neighbours of
     that size are taken together; the tape is the one the program has after the sweep
     that starts, first, with the most groups of like cells beside the head. It is one
     for programs that halt or spin out within that number.""",
     ['programs'], 'every program and step count',
     'Tests list a few programs with the size expected.',
     ['src/blocks.rs'], [('optimiser', 'src/blocks.rs: opt_block')],
     technique="""exhaustive enumeration of programs and step counts on the real function against
     a choice made on plain cells""",
     note="""All 2x2 tables, tree-generated 3x2 and 2x3, open 4x2, 2x4, 3x3 programs of few
     instructions; 0 to 300 sweeps.""")

prop('C24', 'Results do not depend on what was computed before',
     """Every answer (number, comparison, remainder, macro instruction, run with or without
     macros) is the same in a fresh process and after any other computations in the same
     process; only what is refused may differ.""",
     ['histories'],
     'every sequence of computations in one process',
     """Global caches are shared; each test runs after one fixed history.""",
     ['tm/num.py', 'tm/macro.py'],
     [('caches', 'tm/num.py: ADDS, MULS, DIVS, EXPS, find_period; tm/macro.py:'
       ' CONVERTERS, BLOCKS, BACKSYMS')],
     technique="""exhaustive enumeration of histories: the process is forked after every history of
     one and of two computations of a pool, and each question is asked in each fork, against
     the answer in a fresh process""",
     note="""124 questions (each a run, a macro or all sums of a base), all ordered pairs, all
     triples of 11 (24), and all at once in 124 orders.""")

prop('C25', 'The Idris machine runs the program as the others do',
     """The Idris implementation takes the same steps and leaves the same marks as the
     others.""",
     ['programs'], 'every program',
     'It has its own tests of known programs.',
     ['idris'], [('machine', 'idris/Machine.idr')],
     na='no Idris compiler is installed and none can be fetched: the code cannot be run')


prop('C26', 'Native macro machines take the steps of the program',
     """Every instruction of a native macro machine (block, back-symbol, nested) is what
     the program does on the cells of its window: same cells after, same state, same side
     left, no instruction where the program stops or never leaves. A run of it that
     reports an infinite rule is one of a program that neither halts nor spins out.""",
     ['programs'],
     'every program, window and nesting',
     """Tests count what is left of a search; a wrong macro step shows as a number that was
     copied into the test.""",
     ['src/macros.rs', 'src/machine.rs', 'src/tree.rs'],
     [('macros', 'src/macros.rs: make_block_macro, make_backsymbol_macro'),
      ('runs', 'src/machine.rs: run_for_infrul')],
     technique="""exhaustive enumeration of programs, windows and the macro states each reaches on the
     real code against the program run on the cells of the window; of runs against the
     program on plain cells""",
     note="""All 2x2 tables, tree-generated 3x2 and 2x3; blocks and back cells of 1 to 3
     (4), nested once; infinite verdicts checked for 100000 steps.""")

prop('C27', 'The command-line tools answer each line of input by itself',
     """Each tool prints for every line of its input, whole and once, what belongs to that
     program, whatever lines surround it and however its processes are scheduled:
     the normal form, C source, instruction sequence, measures, picture, branches, or
     whether nothing excludes it; what run.py shows of the tape at a step is what the
     program has on it after so many steps.""",
     ['inputs', 'schedules', 'histories'],
     'every sequence of lines, and every schedule of the worker processes',
     """No test runs the tools; their parallel output depends on scheduling.""",
     ['normalize.py', 'run.py', 'measure.py', 'just_so.py', 'instr_seq.py', 'c_prog.py',
      'dump_macros.py', 'dump_graphs.py', 'branch.py'],
     [('tools', 'the scripts at the top of the repository')],
     technique="""exhaustive enumeration of input lines, of all pairs and triples of a pool, and of all
     interleavings of the workers' tasks and writes under a controlled scheduler, on
     the real scripts""",
     note="""All 2x2 and some 32000 tree-generated 3x2 and 2x3 programs alone; about 30 (70) in pairs;
     just_so.py with two workers and three lines in every schedule, output buffered or
     not.""")

prop('C28', 'A number is shown, and estimated, as what it is',
     """What is shown of a number can be read back as that number, unless it is too big to show,
     which is said; integers too long to write are shown by their power of ten. The counts of
     leaves and depth are those of the tree. The number of digits and the estimate are right
     up to the rounding of their terms, with the right sign, and the
     height of the tower within one.""",
     ['numbers'],
     'every number the arithmetic builds',
     """Tests compare a few shown numbers with copies of themselves.""",
     ['tm/num.py'],
     [('display', 'tm/num.py: __str__, show_number, digits, estimate, tower_est')],
     technique="""exhaustive enumeration of the numbers that sequences of operations build, each
     shown by the real code, read back and measured with exact arithmetic""",
     note="""Trees of two operations over powers of 2 to 10, towers of up to six, integers
     beside powers of ten; known finding: negative multiples.""")


def main():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = {
        'version': 1,
        'setup_cmd': 'python3 harness/build.py',
        'checks': [{
            'property': p['id'],
            'quick_cmd': f"python3 harness/check.py {p['id']} quick",
            'thorough_cmd': f"python3 harness/check.py {p['id']} thorough",
            'technique': M[p['id']][0],
            'level': 'model_checking',
            'level_note': M[p['id']][1]} for p in P if p['id'] in M],
        'not_applicable': [{'property': k, 'reason': v}
                           for k, v in NA.items()],
        'notes': 'See DESIGN.md. No hooks in /repo: the code is driven through'
                 ' its own interfaces.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
