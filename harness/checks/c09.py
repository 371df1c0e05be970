"""Macro machines do what the machine underneath does."""
from .. import pyrun
from ..core import KNOWN, Guard, Hang, shards
from ..pyrun import install, programs

VARIANTS = ([{'blocks': k} for k in (1, 2, 3, 4)]
            + [{'backsym': k} for k in (1, 2, 3)]
            + [{'blocks': 2, 'backsym': 1}, {'blocks': 3, 'backsym': 1},
               {'blocks': 2, 'backsym': 2}])
# the number of cells is left to the code
CHOSEN = [{'opt_macro': 60}, {'opt_macro': 300, 'backsym': 1}]


def table(prog):
    """The program, read independently of the code under test."""
    out = {}
    for st, row in enumerate(prog.split('  ')):
        for co, ins in enumerate(row.split(' ')):
            if ins != '...':
                out[st, co] = (int(ins[0]), ins[1] == 'R', ord(ins[2]) - 65)
    return out


def layers(macro):
    """Outermost first: [(logic, is it a back-symbol macro)]."""
    out = []
    while not isinstance(macro, dict):
        out.append((macro.logic, macro.logic.name == 'backsymbol'))
        macro = macro.comp
    return out


def window(comp, state, tape, pos, seen_max=10**6):
    """Runs until the head leaves the cells: ('out', state, right, tape),
    ('undefined', slot) or ('loop',)."""
    tape = list(tape)
    seen = set()
    while True:
        if not 0 <= pos < len(tape):
            return 'out', state, pos > 0, tuple(tape)
        key = state, pos, tuple(tape)
        if key in seen:
            return ('loop',)
        seen.add(key)
        ins = comp.get((state, tape[pos]))
        if ins is None:
            return 'undefined', (state, tape[pos])
        tape[pos], right, state = ins
        pos += 1 if right else -1


def mirrored(logic):
    """Whether the tape of a back-symbol macro shows the base tape reversed:
    whether leaving the window on the right is a move to the left."""
    _, shift, _ = logic.reconstruct_outputs(
        (0, (True, (0,) * (1 + logic.cells))))
    return not shift


def slots(rep, prog, kw, from_macro):
    """Every instruction of a single macro, against the cells it stands for."""
    comp = table(prog)
    macro = from_macro(prog, kw)
    if isinstance(macro, dict):
        return
    logic = macro.logic
    back = logic.name == 'backsymbol'
    n = logic.cells
    colors = range(logic.base_colors)
    states = range(logic.base_states)
    from itertools import product
    for tape in product(colors, repeat=n):
        logic.converter.tape_to_color(tape)
    for ms in range(macro.macro_states):
        for mc in range(macro.macro_colors):
            try:
                st, (edge, tape) = logic.deconstruct_inputs((ms, mc))
            except Exception as err:
                rep.violate('decode', f'{prog} {kw} {ms, mc}', repr(err))
                continue
            if st not in states:
                rep.violate('decode', f'{prog} {kw} {ms, mc}', st)
                continue
            rep.transitions += 1
            want = window(comp, st, tape, len(tape) - 1 if edge else 0)
            compare(rep, macro, back, (ms, mc), want, f'{prog} {kw} {ms, mc}')


def compare(rep, macro, back, slot, want, name):
    """One instruction of a macro against the run it stands for."""
    from tm.macro import MacroInfLoop
    logic = macro.logic
    try:
        with Guard(20):
            got = macro[slot]
    except KeyError as err:
        got = ('undefined', err.args[0])
    except MacroInfLoop:
        got = ('loop',)
    except (Exception, Hang) as err:
        got = ('error', repr(err))
    else:
        color, shift, nxt = got
        # read the answer back: the head has left on side `shift`
        if back:
            # one cell is left behind, the rest is carried along
            try:
                st2, (edge2, tape2) = logic.deconstruct_inputs((nxt, 0))
            except Exception as err:
                rep.violate('decode', f'{name} {nxt}', repr(err))
                return
            rest = tape2[:-1] if edge2 else tape2[1:]
            shift = shift is not mirrored(logic)
            # moving right, the carried cells are left of the head
            whole = (color, *rest) if shift else (*rest, color)
            ok_side = edge2 == shift
        else:
            st2, (edge2, _) = logic.deconstruct_inputs((nxt, color))
            whole = logic.converter.color_to_tape(color)
            ok_side = edge2 != shift
        got = ('out', st2, shift, tuple(whole))
        if not ok_side:
            rep.violate('enters on the wrong side', name, str(got))
    rep.traces += 1
    if got != want:
        rep.violate('instruction', name, [str(got), str(want)])


def windows(rep, S, C, kw):
    """Every run inside one window of every program: the program is filled in
    as its run asks for instructions, so that the leaves stand for all
    programs; new states come in order."""
    from itertools import product
    from tm.macro import make_backsymbol_macro, make_block_macro
    (kind, n), = kw.items()
    back = kind == 'backsym'
    make = make_backsymbol_macro if back else make_block_macro
    size = n + 1 if back else n

    def prime(logic):
        for tape in product(range(C), repeat=n):
            logic.converter.tape_to_color(tape)

    proto = make({}, n, (S, C))
    prime(proto.logic)
    slot_of = {}
    for ms in range(proto.macro_states):
        for mc in range(C if back else proto.macro_colors):
            st, (edge, tape) = proto.logic.deconstruct_inputs((ms, mc))
            slot_of[st, bool(edge), tuple(tape)] = ms, mc

    inputs = [(edge, tape) for tape in product(range(C), repeat=size)
              for edge in (False, True)]

    def work(sub, k, total):
        todo = inputs[k::total]
        if not todo:
            return
        for edge, tape in todo:
            slot = slot_of.get((0, edge, tape))
            if slot is None:
                sub.violate('no macro slot', f'{S}x{C} {kw} {edge} {tape}')
                continue
            stack = [{}]
            while stack:
                comp = stack.pop()
                want = window(comp, 0, tape, size - 1 if edge else 0)
                if want[0] == 'undefined':
                    top = max((t for _, _, t in comp.values()), default=0)
                    for co, sh, st in product(range(C), (False, True),
                                              range(min(S, max(top, want[1][0])
                                                        + 2))):
                        stack.append({**comp, want[1]: (co, sh, st)})
                macro = make(comp, n, (S, C))
                prime(macro.logic)
                sub.transitions += 1
                sub.count('window ' + want[0])
                compare(sub, macro, back, slot, want,
                        f'{comp} {S}x{C} {kw} {edge} {tape}')
        sub.states += 1
    rep.bounds.append(f'every run of every {S}x{C} program in a window {kw}')
    shards(rep, work, shards=min(16, len(inputs)))


def unfold(m, state, sp):
    """A macro configuration as a configuration of the base machine."""
    left, scan, right = sp
    ls = layers(m.program)
    for logic, back in ls:
        st, (edge, tape) = logic.deconstruct_inputs((state, scan))
        if back:
            if mirrored(logic):
                left, right = right[::-1], left[::-1]
            if edge:    # the carried cells are left of the head
                left = left + [[c, 1] for c in tape[:-1]]
                scan = tape[-1]
            else:
                right = [[c, 1] for c in tape[1:]] + right
                scan = tape[0]
        else:
            def cells(spans):
                out = []
                for color, count in spans:
                    if count is None:
                        raise OverflowError
                    word = logic.converter.color_to_tape(color)
                    if len(set(word)) == 1:
                        out.append([word[0], count * len(word)])
                    elif count > 300:
                        raise OverflowError
                    else:
                        out += [[c, 1] for _ in range(count) for c in word]
                return out
            left, right = cells(left), cells(right)
            if edge:
                left = left + [[c, 1] for c in tape[:-1]]
                scan = tape[-1]
            else:
                right = [[c, 1] for c in tape[1:]] + right
                scan = tape[0]
        state = st
    return [None, state, left, scan, right]


def runs(rep, progs, lim, variants, every=1):
    def work(sub, k, n):
        lines = []
        for prog in progs[k::n]:
            for kw in variants:
                got = pyrun.record(sub, prog, lim, every, **kw)
                if got is None:
                    continue
                m, log = got
                pyrun.consistent(sub, m, prog)
                configs = []
                try:
                    for _, state, *sp in log.configs:
                        configs.append(unfold(m, state, sp))
                except OverflowError:
                    pass
                except Exception as err:
                    sub.violate('decode', f'{prog} {kw}', repr(err))
                    continue
                end = pyrun.ending(m)
                sub.count('verdict ' + end['kind'])
                if log.leapt:
                    sub.count('runs with accelerated rules')
                whole = len(configs) == len(log.configs)
                end['step'] = end['marks'] = None
                if not isinstance(m.program, dict) and end['kind'] == 'spnout':
                    # the macro machine spins: the base machine never stops
                    end['kind'] = 'infrul'
                if not whole:
                    end['kind'] = 'xlimit'
                lines.append({'prog': prog, 'configs': configs, 'end': end,
                              'through': True, 'tag': str(kw)})
                if len(lines) >= 3000:
                    pyrun.replay(sub, 'runs', lines)
                    lines = []
        pyrun.replay(sub, 'runs', lines)
    shards(rep, work, shards=min(64, max(8, len(progs) // 300)))


def run(rep, tier):
    install()

    def build(prog, kw):
        from tm.macro import make_macro
        return make_macro(prog, **kw)

    def all_slots(progs, variants):
        def work(sub, k, n):
            for prog in progs[k::n]:
                for kw in variants:
                    slots(sub, prog, kw, build)
                sub.states += 1
        shards(rep, work, shards=16)

    single = [v for v in VARIANTS if len(v) == 1]
    small = [{'blocks': 2}, {'blocks': 3}, {'backsym': 1}, {'backsym': 2}]
    rep.bounds.append(f'{tier}: every macro instruction of every program')
    if tier == 'quick':
        full = [p for p in programs('full:2x2')]
        all_slots(full, small)
        for S, C, kw in ((3, 2, {'blocks': 2}), (2, 2, {'blocks': 4}),
                         (3, 2, {'backsym': 1}), (2, 2, {'backsym': 3}),
                         (2, 3, {'blocks': 2}), (2, 3, {'backsym': 1})):
            windows(rep, S, C, kw)
        all_slots(programs('tnf:2x3:60')[::1], [{'blocks': 2}, {'backsym': 1}])
        runs(rep, programs('full:2x2'), 40, VARIANTS)
        runs(rep, programs('tnf:3x2:400', 400, False), 120, VARIANTS)
        runs(rep, programs('tnf:2x3:400', 400, False), 120, VARIANTS)
        runs(rep, programs(KNOWN)[::2], 60, small + CHOSEN)
        runs(rep, programs('tnf:3x2:400', 400, False)
             + programs('tnf:2x3:400', 400, False), 120, CHOSEN)
    else:
        for S, C, kw in ((3, 2, {'blocks': 2}), (3, 2, {'blocks': 3}),
                         (2, 2, {'blocks': 4}), (2, 2, {'blocks': 5}),
                         (2, 2, {'blocks': 6}), (4, 2, {'blocks': 2}),
                         (2, 4, {'blocks': 2}), (2, 3, {'blocks': 2}),
                         (3, 2, {'backsym': 1}), (3, 2, {'backsym': 2}),
                         (4, 2, {'backsym': 1}), (2, 2, {'backsym': 3}),
                         (2, 2, {'backsym': 4}), (2, 2, {'backsym': 5}),
                         (2, 3, {'backsym': 1}), (2, 4, {'backsym': 1})):
            windows(rep, S, C, kw)
        all_slots(programs('raw:2x2'), single)
        all_slots(programs('tnf:3x2:400'), single)
        all_slots(programs('tnf:2x3:400'), small)
        runs(rep, programs('raw:2x2'), 200, VARIANTS)
        runs(rep, programs(KNOWN), 200, VARIANTS + CHOSEN)
        for space in ('tnf:3x2:400', 'tnf:2x3:400'):
            runs(rep, programs(space), 200, VARIANTS)
