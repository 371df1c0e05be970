"""Order of first use: instruction sequences and tree normal forms."""
from itertools import permutations

from .. import shim, table
from ..core import DATA, KNOWN, Guard, Hang, shards
from ..pyrun import programs
from .c17 import renamed

FAR = 3000


def sequence(prog, states, colors):
    """[(partial, step, slot)] or None where a plain run does not tell: each
    instruction after A0 as it is first needed, until one is missing, all are
    known, or no more are needed."""
    have = {(0, 0): prog[0, 0]}
    out = []
    run = table.Run(prog)
    for _ in range(states * colors - 1):
        while (slot := (run.state, run.scan)) in have:
            if run.beyond():
                return out
            if run.steps > FAR:
                return None
            run.step()
        out.append((table.write(have, states, colors), run.steps, slot))
        if slot not in prog:
            break
        have[slot] = prog[slot]
    return out


def sequences(rep, text):
    from tools.instr_seq import instr_seq
    prog, states, colors = table.read(text)
    want = sequence(prog, states, colors)
    if want is None:
        rep.count('no end within the horizon')
        return
    rep.states += 1
    rep.traces += 1
    rep.transitions += len(want)
    try:
        with Guard(60):
            got = list(instr_seq(text))
    except (Exception, Hang) as err:
        rep.violate('sequence fails', text, repr(err))
        return
    if got != want:
        rep.violate('sequence', text, [got, want])
    rep.count(f'sequences of {len(got)}')


def visits(prog, states, colors, horizon):
    """The order in which states and colors are first visited; whether the
    run is over, or everything visited, within the horizon."""
    order, names = [0], [0]
    run = table.Run(prog)
    while run.steps <= horizon:
        if run.state not in order:
            order.append(run.state)
        if run.scan not in names:
            names.append(run.scan)
        if len(order) == states and len(names) == colors:
            return order, names, True
        if run.step() is None:
            return order, names, True
    return order, names, False


def norm(rep, text):
    from tools.tree_norm import tree_norm
    rep.traces += 1
    try:
        with Guard(20):
            return tree_norm(text)
    except (Exception, Hang) as err:
        rep.violate('naming fails', text, repr(err))
        return None


def naming(rep, text):
    prog, states, colors = table.read(text)
    order, names, over = visits(prog, states, colors, 900)
    if not over:
        # the tool looks at 1000 moves over blocks: is anything new later?
        later = visits(prog, states, colors, 4000)
        if later[:2] != (order, names):
            rep.count('late visits')
            return
    rep.states += 1
    forms = {}
    tied = len(order) < states - 1 or len(names) < colors - 1
    for ps in permutations(range(1, states)):
        for pc in permutations(range(1, colors)):
            other = table.write(
                renamed(prog, states, colors, (0, *ps), (0, *pc), False),
                states, colors)
            rep.transitions += 1
            got = norm(rep, other)
            if got is None:
                return
            forms[got] = other
    for got, other in forms.items():
        out, _, _ = table.read(got)
        if not any(renamed(prog, states, colors, (0, *ps), (0, *pc), False) == out
                   for ps in permutations(range(1, states))
                   for pc in permutations(range(1, colors))):
            rep.violate('another program', other, got)
            return
        o, n, _ = visits(out, states, colors, 4000)
        if o != list(range(len(o))) or n != list(range(len(n))):
            rep.violate('not in order', other, [got, o, n])
    if len(forms) > 1 and not tied:
        rep.violate('two tree normal forms', text, sorted(forms))


def run(rep, tier):
    shim.install()
    deep = tier != 'quick'

    def over(name, progs, what):
        progs = [t for t in progs if t.startswith('1RB')]
        rep.bounds.append(f'{what.__name__}: {name}, {len(progs)} programs')

        def work(sub, k, total):
            for text in progs[k::total]:
                what(sub, text)
        shards(rep, work, shards=32)

    twos = [t for t in programs('raw:2x2') if t.startswith('1RB')]
    over('2x2', twos, sequences)
    over('2x2', twos, naming)
    for size in ('2x3', '3x2'):
        progs = programs(f'tnf:{size}:400')
        over(f'tnf:{size}:400', progs, sequences)
        over(f'tnf:{size}:400', progs, naming)
    over('programs/known.prog', programs(KNOWN), sequences)
    over('programs/data.prog', programs(DATA)[::1 if deep else 6], sequences)
    most = 7 if deep else 5
    for size in ('4x2', '2x4', '3x3'):
        progs = programs(f'tnf:{size}:100', 100, False, most)
        over(f'tnf:{size}, up to {most} instructions, open', progs, sequences)
        over(f'tnf:{size}, up to {most} instructions, open', progs, naming)
