"""Normal forms: behave as the program did, are stable, and are unique."""
from itertools import combinations, permutations, product

from .. import shim, table
from ..core import DATA, KNOWN, Guard, Hang, shards
from ..pyrun import programs


def starting(prog):
    """The state in which the first mark is made (the steps before only move
    over a blank tape), or None."""
    state, seen = 0, set()
    while state not in seen:
        seen.add(state)
        got = prog.get((state, 0))
        if got is None:
            return None
        if got[0]:
            return state
        state = got[2]
    return None


def alike(a, start, b, colors):
    """Whether table b, from state 0, is table a, from `start`, under other
    names: what is wrong, or None."""
    for flip in (False, True):
        states, names = {start: 0}, {0: 0}
        todo = [start]
        wrong = None
        # colors are matched as they are met; in what order they are met does
        # not matter, as long as every slot ends up compared
        pending = []
        done = set()
        while wrong is None:
            if todo:
                s = todo.pop()
                pending += [(s, c) for c in range(colors)]
            ready = [p for p in pending if p[1] in names]
            if not ready:
                if todo:
                    continue
                break
            for p in ready:
                pending.remove(p)
                if p in done:
                    continue
                done.add(p)
                x = a.get(p)
                y = b.get((states[p[0]], names[p[1]]))
                if (x is None) != (y is None):
                    wrong = f'{p}: {x} became {y}'
                    break
                if x is None:
                    continue
                if (x[1] == y[1]) == flip:
                    wrong = f'{p}: {x} became {y}'
                    break
                if x[2] not in states:
                    if y[2] in states.values():
                        wrong = f'states merged at {p}'
                        break
                    states[x[2]] = y[2]
                    todo.append(x[2])
                if x[0] not in names:
                    if y[0] in names.values():
                        wrong = f'colors merged at {p}'
                        break
                    names[x[0]] = y[0]
                if states[x[2]] != y[2] or names[x[0]] != y[0]:
                    wrong = f'{p}: {x} became {y}'
                    break
        if wrong is None:
            return None
        # a program has a mirror image only if it moves at all
    return wrong


def renamed(prog, states, colors, ps, pc, flip):
    return {(ps[s], pc[c]): (pc[i[0]], i[1] != flip, ps[i[2]])
            for (s, c), i in prog.items()}


def settled(prog, start, states, colors):
    """Whether naming in order of first use leaves no choice: reading the table
    by rows, each row and column has its name before it is read."""
    rank = {start: 0}
    names = {0: 0}
    order = [start]
    for s in order:
        row = list(range(colors))
        # columns are read in the order of their names
        for n in range(colors):
            col = next((c for c in row if names.get(c) == n), None)
            if col is None:
                rest = [prog.get((s, c)) for c in row if c not in names]
                if any(r is not None for r in rest):
                    return False
                break
            got = prog.get((s, col))
            if got is None:
                continue
            if got[2] not in rank:
                rank[got[2]] = len(rank)
                order.append(got[2])
            if got[0] not in names:
                names[got[0]] = len(names)
    used = {s for s, _ in prog}
    return used <= set(rank)


def norm(rep, text):
    from tools.normalize import normalize
    rep.traces += 1
    try:
        with Guard(20):
            return normalize(text)
    except (Exception, Hang) as err:
        rep.violate('fails', text, repr(err))
        return None


def one(rep, text, names=False):
    prog, states, colors = table.read(text)
    rep.states += 1
    got = norm(rep, text)
    if got is None:
        return
    try:
        out, _, _ = table.read(got)
    except Exception as err:
        rep.violate('not a program', text, [got, repr(err)])
        return
    rep.transitions += len(prog)
    start = starting(prog)
    if start is None:
        # never marks: nor does the normal form
        rep.count('never marks')
    else:
        wrong = alike(prog, start, out, colors)
        if wrong:
            rep.violate('another program', text, [got, wrong])
            return
        if (0, 0) in out and not out[0, 0][1]:
            rep.violate('not normal', text, got)
    again = norm(rep, got)
    if start is None or not settled(prog, start, states, colors):
        rep.count('names left open')
        return
    if again is not None and again != got:
        rep.violate('not stable', text, [got, again])
    if names:
        rep.count('renamed')
        for ps in permutations(range(1, states)):
            for pc in permutations(range(1, colors)):
                for flip in (False, True):
                    other = table.write(
                        renamed(prog, states, colors, (0, *ps), (0, *pc), flip),
                        states, colors)
                    rep.transitions += 1
                    n = norm(rep, other)
                    if n is not None and n != got:
                        rep.violate('two normal forms', other, [n, got])


def partial(states, colors, n):
    """Every program with exactly n instructions."""
    slots = list(product(range(states), range(colors)))
    every = table.instrs(states, colors)
    for where in combinations(slots, n):
        for what in product(every, repeat=n):
            yield table.write(dict(zip(where, what)), states, colors)


def run(rep, tier):
    shim.install()
    deep = tier != 'quick'

    def over(name, progs, names):
        rep.bounds.append(name)

        def work(sub, k, total):
            for n, text in enumerate(progs()):
                if n % total == k:
                    one(sub, text, names)
        shards(rep, work, shards=16)

    over('raw:2x2', lambda: programs('raw:2x2'), True)
    for s, c in ((2, 3), (3, 2), (3, 3), (4, 2), (2, 4), (5, 2)):
        for n in range(1, 4 if s < 5 and (deep or s * c == 6) else 3):
            over(f'every {s}x{c} program of {n} instructions',
                 lambda s=s, c=c, n=n: partial(s, c, n), True)
    for space in ('tnf:2x3:100', 'tnf:3x2:100'):
        over(f'{space}, under every name', lambda space=space: programs(space), True)
    for space in ('tnf:4x2:100', 'tnf:2x4:100'):
        most = 7 if deep else 5
        over(f'{space}, up to {most} instructions, open, under every name',
             lambda space=space: programs(space, 100, False, most), True)
    for name, space in (('known', KNOWN), ('data', DATA)):
        over(f'programs/{name}.prog', lambda space=space: programs(space), False)
