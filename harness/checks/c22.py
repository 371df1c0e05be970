"""Facts about a program's state graph, against the graph itself."""
import os
import re
from itertools import combinations, permutations, product

from .. import shim
from ..core import DATA, KNOWN, Guard, Hang, shards
from ..pyrun import programs

# small programs written with the names of bigger ones
WIDE = ('as:0,3,7:0,9/tnf:3x2:400', 'as:0,11:0,6,9/tnf:2x3:60',
        'as:0,25:0,9/raw:2x2')


def reach(edges, start):
    """Everything at least one step away."""
    seen, todo = set(), list(edges[start])
    while todo:
        s = todo.pop()
        if s not in seen:
            seen.add(s)
            todo.extend(edges.get(s, ()))
    return seen


def true(rows):
    """What there is to say, from the table of targets."""
    states = range(len(rows))
    colors = len(rows[0])
    exits = {s: {t for t in rows[s] if t is not None} for s in states}
    entries = {s: {r for r in states if s in exits[r]} for s in states}
    first = []
    for row in rows:
        for t in row:
            if t and t not in first:
                first.append(t)
    proper = {s: exits[s] - {s} for s in states}
    loops = {s for s in states if s in exits[s]}
    spins = {s for s in states if rows[s][0] == s}
    even = [all(len(x) == colors for x in side.values())
            for side in (entries, exits)]
    return {
        'states': tuple(states), 'colors': tuple(range(colors)),
        'exit_points': exits, 'entry_points': entries,
        'is_normal': first == list(states)[1:],
        'is_connected': all(proper.values())
        and 0 in reach(proper, len(rows) - 1),
        'reflexive_states': loops, 'zero_reflexive_states': spins,
        'is_irreflexive': not loops, 'is_zero_reflexive': bool(spins),
        'entries_dispersed': even[0], 'exits_dispersed': even[1],
        'is_dispersed': all(even),
    }


def text(rows, k):
    """A program with that graph; k varies what the graph must not depend on."""
    colors = len(rows[0])
    return '  '.join(' '.join(
        '...' if t is None else
        f"{(k * (2 * s + c) + (s == 0 and c == 0)) % colors}"
        f"{'RL'[(k * (s + 3 * c)) // 2 % 2]}{chr(65 + t)}"
        for c, t in enumerate(row)) for s, row in enumerate(rows))


def kernel(rep, key, want, got):
    """The reduced graph: what is left after taking out states with a single
    way in or out, keeping which remaining states lead to which."""
    exits = want['exit_points']
    proper = {s: x - {s} for s, x in exits.items()}
    if not set(got) <= set(exits) or any(
            not x or not x <= set(got) for x in got.values()):
        return 'dangling'
    for s in got:
        if reach(got, s) - {s} != (reach(proper, s) & set(got)) - {s}:
            return 'reachability'
        if s in got[s]:
            return 'loop left'
        if len(got[s]) < 2 or sum(s in x for x in got.values()) == 1:
            return 'not reduced'
    return None


EDGE = re.compile(r'^ *(\w) -> (\w) \[ *color *= *" *(\w+)" *\] *;?$', re.M)


def drawing(rep, rows, prog):
    """The drawn edges: one for each instruction, colored by what is read."""
    from tools.dot import make_dot
    rep.traces += 1
    got = EDGE.findall(make_dot(prog))
    if sorted((a, b) for a, b, _ in got) != sorted(
            (chr(65 + s), chr(65 + t)) for s, row in enumerate(rows)
            for t in row if t is not None):
        rep.violate('drawing', prog, str(got))
        return
    # one colour per column, and different ones
    left = list(got)
    # (as long as there are colours for them)
    for c in range(len(rows[0])):
        want = [(chr(65 + s), chr(65 + row[c])) for s, row in enumerate(rows)
                if row[c] is not None]
        if want and not any(
                sorted(want) == sorted((a, b) for a, b, k in left if k == hue)
                for hue in {k for _, _, k in left}):
            rep.violate('drawing', prog, str(got))
            return


def renamings(rep, rows):
    """How much is left does not depend on the names of states."""
    from tools.graph import Graph
    sizes = {}
    for p in permutations(range(len(rows))):
        other = [None] * len(rows)
        for s, row in enumerate(rows):
            other[p[s]] = [t if t is None else p[t] for t in row]
        prog = text(other, 1)
        rep.traces += 1
        with Guard(20):
            sizes.setdefault(len(Graph(prog).reduced), prog)
    if len(sizes) > 1:
        rep.violate('reduced: depends on names', text(rows, 1), str(sizes))


def table(prog):
    """Where each instruction of a program leads."""
    return [[ord(x[-1]) - 65 if x[-1].isupper() else None
             for x in row.split()] for row in prog.split('  ')]


def one(rep, rows, given=None):
    from tm.rust_stuff import py_is_connected
    from tools.graph import Graph
    rep.states += 1
    want = true(rows)
    for k in (1, 2) if given is None else (1,):
        prog = text(rows, k) if given is None else given
        try:
            with Guard(20):
                g = Graph(prog)
                if k == 1:
                    drawing(rep, rows, prog)
                for what, right in want.items():
                    rep.traces += 1
                    got = getattr(g, what)
                    if got != right:
                        rep.violate(what, prog, [str(got), str(right)])
                left = g.reduced
                wrong = kernel(rep, prog, want, left)
                if wrong:
                    rep.violate(f'reduced: {wrong}', prog, str(left))
                if g.is_simple != (not left):
                    rep.violate('is_simple', prog)
                rust = py_is_connected(prog, len(rows))
                if rust != want['is_connected']:
                    rep.violate('is_connected (Rust)', prog, rust)
                rep.traces += 3
                rep.transitions += sum(map(len, want['exit_points'].values()))
                rep.count(f'{len(left)} states left')
        except (Exception, Hang, shim.PanicException) as err:
            rep.violate('fails', prog, repr(err))


def connected(rep, sets, colors):
    """Only whether there is a way from the last state to the first."""
    from tm.rust_stuff import py_is_connected
    from tools.graph import Graph
    rep.states += 1
    # a state that leads on to fewer others leads to itself or nowhere
    rows = [[*x, *([s, None, s][:colors - len(x)])] for s, x in enumerate(sets)]
    prog = text(rows, 1)
    proper = dict(enumerate(map(set, sets)))
    want = 0 in reach(proper, len(sets) - 1)
    rep.traces += 2
    try:
        with Guard(20):
            if Graph(prog).is_connected != want:
                rep.violate('is_connected', prog, want)
            if py_is_connected(prog, len(sets)) != want:
                rep.violate('is_connected (Rust)', prog, want)
    except (Exception, Hang, shim.PanicException) as err:
        rep.violate('fails', prog, repr(err))


def run(rep, tier):
    shim.install()
    deep = tier != 'quick'
    sizes = [(1, 2, True), (2, 1, True), (2, 2, True), (2, 3, True),
             (3, 2, True), (2, 4, True), (4, 2, False), (3, 3, False)]
    if deep:
        sizes += [(4, 2, True), (3, 3, True), (2, 5, True), (5, 2, 'normal')]
    for states, colors, blanks in sizes:
        targets = [*range(states), *((None,) if blanks is True else ())]
        n = states * colors
        rep.bounds.append(f'every {states}x{colors} table of targets'
                          + (', blanks included' if blanks is True else
                             f', {blanks}' if blanks else ''))

        def work(sub, k, total, n=n, colors=colors, targets=targets,
                 blanks=blanks):
            names = len(targets) == 3 or colors * len(targets) < 13 or (
                deep and n < 10 and blanks != 'normal')
            for i, flat in enumerate(product(targets, repeat=n)):
                if i % total != k:
                    continue
                if blanks == 'normal':
                    seen = 0
                    for t in flat:
                        if t > seen + 1:
                            break
                        seen = max(seen, t)
                    else:
                        if seen == n // colors - 1:
                            one(sub, [flat[j:j + colors]
                                      for j in range(0, n, colors)])
                    continue
                rows = [flat[j:j + colors] for j in range(0, n, colors)]
                one(sub, rows)
                if names:
                    renamings(sub, rows)
        shards(rep, work, shards=32)

    for space in (KNOWN, DATA, *WIDE):
        progs = programs(space)
        rep.bounds.append(f'the graphs of {len(progs)} programs: '
                          f'{os.path.basename(space)}')

        def given(sub, k, total, progs=progs):
            for prog in progs[k::total]:
                one(sub, table(prog), prog)
        shards(rep, given, shards=32)

    for states, colors in ((4, 3), (5, 2), *(((5, 4),) if deep else ())):
        rep.bounds.append(f'ways between the states of every {states}-state '
                          f'graph with {colors} ways out at most')

        def ways(sub, k, total, states=states, colors=colors):
            outs = [[x for n in range(1, colors + 1) for x in combinations(
                [t for t in range(states) if t != s], n)]
                for s in range(states)]
            for i, sets in enumerate(product(*outs)):
                if i % total == k:
                    connected(sub, sets, colors)
        shards(rep, ways, shards=32)
