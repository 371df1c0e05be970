"""Program notation: every reader and writer against plain text."""
from itertools import product

from .. import shim, table
from ..core import Guard, Hang, shards
from ..pyrun import programs


def tools():
    from tm import parse, show
    from tools import get_params
    from tools import parse as toolparse
    from tools.graph import Graph
    from tools.normalize import Normalizer, expand, init_prog
    return parse, show, toolparse, get_params, Graph, Normalizer, expand, init_prog


def one(rep, t, text):
    """Everything that reads or writes a program, on one program."""
    parse, show, toolparse, get_params, Graph, Normalizer, expand, _ = t
    want, states, colors = table.read(text)
    rows = [[want.get((s, c)) for c in range(colors)] for s in range(states)]
    rep.states += 1
    rep.transitions += states * colors
    used_s = [1, *(s for s, _ in want), *(i[2] for i in want.values())]
    used_c = [1, *(c for _, c in want), *(i[0] for i in want.values())]
    compact = '_'.join(
        ''.join('---' if i is None else table.cell(i) for i in row)
        for row in rows)
    asked = {
        'tcompile': (lambda: parse.tcompile(text), want),
        'tcompile of a line': (lambda: parse.tcompile(text + '\n'), want),
        'show_comp': (lambda: show.show_comp(want, (states, colors)), text),
        'show_comp, no size': (
            lambda: show.show_comp(want),
            table.write(want, 1 + max(used_s), 1 + max(used_c))),
        'parse': (lambda: [list(r) for r in toolparse(text)], rows),
        'get_params': (lambda: tuple(get_params(text)), (states, colors)),
        'Normalizer': (lambda: str(Normalizer(text)), text),
        'Normalizer of a line': (lambda: str(Normalizer(text + '\n')), text),
        'instr_slots': (
            lambda: list(Normalizer(text).instr_slots),
            [((s, c), rows[s][c]) for s in range(states) for c in range(colors)]),
        'Normalizer slots': (
            lambda: {slot: Normalizer(text)[slot] for slot in want}, want),
        'expand': (lambda: expand(compact), None if any(
            i[2] == 25 for i in want.values()) else text),
        'Graph': (lambda: [list(a) for a in Graph(text).arrows.values()],
                  [[i and i[2] for i in row] for row in rows]),
        'Graph text': (lambda: str(Graph(text)), ''.join(
            '.' if i is None else chr(65 + i[2]) for row in rows for i in row)),
    }
    for what, (call, right) in asked.items():
        if right is None:
            continue
        rep.traces += 1
        try:
            with Guard(20):
                got = call()
        except (Exception, Hang, shim.PanicException) as err:
            rep.violate(what, text, repr(err))
            continue
        if got != right:
            rep.violate(what, text, [str(got), str(right)])


def atoms(rep, t):
    """Every slot, state and instruction the notation has."""
    from tm.rust_stuff import read_instr
    parse, show = t[0], t[1]
    for s, c in product(range(26), range(10)):
        name = chr(65 + s) + str(c)
        for what, got, right in (
                ('read_slot', parse.read_slot(name), (s, c)),
                ('show_slot', show.show_slot((s, c)), name),
                ('show_state', show.show_state(s), chr(65 + s))):
            rep.traces += 1
            if got != right:
                rep.violate(what, name, str(got))
    for instr in (None, *table.instrs(26, 10)):
        name = table.cell(instr)
        for what, got, right in (
                ('read_instr', read_instr(name), instr),
                ('show_instr', show.show_instr(instr), name)):
            rep.traces += 1
            if got != right:
                rep.violate(what, name, str(got))
    if show.show_state(None) != '.':
        rep.violate('show_state', 'None', show.show_state(None))
    for odd in ('1R.', '---'.replace('-', '.'), '.RB', '1.B'):
        if read_instr(odd) is not None:
            rep.violate('read_instr', odd, str(read_instr(odd)))
    for s, c in product(range(1, 27), range(1, 11)):
        rep.traces += 1
        got = t[7](s, c)
        if got != table.write({(0, 0): (1, True, 1)}, s, c):
            rep.violate('init_prog', f'{s} {c}', got)


def lone(states, colors):
    """One instruction anywhere, nothing else; and its complement."""
    every = table.instrs(states, colors)
    slots = list(product(range(states), range(colors)))
    full = {slot: every[(7 * i + 3) % len(every)] for i, slot in enumerate(slots)}
    for slot in slots:
        for instr in every:
            yield table.write({slot: instr}, states, colors)
            yield table.write({**full, slot: instr}, states, colors)
        yield table.write({k: v for k, v in full.items() if k != slot},
                          states, colors)


def run(rep, tier):
    shim.install()
    deep = tier != 'quick'
    t = tools()
    atoms(rep, t)
    spaces = ['raw:2x2', 'tnf:2x3:100', 'tnf:3x2:100']
    if deep:
        spaces += ['tnf:4x2:30', 'tnf:2x4:30']
    for space in spaces:
        progs = programs(space)
        rep.bounds.append(f'every program of {space}')

        def work(sub, k, total, progs=progs):
            for text in progs[k::total]:
                one(sub, t, text)
        shards(rep, work, shards=16)
    sizes = [(s, c) for s in range(1, 27) for c in range(1, 11)
             if s * c <= (60 if deep else 16) or (s, c) in ((26, 2), (2, 10))]
    if deep:
        sizes.append((26, 10))
    rep.bounds.append('for every size of up to %d slots, and 26x2, 2x10: every'
                      ' single instruction in every slot, in an empty and in a'
                      ' full table' % (60 if deep else 16))

    def shapes(sub, k, total):
        n = 0
        for s, c in sizes:
            for text in lone(s, c):
                n += 1
                if n % total == k:
                    one(sub, t, text)
    shards(rep, shapes, shards=16)
