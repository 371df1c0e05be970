"""The part of the tape that a sequence of steps is said to depend on."""
from .. import cells as K
from .. import shim
from ..core import checker, has_parts, shards


def build(c):
    """The cells as a compressed tape, by single moves only."""
    from tm.tape import Tape
    t = Tape()
    n = len(c.left)
    for _ in range(n):
        t.step(False, 0, False)
    row = c.cells()
    for x in row:
        t.step(True, x, False)
    for _ in row[n:]:
        t.step(False, t.scan, False)
    return t


def paths(acts, depth, first):
    path = [first]
    while path:
        yield path
        if len(path) < depth:
            path.append(0)
            continue
        while path:
            i = path.pop()
            if path and i + 1 < len(acts):
                path.append(i + 1)
                break


def walk(rep, c, acts, depth, first):
    """For each sequence of moves, in order: what was seen, what was said."""
    base = build(c)
    seen, out = [], []
    for path in paths(acts, depth, first):
        e = base.to_enum()
        p = c.clone()
        want = 0
        for i in path:
            a = acts[i]
            e.step(*a)
            want = p.step(*a)
        rep.transitions += len(path)
        if e.scan != p.scan or e.signature != K.signature(p):
            rep.violate('enumerated tape', K.text(c),
                        str([acts[i] for i in path]))
        seen.append((p.scan, want))
        out.append((*e.offsets, *e.edges))
    rep.states += 1
    # a look at a count is part of what was touched
    for side, lens in enumerate(base.span_lens):
        for i in range(lens):
            e = base.to_enum()
            e.get_count((side, i))
            if e.offsets[side] < i + 1:
                rep.violate('count', K.text(c), [side, i, str(e.offsets)])
    return seen, out


def compare(rep, a, b, ca, cb):
    lc, rc = K.common(ca.left, cb.left), K.common(ca.right, cb.right)
    for k, (lo, ro, le, re) in enumerate(a[1]):
        if lc is not None and (le or lo > lc):
            continue
        if rc is not None and (re or ro > rc):
            continue
        rep.traces += 1
        if a[0][k] != b[0][k]:
            rep.violate('depends on more', K.text(ca),
                        [K.text(cb), k, lo, ro, le, re])
            return


def explore(rep, n, depth, count, most):
    acts = K.acts(n)
    sides = K.sides(n, count, most)

    def work(sub, k, total):
        jobs = [(f, s) for f in range(len(acts)) for s in range(n)]
        for first, scan in jobs[k::total]:
            walks = {}
            for i, left in enumerate(sides):
                for j, right in enumerate(sides):
                    c = K.Cells(left, scan, right)
                    walks[i, j] = c, walk(sub, c, acts, depth, first)
            for (i, j), (c, w) in walks.items():
                for m in range(len(sides)):
                    for key in ((i, m), (m, j)):
                        if key != (i, j):
                            compare(sub, w, walks[key][1], c, walks[key][0])
    shards(rep, work, shards=n * len(acts))


def run(rep, tier):
    shim.install()
    deep = tier != 'quick'
    for args in ((2, 4, 3, 2), (3, 3, 2, 2)) if not deep else \
            ((2, 5, 3, 2), (3, 4, 2, 2), (2, 4, 3, 3)):
        rep.bounds.append('%d colors, %d moves, sides of %d blocks of up to '
                          '%d cells' % args)
        explore(rep, *args)
    if has_parts('tapes'):
        checker(rep, 'offsets', '-', **(
            {'two': 6, 'three': 4} if deep else {'two': 5, 'three': 4}))
    else:
        rep.assumptions.append('the tape of the Rust crate no longer has the '
                               'interface it had: only the Python one was explored')
