"""The compressed tape against plain cells."""
from .. import cells as K
from .. import shim
from ..core import checker, has_parts, shards


def said(t):
    """What the tape says of itself."""
    ls, rs = t.span_lens
    return {
        'scan': t.scan, 'text': str(t), 'marks': t.marks, 'blank': t.blank,
        'edges': (t.at_edge(False), t.at_edge(True)),
        'counts': tuple(map(list, t.counts)), 'lengths': (ls, rs),
        'signature': t.signature,
        'each': ([t.get_count((0, i)) for i in range(ls)],
                 [t.get_count((1, i)) for i in range(rs)])}


def true(c):
    ls, rs = K.blocks(c.left), K.blocks(c.right)
    counts = [b[1] for b in ls], [b[1] for b in rs]
    return {
        'scan': c.scan, 'text': K.text(c),
        'marks': sum(1 for x in c.cells() if x), 'blank': not any(c.cells()),
        'edges': (c.scan == 0 and not c.left, c.scan == 0 and not c.right),
        'counts': counts, 'lengths': (len(ls), len(rs)),
        'signature': K.signature(c), 'each': counts}


def compare(rep, t, c, key):
    try:
        got = said(t)
    except Exception as err:
        rep.violate('tape fails', key, repr(err))
        return
    want = true(c)
    for what in want:
        if got[what] != want[what]:
            rep.violate(what, key, [str(got[what]), str(want[what])])
            return


def walk(rep, n, depth, width):
    """Every tape reachable in `depth` moves, every move from each."""
    from tm.tape import Tape
    acts = K.acts(n)
    tapes = [(Tape(), K.Cells())]
    seen = {tapes[0][1].key()}
    compare(rep, *tapes[0], 'blank tape')
    for d in range(depth):
        fresh = []
        for t, c in tapes:
            rep.states += 1
            before = said(t)
            for a in acts:
                if a[2] and t.at_edge(a[0]):
                    continue    # the machine looks first: this has no end
                t2, c2 = t.clone(), c.clone()
                want = c2.step(*a)
                rep.transitions += want
                rep.traces += 1
                key = f'{K.text(c)} {a}'
                try:
                    got = t2.step(*a)
                except Exception as err:
                    rep.violate('move fails', key, repr(err))
                    continue
                if got != want:
                    rep.violate('steps', key, [got, want])
                compare(rep, t2, c2, key)
                s1, s2 = K.signature(c), K.signature(c2)
                if t2.sig_compatible(s1) != K.fits(s2, s1) \
                        or t.sig_compatible(s2) != K.fits(s1, s2):
                    rep.violate('compatible', key, str(c2.key()))
                if c2.key() not in seen and len(c2.cells()) <= width:
                    seen.add(c2.key())
                    fresh.append((t2, c2))
            # the moves were made on copies
            if said(t) != before:
                rep.violate('copy', K.text(c), [str(said(t)), str(before)])
            for side in (0, 1):
                for i, _ in enumerate(K.blocks((c.left, c.right)[side])):
                    t2 = t.clone()
                    t2.set_count((side, i), 5)
                    bs = K.blocks((c.left, c.right)[side])
                    bs[i][1] = 5
                    new = [x for x, m in bs for _ in range(m)]
                    c2 = K.Cells(c.left if side else new, c.scan,
                                 new if side else c.right)
                    compare(rep, t2, c2, f'set {K.text(c)} {side, i}')
        tapes = fresh
        rep.count(f'{n} colors, depth {d}', len(fresh))


def straight(rep, n, depth, jobs):
    """Every sequence of moves on one and the same tape: nothing that an
    earlier move leaves behind may come back later."""
    from tm.tape import Tape
    acts = K.acts(n)

    def work(sub, k, total):
        path = [k]
        if k >= len(acts):
            return
        while path:
            if len(path) < depth:
                path.append(0)
                continue
            t, c = Tape(), K.Cells()
            for i in path:
                a = acts[i]
                got, want = t.step(*a), c.step(*a)
                if got != want or t.scan != c.scan:
                    sub.violate('steps', f'{[acts[j] for j in path]}',
                                [got, want])
                    break
            compare(sub, t, c, f'{[acts[j] for j in path]}')
            sub.transitions += depth
            sub.traces += 1
            while path:
                i = path.pop()
                if path and i + 1 < len(acts):
                    path.append(i + 1)
                    break
    shards(rep, work, shards=len(acts))


def run(rep, tier):
    shim.install()
    deep = tier != 'quick'
    for args in ((2, 11, 13), (3, 6, 8)) if not deep else \
            ((2, 16, 18), (3, 10, 12), (4, 6, 8)):
        walk(rep, *args)
    straight(rep, 2, 6 if deep else 5, None)
    straight(rep, 3, 5 if deep else 4, None)
    if has_parts('tapes'):
        checker(rep, 'tape', '-', **(
            {'two': 15, 'three': 10, 'four': 7} if deep else
            {'two': 11, 'three': 7, 'four': 5}))
    else:
        rep.assumptions.append('the tape of the Rust crate no longer has the '
                               'interface it had: only the Python one was explored')
