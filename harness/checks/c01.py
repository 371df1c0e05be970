"""Arithmetic on symbolic numbers is exact."""
from .. import numref as R
from ..core import shards
from ..numspace import BASES, Space


def flat(x):
    """No tower anywhere: every part can be written out."""
    if isinstance(x, int):
        return True
    kind = type(x).__name__
    if kind == 'Exp':
        return isinstance(x.exp, int)
    if kind == 'Div':
        return flat(x.num)
    return flat(x.l) and flat(x.r)


def work(rep, k, _):
    base = list(BASES)[k]
    sp = Space(rep, base)
    A, one, two = sp.levels(rep.tier)
    # exact division and negation
    for x in sp.exps + one + two:
        v = R.value(x)
        ok, got = sp.ask('neg', lambda: -x)
        if ok:
            rep.traces += 1
            try:
                good = not isinstance(got, str) and \
                    (R.value(got) + v).sign() == 0
            except R.Skip:
                good = True
            if not good:
                rep.violate('negation', x, str(got))
        for d in (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 18, 27, 36, 100, 1024, 3125):
            try:
                if v.mod(d):
                    continue
            except R.Skip:
                continue
            rep.transitions += 1
            ok, got = sp.ask('//', lambda: x // d)
            if not ok:
                continue
            rep.traces += 1
            try:
                good = not isinstance(got, str) and \
                    (R.value(got) * R.Q(d)).cmp(v) == 0
            except R.Skip:
                continue
            if not good:
                rep.violate('exact division', f'{x} // {d}', str(got))
                continue
            # and the quotient can be computed with
            for name, f, w in (
                    ('q*d', lambda: got * d, v),
                    ('d*q', lambda: d * got, v),
                    ('q+q', lambda: got + got, None),
                    ('q+1', lambda: got + 1, None),
                    ('q-1', lambda: got - 1, None),
                    ('3+q', lambda: 3 + got, None),
                    ('-q', lambda: -got, None)):
                ok, back = sp.ask(name, f)
                if not ok:
                    continue
                q = R.value(got)
                want = {'q*d': v, 'd*q': v, 'q+q': q + q,
                        'q+1': q + R.Q(1), 'q-1': q - R.Q(1),
                        '3+q': q + R.Q(3), '-q': R.Q(0) - q}[name]
                rep.transitions += 1
                try:
                    good = not isinstance(back, str) and \
                        R.value(back).cmp(want) == 0
                except R.Skip:
                    continue
                if not good:
                    rep.violate('after division', f'{name} for q = {x} // {d}',
                                str(back))
    # quotients by different denominators
    divs = {}
    for e in sp.exps[:2] + sp.exps[3:4]:
        for n in (1, 2, 3) if rep.tier == 'quick' else (1, 2, 3, 5, 7):
            for d in range(2, 13 if rep.tier == 'quick' else 31):
                try:
                    ve = R.value(e) * R.Q(n)
                    c = -ve.mod(d) % d
                except R.Skip:
                    continue
                for c in (c, c - d):
                    ok, got = sp.ask('quotient', lambda: (n * e + c) // d)
                    if not ok or isinstance(got, (int, str)):
                        continue
                    try:
                        if not (R.value(got) * R.Q(d)).cmp(ve + R.Q(c)):
                            divs[id(got)] = got
                    except R.Skip:
                        continue
    divs = list(divs.values())
    rep.states += len(divs)
    rep.count('quotients', len(divs))
    sp.arith(divs, divs)
    sp.arith(divs, sp.exps)
    sp.arith(sp.exps, divs)
    # powers
    for b in range(2, 40):
        for e in list(range(1, 8)) + [31, 60, 300] + sp.exps:
            try:
                want = R.Q(R.power(b, R.value(e).plain()))
            except R.Skip:
                continue
            ok, got = sp.ask('power', lambda: sp.num.make_exp(b, e))
            if ok and e in sp.exps:
                ok2, alt = sp.ask('rpow', lambda: b ** e)
                if ok2 and alt is not got:
                    rep.violate('power', f'{b} ** {e}', str(alt))
            rep.transitions += 1
            if ok:
                rep.traces += 1
                if isinstance(got, str) or R.value(got).cmp(want):
                    rep.violate('power', f'{b} ** {e}', str(got))
    for x in sp.exps:
        for n in (1, 2, 3, 7):
            ok, got = sp.ask('exp power', lambda: x ** n)
            want = R.Q(1)
            for _ in range(n):
                want = want * R.value(x)
            rep.transitions += 1
            if ok and (isinstance(got, str) or R.value(got).cmp(want)):
                rep.violate('power', f'{x} ** {n}', str(got))
    # products of sums, and their sums, differences and products
    b, c, t = sp.exps[0], sp.exps[1], sp.exps[3]
    parts = [3, b, c, t, 1 + b, 3 + b, -1 + c, 1 + t]
    if rep.tier != 'quick':
        parts += [-2, 5, -1 + b, 1 + c, b + c, b + t, t - b, 1 + (b + c),
                  2 * b, 3 + t]
    muls = [m for m in sp.arith(parts, parts)
            if type(m).__name__ == 'Mul']
    rep.states += len(muls)
    rep.count('products', len(muls))
    sums = sp.arith(muls, muls)
    rep.states += len(sums)
    if rep.tier != 'quick':
        sp.arith(sums, parts[:8])
        sp.arith(parts[:8], sums)
    # what can be written out converts exactly
    for x in sp.exps + one + two:
        v = R.value(x)
        if v.d == 1 and isinstance(v.x, int) and flat(x):
            ok, got = sp.ask('int', lambda: int(x))
            rep.transitions += 1
            if ok and got != v.x:
                rep.violate('int', x, str(got)[:50])
    if rep.tier != 'quick':
        half = one if base in (2, 3) else one[::1]
        sp.arith(half, half)
        sp.arith(two, sp.leaves)
        sp.arith(sp.leaves, two)
    rep.sample(f'base {base}', {'number': str(two[len(two) // 2]),
                                'value': repr(R.value(two[len(two) // 2]))[:200]})


def run(rep, tier):
    rep.bounds.append('bases ' + ', '.join(map(str, BASES)) + '; terms of depth'
                      + (' 2' if tier == 'quick' else ' 3 (unbalanced and balanced)')
                      + ' over 6 integers and 6-9 powers and towers')
    shards(rep, work, shards=len(BASES))
