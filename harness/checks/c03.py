"""An answered comparison is right; equal constructions are one object."""
from .. import numref as R
from ..core import shards
from ..numspace import BASES, OPS, ORDER, Space


def kind_of(x):
    return type(x).__name__


def scale_of(v, base):
    """Exponent of the leading power, as int or V."""
    x = v.x
    if isinstance(x, int):
        n = 0
        x = abs(x)
        while x >= base:
            x //= base
            n += 1
        return n
    e, n = x.t[0]
    k = 0
    n = abs(n)
    while n >= base:
        n //= base
        k += 1
    return R.add(e, k)


def negative_factor(x):
    if isinstance(x, int):
        return False
    kind = type(x).__name__
    if kind == 'Mul':
        return R.value(x.r).sign() < 0 or negative_factor(x.l) \
            or negative_factor(x.r)
    if kind == 'Add':
        return negative_factor(x.l) or negative_factor(x.r)
    if kind == 'Exp':
        return negative_factor(x.exp)
    return negative_factor(x.num)


def classify(x, y, base):
    """The known weak spots: numbers within a small factor of each other,
    written with integer coefficients; products with a negative factor."""
    vx, vy = R.value(x), R.value(y)
    if negative_factor(x) or negative_factor(y):
        return 'order/negative-factor'
    try:
        d = R.sub(scale_of(vx, base), scale_of(vy, base))
    except R.Skip:
        return 'order/coefficient'
    sign = 'negative' if vx.sign() < 0 or vy.sign() < 0 else 'positive'
    if isinstance(d, int) and abs(d) <= 20:
        return f'order/close-{sign}'
    return f'order/far-{sign}'


def compare(rep, sp, xs, ys):
    for x in xs:
        vx = R.value(x)
        for y in ys:
            if isinstance(x, int) and isinstance(y, int):
                continue
            try:
                c = vx.cmp(R.value(y))
            except R.Skip:
                continue
            for name, (f, w) in ORDER.items():
                rep.transitions += 1
                ok, got = sp.ask(name, lambda: f(x, y))
                if not ok:
                    continue
                rep.traces += 1
                if got is not w(c):
                    rep.violate(f'base {sp.base}: {classify(x, y, sp.base)}'
                                f' {kind_of(x)} {name} {kind_of(y)}',
                                f'{x} {name} {y}', str(got))
            ok, got = sp.ask('==', lambda: x == y)
            if ok and got and c:
                rep.violate('equal', f'{x} == {y}', str(got))
            if ok and not isinstance(got, str) and x is y and not got:
                rep.violate('equal', f'{x} == itself', str(got))


def beyond(rep, sp, xs, ns):
    for x in xs:
        for n in ns:
            c = R.value(x).cmp(R.Q(n))
            for name, (f, w) in ORDER.items():
                for swap in (False, True):
                    rep.transitions += 1
                    ok, got = sp.ask(
                        name, lambda: f(n, x) if swap else f(x, n))
                    if not ok:
                        continue
                    rep.traces += 1
                    if got is w(-c if swap else c):
                        continue
                    # a formula is taken to be beyond every integer
                    far = c == R.value(x).sign()
                    rep.violate(
                        f'base {sp.base}: order/'
                        + ('integers' if far else 'larger-integer')
                        + f' {kind_of(x)} {name}', f'{x} {name} {n} {swap}',
                        str(got))


def work(rep, k, _):
    base = list(BASES)[k]
    sp = Space(rep, base)
    A, one, two = sp.levels(rep.tier)
    compare(rep, sp, sp.leaves, sp.leaves)
    compare(rep, sp, sp.leaves, one)
    compare(rep, sp, one, sp.leaves)
    compare(rep, sp, one, one)
    compare(rep, sp, two, sp.leaves)
    compare(rep, sp, sp.leaves, two)
    if rep.tier != 'quick':
        compare(rep, sp, two, one)
        compare(rep, sp, one, two)
    # integers larger than what is kept as a formula
    large = [n * 10 ** k for n in (-1, 1) for k in (30, 99, 400)]
    small = [x for x in sp.exps if isinstance(x, sp.num.Exp)
             and isinstance(x.exp, int)]
    few = sp.arith(small, [-1, 1, 2, 3], judge=False)
    beyond(rep, sp, small + few, large)
    # the same construction again, backwards: the same objects
    first = {}
    for x in one:
        for y in A:
            for name, f in OPS.items():
                ok, got = sp.ask(name, lambda: f(x, y))
                first[id(x), id(y), name] = (ok, got)
    for x in reversed(one):
        for y in reversed(A):
            for name, f in OPS.items():
                ok, got = sp.ask(name, lambda: f(x, y))
                rep.transitions += 1
                old = first[id(x), id(y), name]
                same = old[0] == ok and (
                    not ok or old[1] is got
                    or isinstance(got, (int, str)) and old[1] == got)
                if not same:
                    rep.violate('built twice', f'{x} {name} {y}',
                                [str(old[1]), str(got)])
    rep.sample(f'base {base}', {'left': str(one[0]), 'right': str(two[-1])})


def run(rep, tier):
    rep.bounds.append('bases ' + ', '.join(map(str, BASES)))
    shards(rep, work, shards=len(BASES))
