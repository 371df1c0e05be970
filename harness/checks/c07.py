"""Rules: inferred from four repetitions, applied as repetition would."""
from itertools import product

from .. import numref as R
from .. import shim
from ..core import Guard, Hang, checker, has_parts, shards
from ..numspace import BASES, load

AT = (0, 0), (1, 0), (1, 1)


class Stub:
    """A tape of counts only."""

    def __init__(self, counts):
        self.counts = dict(counts)

    def get_count(self, index):
        return self.counts[index]

    def set_count(self, index, val):
        self.counts[index] = val


class Refused(Exception):
    pass


class Bad(Exception):
    """The operation cannot be done on that number."""


def ask(call):
    from tm import num, rules
    try:
        with Guard(20):
            return call()
    except (AssertionError, NotImplementedError, RecursionError,
            num.ExpModLimit, num.ModDepthLimit, rules.RuleLimit) as err:
        raise Refused(type(err).__name__) from err


def log(v, base):
    """v = base ** result"""
    r, k = R.root(base)
    x = v.plain()
    if isinstance(x, int):
        n = 0
        while x > 1 and x % r == 0:
            x //= r
            n += 1
        if x != 1 or n % k:
            raise Bad
        return R.Q(n // k)
    if x.b != r or len(x.t) != 1:
        raise Bad
    e, n = x.t[0]
    m = 0
    while n > 1 and n % r == 0:
        n //= r
        m += 1
    if n != 1:
        raise Bad
    e = R.add(e, m)
    return R.Q(e).div(k) if k > 1 else R.Q(e)


def once(v, op):
    """One repetition of a rule on one count, by hand."""
    if isinstance(op, int):
        return v + R.Q(op)
    if isinstance(op[0], int):
        return v * R.Q(op[0]) + R.Q(op[1])
    for what, n in op:
        if what == '+':
            v = v + R.Q(n)
        elif what == '*':
            v = v * R.Q(n)
        elif what == '//':
            v = v.div(n)
        elif what == '**':
            v = R.Q(R.power(n, v.plain()))
        elif what == '~':
            v = log(v, n)
        else:
            raise Bad
    return v


def infer(rep, columns):
    """columns: for each block its four counts, as they were seen."""
    from tm.rules import InfiniteRule, SuspectedRule, make_rule
    rep.transitions += 1
    left, right = columns[:1], columns[1:]
    countses = [([c[i] for c in left], [c[i] for c in right]) for i in range(4)]
    key = str(columns)
    try:
        got = ask(lambda: make_rule(*countses))
    except (Refused, SuspectedRule) as err:
        rep.count(f'inference: {err.args[0] if err.args else ""}'[:40])
        return None
    except InfiniteRule:
        # every block is known to stay or grow
        rep.traces += 1
        for c in columns:
            if all(isinstance(x, int) for x in c):
                diffs = {b - a for a, b in zip(c, c[1:])}
                if min(diffs) < 0:
                    rep.violate('never ends', key)
        rep.count('infinite')
        return None
    except (Exception, Hang) as err:
        rep.violate('inference fails', key, repr(err))
        return None
    if got is None:
        for c in columns:
            if not all(isinstance(x, int) for x in c) \
                    or len({b - a for a, b in zip(c, c[1:])}) > 1:
                return None
        rep.violate('misses a sum', key)
        return None
    rep.traces += 1
    rep.count('rules inferred')
    for index, c in zip(AT, columns):
        op = got.get(index)
        for a, b in zip(c, c[1:]):
            try:
                va, vb = R.value(a), R.value(b)
                want = va if op is None else once(va, op)
            except R.Skip:
                rep.count('beyond the reference')
                continue
            except Bad:
                want = None
            if want is None or want.cmp(vb):
                rep.violate('infer', key, [str(index), str(op)])
                return None
    return got


def small(v):
    """As an integer, if it can be written out."""
    try:
        v = v.plain()
    except R.Skip:
        return None
    return v if isinstance(v, int) else None


def apply(rep, rule, counts):
    from tm.rules import apply_rule
    rep.transitions += 1
    tape = Stub(counts)
    before = dict(tape.counts)
    key = f'{rule} {[str(c) for c in counts.values()]}'
    try:
        times = ask(lambda: apply_rule(rule, tape))
    except Refused as err:
        rep.count(f'application: {err.args[0]}')
        if tape.counts != before:
            rep.violate('changed, not applied', key,
                        str({k: str(v) for k, v in tape.counts.items()}))
        return
    except (Exception, Hang) as err:
        rep.violate('application fails', key, repr(err))
        return
    rep.traces += 1
    falling = {i: -op for i, op in rule.items()
               if isinstance(op, int) and op < 0}
    if times is None:
        if tape.counts != before:
            rep.violate('changed, not applied', key)
        short = [i for i, d in falling.items()
                 if isinstance(counts[i], int) and counts[i] <= d]
        if falling and not short:
            rep.violate('not applied', key)
        return
    rep.count('rules applied')
    try:
        t = R.value(times)
        if t.sign() <= 0 or not falling:
            rep.violate('times', key, str(times))
            return
        left = []
        for i in counts:
            was, now = R.value(counts[i]), R.value(tape.counts[i])
            op = rule.get(i)
            if op is None:
                want = was
            elif isinstance(op, int):
                want = was + R.Q(op) * t
            elif isinstance(op[0], int):
                mul, add = op
                n = small(t)
                if n is not None and n < 50:
                    want = was
                    for _ in range(n):
                        want = once(want, op)
                else:
                    power = R.Q(R.power(mul, t.plain()))
                    want = was * power + (R.Q(add) * (power - R.Q(1))
                                          ).div(mul - 1)
            else:
                want = was
                n = small(t)
                if n is None or n > 20:
                    raise R.Skip
                for _ in range(n):
                    want = once(want, op)
            if want.cmp(now):
                rep.violate('apply', key, [str(i), str(tape.counts[i]),
                                           str(times)])
                return
            if i in falling:
                if now.sign() <= 0:
                    # an integer beyond a formula: formulas are taken to be
                    # larger than every integer when they are compared
                    ints = [c for c in counts.values() if isinstance(c, int)]
                    lesser = [c for c in counts.values()
                             if not isinstance(c, int)
                             and R.value(c).cmp(R.Q(max(ints, default=0))) < 0]
                    rep.violate('vanishes' + '/larger-integer' * bool(lesser),
                                key, [str(i), str(times)])
                    return
                left.append((now - R.Q(falling[i])).sign() <= 0)
        if not any(left):
            rep.violate('stops early', key, str(times))
    except R.Skip:
        rep.count('beyond the reference')
    except Bad:
        rep.violate('inapplicable', key, str(times))


SEQS = [
    (('+', 1),), (('+', -1), ('*', 2), ('+', 3)), (('**', 2),),
    (('+', 2), ('**', 2)), (('*', 3), ('+', 1), ('**', 2)),
    (('~', 2), ('+', 1), ('**', 2)), (('~', 2), ('*', 2), ('**', 2)),
    (('~', 2), ('**', 2), ('**', 2)), (('+', -2), ('~', 2), ('+', 4),
                                      ('**', 2), ('+', 2)),
    (('**', 3), ('+', -1), ('//', 2)), (('*', 2), ('+', 1), ('//', 3),
                                        ('**', 2)),
    (('+', 5), ('//', 2), ('**', 4), ('*', 3))]


def do(num, x, seq):
    """The same operations on tm.num's numbers."""
    for what, n in seq:
        if what == '+':
            x = x + n
        elif what == '*':
            x = x * n
        elif what == '//':
            x = x // n
        elif what == '**':
            x = num.make_exp(n, x)
        elif isinstance(x, num.Exp) and x.base == n:
            x = x.exp
        else:
            raise Bad
    return x


def run(rep, tier):
    shim.install()
    num = load()
    deep = tier != 'quick'

    n = 40 if deep else 20
    edge = [1, 2, 3, 5, 2**31 - 1, 2**31, 2**32, 2**32 + 1, 2**33 + 1, 2**64]

    def one(sub, k, total):
        for q in product(range(1, n + 1), repeat=4):
            if q[0] % total == k:
                infer(sub, [q, (5, 4, 3, 2)])
                infer(sub, [(9, 9, 9, 9), q])
        for q in product(edge, repeat=4):
            if hash(q) % total == k:
                infer(sub, [(8, 7, 6, 5), q])
        # growth that looks regular for a while
        for a in range(1, 80 if deep else 40):
            for m in range(1, 5):
                for add in range(-a, 2 * a):
                    if a % total != k:
                        continue
                    b = a * m + add
                    c = b * m + add
                    for m4 in range(1, 6):
                        for d in (-1, 0, 1):
                            if 0 < b < c:
                                infer(sub, [(8, 7, 6, 5),
                                            (a, b, c, c * m4 + add + d)])
        sub.states += 1
    rep.bounds.append(f'inference from every four counts up to {n}')
    shards(rep, one, shards=n)

    # several blocks at once
    columns = [(5, 5, 5, 5), (5, 4, 3, 2), (9, 7, 5, 3), (1, 2, 3, 4),
               (1, 3, 7, 15), (2, 3, 5, 9), (1, 2, 4, 7), (9, 8, 7, 5),
               (4, 4, 4, 3), (2, 6, 18, 54), (1, 5, 13, 29), (12, 9, 6, 3)]
    for cs in product(columns, repeat=3):
        infer(rep, list(cs))
    rep.states += len(columns) ** 3

    # counts too large to write down
    def symbolic(sub, k, total):
        me = num.make_exp
        starts = [me(2, 40), me(2, 41) + 3, me(2, me(2, 40)), 3 * me(2, 40),
                  me(2, me(2, 40) + 1) + 2, me(3, 50), 2 * me(3, 50) + 1,
                  (me(3, 50) - 1) // 2, me(2, 3 * me(2, 40)) + 2,
                  (me(2, 41) + 1) // 3]
        jobs = list(product(starts, SEQS))
        for x, seq in jobs[k::total]:
            q = [x]
            try:
                for _ in range(3):
                    q.append(ask(lambda: do(num, q[-1], seq)))
            except (Bad, Refused):
                continue
            if any(isinstance(c, int) for c in q):
                continue
            sub.states += 1
            infer(sub, [tuple(q), (9, 8, 7, 6)])
            for i in range(4):
                for d in (1, -1):
                    p = list(q)
                    try:
                        p[i] = ask(lambda: p[i] + d)
                    except Refused:
                        continue
                    infer(sub, [tuple(p), (9, 8, 7, 6)])
            for times in (2, 3, 4):
                for y in starts + q:
                    apply(sub, {(0, 0): seq, (1, 0): -1},
                          {(0, 0): y, (1, 0): times})
    rep.bounds.append(f'{len(SEQS)} sequences of operations on 10 numbers')
    shards(rep, symbolic, shards=16)

    # application
    plus = [-3, -2, -1, 1, 2, 3]
    mult = [(2, 0), (2, 1), (3, -1), (4, 3)]
    most = 14 if deep else 9
    ops = [None, *plus, *mult]

    def ints(sub, k, total):
        for rule in list(product(ops, repeat=3))[k::total]:
            r = {i: op for i, op in zip(AT, rule) if op is not None}
            for counts in product(range(1, most + 1), repeat=3):
                apply(sub, r, {**dict(zip(AT, counts)), (1, 5): 77})
            sub.states += 1
    rep.bounds.append(f'three blocks, counts up to {most}, every combination'
                      f' of {len(ops)} operations')
    shards(rep, ints, shards=32)

    def large(sub, k, total):
        jobs = []
        for base in BASES:
            e = num.make_exp
            bs = [e(base, 60), e(base, 61) + 2, 3 * e(base, 60) + 1,
                  e(base, e(base, 60)), e(base, e(base, 60)) - 5]
            if base > 2:
                bs.append((e(base, 60) - 1) // (base - 1))
            for x in bs:
                for op1, op2 in product(plus, ops):
                    for y in (2, 7, 10 ** 30, *bs):
                        jobs.append(((x, y), (op1, op2)))
        for counts, rule in jobs[k::total]:
            r = {i: op for i, op in zip(AT, rule) if op is not None}
            apply(sub, r, dict(zip(AT, counts)))
            sub.states += 1
    shards(rep, large, shards=16)

    if has_parts('rules'):
        checker(rep, 'rules', '-', **(
            {'quad': 60, 'diff': 5, 'count': 16} if deep else
            {'quad': 40, 'diff': 4, 'count': 12}))
    else:
        rep.assumptions.append('the rules of the Rust crate no longer have the '
                               'interface they had: only the Python ones were explored')
