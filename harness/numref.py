"""Exact numbers of the form  sum N_i * b^E_i  (E_i again of that form).

The reference for tm.num: ordinary Python integers as long as they are small
enough to write down, otherwise a canonical sum with exactly decided sign and
residues.  Shares no code and no rewriting rule with tm.num."""
from fractions import Fraction
from functools import cmp_to_key, lru_cache

BITS = 20_000       # integers up to this size are written out


class Skip(Exception):
    """Outside of what the reference can represent."""


def root(base):
    """base = r**k with k maximal."""
    for r in range(2, base + 1):
        k, x = 0, 1
        while x < base:
            x *= r
            k += 1
        if x == base:
            return r, k
    raise Skip


class V:
    """b and [(E, N)] with decreasing E; E int or V, N a nonzero int."""
    __slots__ = 'b', 't'

    def __init__(self, b, t):
        self.b = b
        self.t = t

    def __repr__(self):
        return '+'.join(f'{n}*{self.b}^({e!r})' for e, n in self.t)


def terms(x, b):
    if isinstance(x, int):
        return [(0, x)] if x else []
    if x.b != b:
        raise Skip('mixed bases')
    return x.t


def base_of(x, y):
    if isinstance(x, V):
        return x.b
    return y.b


def canon(b, ts):
    ts = sorted(ts, key=cmp_to_key(lambda p, q: cmp(q[0], p[0])))
    out = []
    for e, n in ts:
        while True:
            if not n:
                break
            if not out:
                out.append((e, n))
                break
            d = sub(out[-1][0], e)
            if isinstance(d, int) and d <= BITS:
                e0, n0 = out.pop()
                n += n0 * b ** d
                continue
            out.append((e, n))
            break
    # every group must outweigh all that follows
    for (e0, n0), (e1, n1) in zip(out, out[1:]):
        d = sub(e0, e1)
        if isinstance(d, int) and d <= n1.bit_length() + 8:
            raise Skip('close groups')
        if n1.bit_length() > 10 * BITS:
            raise Skip('large coefficient')
    if not out:
        return 0
    if len(out) == 1 and isinstance(out[0][0], int):
        e, n = out[0]
        if e * b.bit_length() + n.bit_length() <= BITS:
            if e < 0:
                q, r = divmod(n, b ** -e)
                if r:
                    raise Skip('not an integer')
                return q
            return n * b ** e
    return V(b, out)


def add(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x + y
    if isinstance(x, int) and x == 0:
        return y
    if isinstance(y, int) and y == 0:
        return x
    b = base_of(x, y)
    return canon(b, terms(x, b) + terms(y, b))


def scale(k, x):
    if isinstance(x, int):
        return k * x
    if not k:
        return 0
    return canon(x.b, [(e, k * n) for e, n in x.t])


def sub(x, y):
    return add(x, scale(-1, y))


def mul(x, y):
    if isinstance(x, int):
        return scale(x, y)
    if isinstance(y, int):
        return scale(y, x)
    if x.b != y.b:
        raise Skip('mixed bases')
    return canon(x.b, [(add(e, f), n * m) for e, n in x.t for f, m in y.t])


def sign(x):
    if isinstance(x, int):
        return (x > 0) - (x < 0)
    n = x.t[0][1]
    return (n > 0) - (n < 0)


def cmp(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return (x > y) - (x < y)
    return sign(sub(x, y))


def power(base, e):
    """base ** e, e >= 0"""
    if sign(e) < 0:
        raise Skip('negative exponent')
    r, k = root(base)
    e = scale(k, e)
    if isinstance(e, int) and e * r.bit_length() <= BITS:
        return r ** e
    return canon(r, [(e, 1)])


@lru_cache(None)
def cycle(b, m):
    """b^n mod m for n >= mu has period lam."""
    seen, x, n = {}, 1 % m, 0
    while x not in seen:
        seen[x] = n
        x = x * b % m
        n += 1
    mu = seen[x]
    return mu, n - mu


def powmod(b, e, m):
    if isinstance(e, int):
        if e < 0:
            raise Skip('negative exponent')
        return pow(b, e, m)
    if sign(e) < 0:
        raise Skip('negative exponent')
    mu, lam = cycle(b, m)
    r = mod(e, lam)
    r += lam * -(-max(mu - r, 0) // lam)
    return pow(b, r, m)


def mod(x, m):
    if isinstance(x, int):
        return x % m
    return sum(n * powmod(x.b, e, m) for e, n in x.t) % m


def exact_div(x, d):
    """x / d, when it is an integer.  The result may need a denominator in
    every term, so it is represented by (x, d) at the top only."""
    if mod(x, d):
        raise Skip('not divisible')
    return Q(x, d)


class Q:
    """x / d, an integer value"""
    __slots__ = 'x', 'd'

    def __init__(self, x, d=1):
        if isinstance(x, int) and x % d == 0:
            x, d = x // d, 1
        self.x = x
        self.d = d

    def __repr__(self):
        return f'({self.x!r})/{self.d}'

    def __add__(self, o):
        return Q(add(scale(o.d, self.x), scale(self.d, o.x)), self.d * o.d)

    def __sub__(self, o):
        return Q(sub(scale(o.d, self.x), scale(self.d, o.x)), self.d * o.d)

    def __mul__(self, o):
        return Q(mul(self.x, o.x), self.d * o.d)

    def cmp(self, o):
        return cmp(scale(o.d, self.x), scale(self.d, o.x))

    def mod(self, m):
        r = mod(self.x, m * self.d)
        q, rem = divmod(r, self.d)
        if rem:
            raise Skip('not an integer')
        return q % m

    def div(self, k):
        if self.mod(k):
            raise Skip('not divisible')
        return Q(self.x, self.d * k)

    def sign(self):
        return sign(self.x)

    def plain(self):
        """As int or V: exponents cannot carry a denominator."""
        if self.d == 1:
            return self.x
        # (N b^E + ...) / d  with every N divisible
        if isinstance(self.x, V):
            ts = []
            for e, n in self.x.t:
                if n % self.d:
                    raise Skip('denominator in exponent')
                ts.append((e, n // self.d))
            return V(self.x.b, ts)
        raise Skip


_memo = {}


def value(num):
    """The value of a tm.num expression, from its structure."""
    if isinstance(num, int):
        return Q(num)
    hit = _memo.get(id(num))
    if hit is not None:
        if hit[0] is num:
            if hit[1] is None:
                raise Skip
            return hit[1]
    kind = type(num).__name__
    try:
        if kind == 'Add':
            v = value(num.l) + value(num.r)
        elif kind == 'Mul':
            v = value(num.l) * value(num.r)
        elif kind == 'Div':
            v = value(num.num).div(num.den)
        elif kind == 'Exp':
            v = Q(power(num.base, value(num.exp).plain()))
        else:
            raise Skip(kind)
    except Skip:
        _memo[id(num)] = (num, None)
        raise
    _memo[id(num)] = (num, v)
    return v
