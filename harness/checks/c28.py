"""Numbers are shown, and estimated, as what they are."""
import re
from math import log10

from .. import numref as R
from ..core import shards
from ..numspace import BASES, Space, load

TRUNCATE = 10 ** 12


# -- reading what is shown ---------------------------------------------------

TOKEN = re.compile(r'\s*(\d+|\*\*|//|~10\^\d+|[-+*()])')


class Rough(Exception):
    """A part is shown by its order only."""


def read(text):
    """The value of a shown number: parentheses around every operation."""
    tokens = TOKEN.findall(text)
    assert ''.join(tokens) == text.replace(' ', ''), text
    pos = 0

    def take(want=None):
        nonlocal pos
        got = tokens[pos]
        assert want is None or got == want, (text, pos)
        pos += 1
        return got

    def atom():
        got = take()
        if got == '-':
            return R.Q(0) - atom()
        if got != '(':
            return R.Q(int(got))
        if tokens[pos].startswith('~'):
            raise Rough
        x = atom()
        op = take()
        y = atom()
        take(')')
        if op == '+':
            return x + y
        if op == '*':
            return x * y
        if op == '**':
            return R.Q(R.power(x.x, y.plain()))
        assert op == '//', text
        return x.div(y.x)

    out = atom()
    assert pos == len(tokens), text
    return out


# -- how large a number is ---------------------------------------------------

def lg(n):
    return log10(abs(n))


def logs(v):
    """log10 of |v| as a float, or None where even that is too large."""
    x, d = v.x, v.d
    if isinstance(x, int):
        return lg(x) - log10(d)
    (e, n), *rest = x.t
    if not isinstance(e, int) or e > 10 ** 300:
        return None
    low = 0
    for f, m in rest[:3]:
        if isinstance(f, int) and (e - f) * log10(x.b) < 300:
            low += m / n * 10 ** -((e - f) * log10(x.b)) if abs(m / n) < 1e200 else 0
    return e * log10(x.b) + lg(n) + log10(abs(1 + low)) - log10(d)


def height(v):
    """How often log10 can be taken until less than 10 is left, and log10 of
    what is left."""
    n = 0
    x = logs(v)
    if x is None:
        e = v.x.t[0][0]
        # b ** e: log10 is e * log10(b); its log10 differs little from e's
        y = lg(e) if isinstance(e, int) else logs(R.Q(e))
        if y is None:
            return 1 + height(R.Q(e))
        n, x = 2, y + log10(log10(v.x.b)) if y < 1e10 else y
    else:
        n = 1
    while x >= 10:
        x = log10(x)
        n += 1
    return n + (log10(x) if x >= 1 else 0)


def plainly(num):
    """What is small enough to be written out."""
    if isinstance(num, int):
        return num
    k = kind(num)
    if k == 'Exp':
        return num.base ** plainly(num.exp)
    if k == 'Div':
        return plainly(num.num) // num.den
    l, r = plainly(num.l), plainly(num.r)
    return l + r if k == 'Add' else l * r


def flat(rep, sp, num):
    """As shown(), for what the reference can also not represent."""
    v = R.Q(plainly(num))
    rep.states += 1
    rep.traces += 1
    ok, text = sp.ask('str', lambda: sp.num.show_number(num))
    if not ok:
        return
    rep.transitions += 1
    if '~' in text:
        rough(rep, num, text)
    elif read(text).cmp(v):
        rep.violate('text', str(num), text)
    if (num.leaves, num.depth) != size(num):
        rep.violate('size', str(num)[:200], [num.leaves, num.depth, size(num)])
    order(rep, sp, num, v)


# -- what an estimate may leave out ------------------------------------------

def kind(num):
    return 'int' if isinstance(num, int) else type(num).__name__


def parts(num):
    if isinstance(num, int):
        return ()
    k = kind(num)
    if k == 'Exp':
        return (num.exp,)
    if k == 'Div':
        return (num.num,)
    return (num.l, num.r)


def size(num):
    """(leaves, depth) counted over."""
    if isinstance(num, int):
        return 1, 0
    k = kind(num)
    if k == 'Exp':
        n, d = size(num.exp)
        return 1 + n, 1 + d
    if k == 'Div':
        n, d = size(num.num)
        return 1 + n, 1 + d
    n, _ = size(num.l)
    m, d = size(num.r)
    return n + m, 1 + d


def val(num):
    try:
        return R.value(num)
    except R.Skip:
        if size(num)[0] > 12 or any(
                not isinstance(p, int) and kind(p) == 'Exp'
                and not isinstance(p.exp, int) for p in (num, *parts(num))):
            raise
        return R.Q(plainly(num))


def slack(num):
    """How far the number of digits may be off: every factor is rounded.
    None where terms may cancel or an integer term may be the largest."""
    if isinstance(num, int):
        return 0.5
    k = kind(num)
    if k == 'Exp':
        return 0.5 + 1e-6
    if k == 'Div':
        got = slack(num.num)
        return None if got is None else got + 0.5
    l, r = slack(num.l), slack(num.r)
    if l is None or r is None:
        return None
    if k == 'Mul':
        return l + r
    try:
        x, y = val(num.l), val(num.r)
        a, b = logs(x), logs(y)
        opposed = x.sign() * y.sign() < 0
    except (R.Skip, ValueError, OverflowError):
        return None
    if a is None or b is None:
        return None
    if isinstance(num.l, int) and a > b - 0.5 or opposed and abs(a - b) < 0.5:
        return None
    return max(l, r) + (0.5 if opposed else 0.31)


def shown(rep, sp, num):
    """One number, every way it is displayed."""
    rep.states += 1
    ok, text = sp.ask('str', lambda: sp.num.show_number(num))
    if not ok:
        return
    rep.traces += 1
    deep = size(num)[1] > 9
    if deep:
        # shown for its text only
        v = None
    else:
        try:
            v = R.value(num)
        except R.Skip:
            rep.count('beyond the reference')
            return
    rep.transitions += 1
    if size(num)[0] > 120:
        rep.count('too long')
        if text != '(???)':
            rep.violate('long', str(num)[:200], text[:100])
    elif '???' in text:
        rep.count('shown in part')
    elif deep:
        rough(rep, num, text)
    else:
        try:
            if read(text).cmp(v):
                rep.violate('text', str(num), text)
            elif text != str(num):
                rep.violate('show', str(num), text)
        except Rough:
            rep.count('shown roughly')
            rough(rep, num, text)
        except R.Skip:
            rep.count('beyond the reference')
        except Exception as err:
            rep.violate('text', text[:500], repr(err))
    if (num.leaves, num.depth) != size(num):
        rep.violate('size', str(num)[:200], [num.leaves, num.depth, size(num)])
    if not deep:
        order(rep, sp, num, v)


def rough(rep, num, text):
    """What is left of the text when every large integer is shown by its order."""
    def tell(n):
        if isinstance(n, int):
            if abs(n) < TRUNCATE:
                return str(n)
            return f"{'-' if n < 0 else ''}(~10^#)"
        k = kind(n)
        if k == 'Mul' and n.l == -1:
            return '-' + tell(n.r)
        op = {'Add': '+', 'Mul': '*', 'Exp': '**', 'Div': '//'}[k]
        a, b = {'Exp': lambda: (n.base, n.exp), 'Div': lambda: (n.num, n.den)}.get(
            k, lambda: (n.l, n.r))()
        return f'({tell(a)} {op} {tell(b)})'

    if tell(num) != re.sub(r'~10\^\d+', '~10^#', text):
        rep.violate('text', str(num), text)
        return
    ints = []

    def walk(n):
        if isinstance(n, int):
            if abs(n) >= TRUNCATE:
                ints.append(n)
            return
        k = kind(n)
        if k == 'Exp':
            walk(n.base)
            walk(n.exp)
        elif k == 'Div':
            walk(n.num)
            walk(n.den)
        elif k != 'Mul' or n.l != -1:
            walk(n.l)
            walk(n.r)
        else:
            walk(n.r)
    walk(num)
    said = re.findall(r'~10\^(\d+)', text)
    if len(said) != len(ints) or any(
            abs(int(k) - lg(n)) > 0.5 + 1e-9 for k, n in zip(said, ints)):
        rep.violate('order', str(num), [text, [str(n) for n in ints]])


def order(rep, sp, num, v):
    """digits() and estimate()."""
    if not v.sign() or isinstance(v.x, int) and abs(v.x) < 1000 * v.d:
        # of these there is no need of an estimate
        return
    sign = v.sign()
    ok, less = sp.ask('sign', lambda: num < 0)
    if not ok or less != (sign < 0):
        # whether a number is negative is C03's
        rep.count('sign not known')
        return
    ok, est = sp.ask('estimate', lambda: num.estimate())
    if not ok:
        return
    rep.traces += 1
    if isinstance(est, str):
        if 'OverflowError' not in est:
            rep.violate('estimate' if sign > 0 else 'estimate of a negative number',
                        str(num)[:300], est)
        return
    if (kind(est) == 'Mul' and est.l == -1) != (sign < 0):
        rep.violate('sign of the estimate', str(num)[:300], str(est))
        return
    if sign < 0:
        est = est.r
    if kind(est) == 'Tet':
        try:
            h = height(v)
        except (R.Skip, ValueError, OverflowError):
            rep.count('height unknown')
            return
        rep.transitions += 1
        rep.count('towers')
        if est.base != 10 or not h - 1.25 < est.height < h + 1.35:
            rep.violate('height', str(num)[:300], [str(est), h])
        return
    if kind(est) == 'Exp' and est.base == 10 and isinstance(est.exp, int):
        k = est.exp
    elif isinstance(est, int):
        k = round(lg(est)) if est else 0
    else:
        rep.violate('estimate', str(num)[:300], str(est))
        return
    off = slack(num)
    try:
        true = logs(v)
    except (ValueError, OverflowError):
        true = None
    if off is None or true is None:
        rep.count('terms of one size')
        return
    rep.transitions += 1
    rep.count('orders')
    # digits are counted in floating point
    if abs(k - true) > off + true * 1e-9:
        rep.violate('digits' if sign > 0 else 'digits of a negative number', str(num)[:300], [k, true, off])


def work(rep, k, _):
    base = list(BASES)[k]
    sp = Space(rep, base)
    A, one, two = sp.levels(rep.tier)
    for x in sp.exps + one + two:
        shown(rep, sp, x)
    for x in sp.exps + one[::1]:
        for d in (2, 3, 4, 7, 12):
            try:
                if R.value(x).mod(d):
                    continue
            except R.Skip:
                continue
            ok, got = sp.ask('//', lambda: x // d)
            if ok and not isinstance(got, (int, str)):
                shown(rep, sp, got)
        # one more power: these are towers
        if not isinstance(x, int) and R.value(x).sign() > 0:
            ok, got = sp.ask('power', lambda: sp.num.make_exp(base, x))
            if ok and not isinstance(got, (int, str)):
                shown(rep, sp, got)
    for x in two:
        if isinstance(x, int) or R.value(x).sign() <= 0:
            continue
        ok, got = sp.ask('power', lambda: sp.num.make_exp(base, x))
        if ok and not isinstance(got, (int, str)):
            shown(rep, sp, got)
            for add in (-1, 1, 3 * got):
                ok, more = sp.ask('+', lambda: got + add)
                if ok and not isinstance(more, (int, str)):
                    shown(rep, sp, more)
    if rep.tier != 'quick':
        b, c, t = sp.exps[0], sp.exps[1], sp.exps[3]
        some = [b, c, t, 1 + b, 3 + b, 2 * b, 1 + t, 3 * t]
        for x in two:
            for y in some:
                for f in (lambda: x + y, lambda: x * y):
                    ok, got = sp.ask('deep', f)
                    if ok and not isinstance(got, (int, str)):
                        shown(rep, sp, got)
    # small powers, of which every part can be written out
    num = sp.num
    small = [num.make_exp(b, n) for b in (2, 3, 5, 7, 10) for n in
             (3, 5, 9, 10, 11, 20, 33, 60, 100)]
    for x in small:
        flat(rep, sp, x)
        for y in small:
            for n in (1, 3, 10 ** 13 + 1):
                for f in (lambda: x + n * y, lambda: n * x * y, lambda: n * x - y,
                          lambda: n * x + x * y, lambda: -n * x + y,
                          lambda: -n * (x + y)):
                    ok, got = sp.ask('small', f)
                    if ok and not isinstance(got, (int, str)):
                        flat(rep, sp, got)
        for d in (2, 3, 10, 99, 128, 1000, 2048, 10 ** 5):
            c = -int(x) % d
            ok, got = sp.ask('quotient', lambda: (c + x) // d)
            if ok and not isinstance(got, (int, str)):
                flat(rep, sp, got)
        for b in (2, 3, 10):
            for n in (0, 1, 3):
                ok, got = sp.ask('power', lambda: num.make_exp(b, n + x))
                if ok and not isinstance(got, (int, str)):
                    shown(rep, sp, got)
    # numbers of more and more leaves, narrow and wide, up to those too long
    def chain(k):
        x = num.make_exp(base, 60)
        for n in range(2, k):
            x = n + num.make_exp(base, n * x)
        return x

    top = 44 if rep.tier == 'quick' else 70
    for n in range(3, top):
        ok, x = sp.ask('chain', lambda: chain(n))
        if not ok or isinstance(x, (int, str)):
            continue
        shown(rep, sp, x)
        for m in (n - 1, n, n + 1):
            for f in (lambda: num.make_add(x, chain(m)),
                      lambda: num.make_mul(x, chain(m))):
                ok, y = sp.ask('wide', f)
                if ok and not isinstance(y, (int, str)):
                    shown(rep, sp, y)


def integers(rep, k, n):
    """Integers by their order: every power of ten and half way between."""
    show_number = load().show_number
    top = 2000 if rep.tier == 'quick' else 6000
    for e in range(k, top, n):
        for m in (1, 2, 3, 5, 9):
            for c in (-1, 0, 1):
                for sign in (1, -1):
                    x = sign * (m * 10 ** e + c)
                    got = show_number(x)
                    rep.states += 1
                    rep.transitions += 1
                    rep.traces += 1
                    if abs(x) < TRUNCATE:
                        if got != str(x):
                            rep.violate('integer', x, got)
                        continue
                    row = re.fullmatch(r'(-?)\(~10\^(\d+)\)', got)
                    if not row or bool(row[1]) != (x < 0) or not \
                            2 * abs(int(row[2]) - lg(x)) < 1.0001:
                        rep.violate('integer', f'{sign * m}*10^{e}+{c}', got)


def run(rep, tier):
    rep.bounds.append('bases ' + ', '.join(map(str, BASES)) + '; terms of depth 2'
                      ', one power more, quotients, sums of up to 130 powers; integers'
                      ' beside 1, 2, 3, 5 and 9 times every power of ten')
    shards(rep, work, shards=len(BASES))
    shards(rep, integers)
