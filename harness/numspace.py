"""Every number the operations of tm.num reach from a few leaves, up to a depth.

Leaves: small integers; b**n for large n; towers of them.  A refusal
(AssertionError, NotImplementedError, RecursionError, a modulus limit) is
allowed; an answer has to be exact."""
import sys

from . import core
from . import numref as R
from .core import Guard, Hang

BASES = {2: [(4, 30), (8, 21), (16, 16)], 3: [(9, 30), (27, 20)], 5: [(25, 31)],
         6: [(36, 30)], 7: [], 10: [], 12: []}

OPS = {'+': lambda x, y: x + y,
       '-': lambda x, y: x - y,
       '*': lambda x, y: x * y}

ORDER = {'<': (lambda x, y: x < y, lambda c: c < 0),
         '<=': (lambda x, y: x <= y, lambda c: c <= 0),
         '>': (lambda x, y: x > y, lambda c: c > 0),
         '>=': (lambda x, y: x >= y, lambda c: c >= 0)}


def load():
    sys.dont_write_bytecode = True
    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    sys.setrecursionlimit(1500)
    from tm import num
    return num


class Space:
    def __init__(self, rep, base):
        self.rep = rep
        self.num = load()
        self.base = base
        self.refuse = (AssertionError, NotImplementedError, RecursionError,
                       self.num.ExpModLimit, self.num.ModDepthLimit)
        me = self.num.make_exp
        b = base
        self.ints = [-2, -1, 1, 2, 3, 5]
        self.exps = [me(b, 60), me(b, 61), me(b, 300),
                     me(b, me(b, 60)), me(b, 1 + me(b, 60)),
                     me(b, 2 * me(b, 300) + 3)]
        if b in (2, 3, 5, 6, 10):
            self.exps += [me(c, n) for c, n in BASES[b]]
        self.leaves = self.ints + list(dict.fromkeys(self.exps))

    def ask(self, name, call):
        """(True, answer) or (False, why not)."""
        try:
            with Guard(20):
                return True, call()
        except self.refuse as err:
            self.rep.count(f'{name}: {type(err).__name__}')
            return False, None
        except Hang:
            return True, 'no answer in 20 s'
        except Exception as err:  # nothing else is a refusal
            return True, repr(err)

    def arith(self, xs, ys, judge=True):
        """All of xs op ys; the distinct numbers found."""
        out = {}
        rep = self.rep
        for x in xs:
            for y in ys:
                if isinstance(x, int) and isinstance(y, int):
                    continue
                for name, f in OPS.items():
                    try:
                        want = f(R.value(x), R.value(y))
                    except R.Skip:
                        continue
                    rep.transitions += 1
                    ok, got = self.ask(name, lambda: f(x, y))
                    if not ok:
                        continue
                    rep.traces += 1
                    try:
                        good = not isinstance(got, str) \
                            and not R.value(got).cmp(want)
                    except R.Skip:
                        rep.count('result beyond the reference')
                        continue
                    if not good:
                        if judge:
                            rep.violate('arithmetic', f'{x} {name} {y}', str(got))
                    elif not isinstance(got, int):
                        out[id(got)] = got
        return list(out.values())

    def levels(self, deep):
        A = self.leaves
        one = self.arith(A, A)
        two = self.arith(one, A) + self.arith(A, one)
        two = list({id(x): x for x in two}.values())
        self.rep.states += len(A) + len(one) + len(two)
        return A, one, two
