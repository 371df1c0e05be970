"""Plain cells: the reference for the compressed tapes."""
from itertools import product


class Cells:
    """Nearest first on both sides, without trailing blanks."""
    __slots__ = 'left', 'scan', 'right'

    def __init__(self, left=(), scan=0, right=()):
        self.left, self.scan, self.right = list(left), scan, list(right)

    def clone(self):
        return Cells(self.left, self.scan, self.right)

    def key(self):
        return tuple(self.left), self.scan, tuple(self.right)

    def step(self, shift, color, skip):
        """A jump goes on while the cells ahead are as the first one was."""
        was, n = self.scan, 0
        ahead, behind = (self.right, self.left) if shift else \
            (self.left, self.right)
        while True:
            more = skip and ahead and ahead[0] == was
            behind.insert(0, color)
            self.scan = ahead.pop(0) if ahead else 0
            n += 1
            if not more:
                break
        for side in (self.left, self.right):
            while side and not side[-1]:
                side.pop()
        return n

    def cells(self):
        return self.left[::-1] + [self.scan] + self.right


def blocks(side):
    out = []
    for c in side:
        if out and out[-1][0] == c:
            out[-1][1] += 1
        else:
            out.append([c, 1])
    return out


def text(c):
    def show(b):
        return f'{b[0]}' if b[1] == 1 else f'{b[0]}^{b[1]}'
    return ' '.join([show(b) for b in reversed(blocks(c.left))]
                    + [f'[{c.scan}]'] + [show(b) for b in blocks(c.right)])


def signature(c):
    def side(s):
        return tuple((b[0],) if b[1] == 1 else b[0] for b in blocks(s))
    return c.scan, side(c.left), side(c.right)


def fits(sig, other):
    """The sides of `other` are beginnings of those of `sig`, by color."""
    def colors(s):
        return [x[0] if isinstance(x, tuple) else x for x in s]
    return sig[0] == other[0] and all(
        colors(a)[:len(b)] == colors(b) for a, b in zip(sig[1:], other[1:]))


def acts(n):
    return list(product((False, True), range(n), (False, True)))


def sides(n, count, most):
    """Every side of up to `count` blocks of up to `most` cells."""
    out = [[]]
    for k in range(1, count + 1):
        for cs in product(range(n), repeat=k):
            if cs[-1] and all(a != b for a, b in zip(cs, cs[1:])):
                for ns in product(range(1, most + 1), repeat=k):
                    out.append([c for c, m in zip(cs, ns) for _ in range(m)])
    return out


def common(a, b):
    """Blocks that two sides share, nearest first; None when all of them."""
    if a == b:
        return None
    n = 0
    for x, y in zip(blocks(a), blocks(b)):
        if x != y:
            break
        n += 1
    return n
