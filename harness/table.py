"""Programs as plain tables, read and written here, and run step by step."""
from itertools import product


def read(text):
    """'1RB ...  1LA 0RB' -> {(state, color): (color, right, state)}, size"""
    rows = [row.split(' ') for row in text.split('  ')]
    assert all(len(row) == len(rows[0]) for row in rows), text
    out = {}
    for s, row in enumerate(rows):
        for c, cell in enumerate(row):
            if '.' not in cell:
                color, way, to = cell
                out[s, c] = (int(color), way == 'R', ord(to) - ord('A'))
    return out, len(rows), len(rows[0])


def cell(instr):
    if instr is None:
        return '...'
    color, right, to = instr
    return f"{color}{'R' if right else 'L'}{chr(ord('A') + to)}"


def write(table, states, colors):
    return '  '.join(
        ' '.join(cell(table.get((s, c))) for c in range(colors))
        for s in range(states))


def instrs(states, colors):
    return [(c, d, s) for c, d, s in
            product(range(colors), (False, True), range(states))]


class Run:
    """A run on a plain tape, one step at a time."""

    def __init__(self, table):
        self.table = table
        self.tape = {}
        self.pos = 0
        self.state = 0
        self.steps = 0

    @property
    def scan(self):
        return self.tape.get(self.pos, 0)

    def step(self):
        """The instruction taken, or None where there is none."""
        got = self.table.get((self.state, self.scan))
        if got is None:
            return None
        color, right, to = got
        if color:
            self.tape[self.pos] = color
        else:
            self.tape.pop(self.pos, None)
        self.pos += 1 if right else -1
        self.state = to
        self.steps += 1
        return got

    def beyond(self):
        """Nothing but blanks ahead of the next move, which repeats."""
        got = self.table.get((self.state, self.scan))
        if got is None or got[2] != self.state or self.scan:
            return False
        ahead = [p for p in self.tape if (p > self.pos) == got[1] and p != self.pos]
        return not ahead
