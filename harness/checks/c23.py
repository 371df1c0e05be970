"""The block size chosen, against one chosen on plain cells."""
from .. import shim, table
from ..core import DATA, KNOWN, Guard, Hang, shards
from ..pyrun import programs


class Cells:
    """A tape of cells, moved over a run of like cells at a time."""

    def __init__(self):
        self.cells = {}
        self.at = 0

    def scan(self):
        return self.cells.get(self.at, 0)

    def beyond(self, right):
        return any(k > self.at if right else k < self.at for k in self.cells)

    def sweep(self, color, right, same):
        seen = self.scan()
        while True:
            if color:
                self.cells[self.at] = color
            else:
                self.cells.pop(self.at, None)
            self.at += 1 if right else -1
            if not same or self.scan() != seen:
                break

    def line(self):
        lo = min([self.at, *self.cells])
        hi = max([self.at, *self.cells])
        return [self.cells.get(k, 0) for k in range(lo, hi + 1)]

    def groups(self):
        """Of like cells beside the head, up to the last mark."""
        total = 0
        for right in (False, True):
            far = [k for k in self.cells if (k > self.at if right else k < self.at)]
            if not far:
                continue
            end = max(far) if right else min(far)
            way = 1 if right else -1
            last = None
            for k in range(self.at + way, end + way, way):
                if self.cells.get(k, 0) != last:
                    last = self.cells.get(k, 0)
                    total += 1
        return total


def best(prog, steps):
    """The tape after the sweep that starts where there are most groups first;
    the least number of cells that makes it shortest when neighbours of that
    many like cells are taken together."""
    state, tape, most, lines = 0, Cells(), 0, None
    for _ in range(steps):
        instr = prog.get((state, tape.scan()))
        if instr is None:
            return 1
        color, right, to = instr
        if to == state and not tape.scan() and not tape.beyond(right):
            return 1
        groups = tape.groups()
        tape.sweep(color, right, to == state)
        state = to
        if groups > most:
            most, lines = groups, tape.line()
    if lines is None:
        lines = [0]
    sizes = {}
    for k in range(1, len(lines) // 2):
        saved = sum(k for i in range(0, len(lines) - 2 * k, k)
                    if lines[i:i + k] == lines[i + k:i + 2 * k])
        sizes[k] = len(lines) - saved
    return min(sizes, key=lambda k: (sizes[k], k)) if sizes else 1


def run(rep, tier):
    shim.install()
    from tm.macro import make_macro, opt_block
    deep = tier != 'quick'
    limits = (0, 1, 2, 3, 5, 8, 13, 40, 100, 300) if deep else (0, 1, 7, 40, 120, 300)
    spaces = [('raw:2x2', programs('raw:2x2'))]
    spaces += [(f'tnf:{s}', programs(f'tnf:{s}:100')) for s in ('3x2', '2x3')]
    for size, n in (('4x2', 8), ('2x4', 7), ('3x3', 6)):
        open_ = programs(f'tnf:{size}:100', 100, False, n if deep else 5)
        spaces.append((f'tnf:{size}, up to {n if deep else 5} instructions, open', open_))
    spaces += [(s, programs(s)) for s in ('as:0,3,7:0,9/tnf:3x2:100',
                                          'as:0,11:0,6,9/tnf:2x3:100')]
    spaces += [('programs/known.prog', programs(KNOWN)),
               ('programs/data.prog', programs(DATA)[::1 if deep else 20])]
    for name, progs in spaces:
        rep.bounds.append(f'{name}: {len(progs)} programs, {limits} steps')
    progs = [t for _, ps in spaces for t in ps]

    def work(sub, k, total):
        for text in progs[k::total]:
            prog, _, _ = table.read(text)
            sub.states += 1
            for steps in limits:
                sub.transitions += 1
                want = best(prog, steps)
                try:
                    with Guard(20):
                        got = opt_block(text, steps)
                except (Exception, Hang) as err:
                    sub.violate('fails', f'{text} {steps}', repr(err)[:200])
                    continue
                macro = make_macro(text, opt_macro=steps)
                if (1 if isinstance(macro, dict) else macro.cells) != got:
                    sub.violate('not used', f'{text} {steps}', str(macro))
                if got != want:
                    sub.violate('another size', f'{text} {steps}', f'{got}, not {want}')
                sub.count('1' if want == 1 else 'more than 1')
    shards(rep, work, shards=32)
