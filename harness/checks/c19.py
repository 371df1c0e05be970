"""Generated C programs, compiled and run next to the table."""
import os

from .. import shim, table
from ..build import REPO
from ..core import KNOWN, Guard, Hang, shards
from ..ctrace import Bench, trace
from ..pyrun import programs
from .c16 import lone


def run(rep, tier):
    shim.install()
    from tools.c import make_c
    deep = tier != 'quick'
    bench = Bench(os.path.join(REPO, 'machines', 'structured', 'machine.h'))

    def over(name, progs, width, most, batch=150):
        rep.bounds.append(f'{name}: {len(progs)} programs, blank tape and every'
                          f' tape of {width} cells, {most} steps')
        parts = [progs[i:i + batch] for i in range(0, len(progs), batch)]

        def work(sub, k, total):
            for j, part in enumerate(parts):
                if j % total != k:
                    continue
                jobs, texts = [], []
                for text in part:
                    prog, states, colors = table.read(text)
                    try:
                        with Guard(20):
                            c = make_c(text)
                    except (Exception, Hang) as err:
                        sub.violate('not generated', text, repr(err))
                        continue
                    jobs.append((c, prog, states, colors, (1, True, -1)))
                    texts.append(text)
                if jobs:
                    trace(sub, bench, f't{k}', jobs, texts, width, most)
        shards(rep, work, shards=32)

    try:
        over('raw:2x2', programs('raw:2x2'), 5, 300)
        for size, width in (('3x2', 5), ('2x3', 4)):
            over(f'tnf:{size}:100', programs(f'tnf:{size}:100'), width, 300)
        shapes = [t for s in range(1, 13) for c in range(2, 11)
                  if s * c <= (12 if deep else 8) for t in lone(s, c)]
        over('single instructions', shapes, 2, 100)
        over('programs/known.prog', [t for t in programs(KNOWN) if 100 < len(t) or deep], 2, 300)
        if deep:
            for size in ('4x2', '2x4', '3x3'):
                progs = programs(f'tnf:{size}:100', 100, False, 6)
                over(f'tnf:{size}, up to 6 instructions, open', progs, 4, 300)
        over('many states', [t for s in (8, 12, 26) for i, t in enumerate(lone(s, 2))
                             if deep or s < 26 or i % 50 == 0], 2, 100)
    finally:
        bench.close()
