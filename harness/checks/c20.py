"""The hand-structured C machines, next to their tables."""
import os

from .. import table
from ..build import REPO
from ..core import shards
from ..ctrace import Bench, trace

# What each file rewrites, and the cells, from how far left of the head, that
# it takes to be blank at the start.
MACHINES = {
    '1434': ('1RB ... ... ...  0LC 2LC ... ...  0LC 3RD 0RD 2RE  1LF 1LC 1RB ...'
             '  ... 3RD ... ...  1LG ... 2RB 1LF  2RE ... 2LC ...', (0, 2)),
    '15721562': ('1RB ... ... ... ...  2LC ... ... ... ...  3RD 3LC ... 1LC 1R_'
                 '  ... 1RD 1RB 1LE ...  4RD 1LE ... 1RD 1LC', (-1, 3)),
    '21': ('1RB 1L_  1LB 0RC  1LC 1LA', (0, 0)),
    '2315619': ('1RB 2LB 1LC  1LA 2RB 1RB  1R_ 2LA 0LC', (0, 0)),
    '2333909': ('1RB 2RB 1LB 1LA  1LB 3RA 3LA 2RB', (0, 1)),
    '2819': ('1RB 1RC  1LC 1RD  1RA 1LD  0RD 0LB', (0, 2)),
    '31315': ('1RB 1LC  0LC 0RD  1RD 1LE  1RE 1LA  1LA 0LB', (0, 0)),
    '32779477': ('1RB 1LC  1RD 1RB  0RD 0RC  1LD 1LA', (0, 2)),
    '34': ('1RB 1LB  1LA 1LC  1RC 0LC', (0, 0)),
    '3932964': ('1RB 2LA 1RA 1RA  1LB 1LA 3RB 1R_', (0, 1)),
    '455790469742': ('1RB ...  0RC 1RB  1LC 1LD  1RE 0RD  0LE 0RB', (0, 1)),
    '455790469746': ('1RB ...  0LC 0LB  0LD 1LC  1RD 0RE  1LB 1LA', (0, 1)),
    '47176870': ('1RB 1LC  1RC 1RB  1RD 0LE  1LA 1LD  1R_ 0LA', (0, 0)),
    '66345': ('1RB 0LC  1LD 0LA  1RC 1RD  1LA 0LD', (0, 0)),
    '7021292621': ('1RB 4LA 1LA 1R_ 2RB  2LB 3LA 1LB 2RA 0RB', (0, 0)),
    # on 10111, written by five steps of its own (E to I here)
    '9340': ('2LA 3LB 0RA 0RB  1RA 2RB 1RB 2RA', (0, 5)),
}


def parts(text):
    """The table; '_' is the end (-1)."""
    prog, states, colors = table.read(text)
    for slot, (c, d, s) in prog.items():
        if s == ord('_') - 65:
            prog[slot] = (c, d, -1)
    return prog, states, colors


def run(rep, tier):
    deep = tier != 'quick'
    folder = os.path.join(REPO, 'machines', 'structured')
    bench = Bench(os.path.join(folder, 'machine.h'))
    names = sorted(f[:-2] for f in os.listdir(folder) if f.endswith('.c'))
    most = 2_000_000_000 if deep else 60_000_000
    most_tapes = 1_000_000 if deep else 70_000
    rep.bounds.append(f'{len(MACHINES)} machines from the blank tape, for up to'
                      f' {most} steps; and with every content of the cells around'
                      f' those they assume blank (up to {most_tapes} of them), for up to 2000')
    if missing := set(MACHINES) - set(names):
        rep.assumptions.append(f'no longer there: {sorted(missing)}')
    for name in names:
        if name not in MACHINES:
            rep.assumptions.append(f'{name}.c: no table known, not checked')

    def work(sub, k, total):
        for name in [n for n in names if n in MACHINES][k::total]:
            text, blank = MACHINES[name]
            prog, states, colors = parts(text)
            if name == '9340':
                for i, (c, to) in enumerate(((1, 3), (0, 4), (1, 5), (1, 6), (1, 0))):
                    prog[2 + i, 0] = (c, True, to)
                move = {0: 5, 1: 6, **{2 + i: i for i in range(5)}}
                prog = {(move[s], c): (p, d, move[t])
                        for (s, c), (p, d, t) in prog.items()}
                states = 7
            with open(os.path.join(folder, name + '.c')) as f:
                body = f.read()
            free = 1
            while colors ** (free + 1) <= most_tapes:
                free += 1
            w = free + blank[1]
            trace(sub, bench, 't' + name,
                  [(body, prog, states, colors, None, blank)],
                  [name], w, most, open_=True, inside=True)
            sub.count(f'{name}: ended', sub.tally.get('runs that ended', 0))
    try:
        shards(rep, work, shards=len(MACHINES))
    finally:
        bench.close()
