"""The search over programs: what it hands over, as a set, for every size,
goal and limit in the bounds, whatever the number of threads."""
import os
import shutil
import subprocess
import sys
import tempfile
from itertools import product

from .. import build, shim, table
from ..core import shards
from ..ctrace import SRC

ASK = '''
import sys
from harness import shim
shim.install()
with open(sys.argv[1], 'w') as f:
    for prog in shim.tree_progs((int(sys.argv[2]), int(sys.argv[3])),
                                sys.argv[4] == '1', int(sys.argv[5])):
        print(prog, file=f)
'''


def sorted_lines(path):
    with open(path) as f:
        return sorted(f.read().split('\n')[:-1])


def difference(got, want):
    """(kind, program) where two sorted lists part."""
    i = j = 0
    while i < len(got) or j < len(want):
        if i and i < len(got) and got[i] == got[i - 1]:
            yield 'handed over twice', got[i]
            i += 1
        elif j == len(want) or (i < len(got) and got[i] < want[j]):
            yield 'handed over', got[i]
            i += 1
        elif i == len(got) or want[j] < got[i]:
            yield 'missing', want[j]
            j += 1
        else:
            i += 1
            j += 1


def raw(states, colors, halt):
    """All tables that start 1RB, with one slot or none left out."""
    slots = list(product(range(states), range(colors)))[1:]
    instrs = list(product(range(colors), (False, True), range(states)))
    for hole in slots if halt else [None]:
        rest = [s for s in slots if s != hole]
        for choice in product(instrs, repeat=len(rest)):
            yield {(0, 0): (1, True, 1), **dict(zip(rest, choice))}


def used(prog, states, colors, halt, limit):
    """What it is known by: the instructions its run takes until that tells, or
    the number there are; names in order.  None where it halts before that, or
    is of a smaller size."""
    most = states * colors - halt
    tape, at, state, lo, hi = {}, 0, 0, 0, 0
    order, since = [], 0
    while True:
        slot = (state, tape.get(at, 0))
        if since == limit:
            break
        if slot not in order:
            if slot not in prog:
                return None
            order.append(slot)
            since = 0
            if len(order) == most:
                break
        color, right, to = prog[slot]
        if to == state and not slot[1] and not any(
                v for k, v in tape.items() if (k > at if right else k < at)):
            break
        since += 1
        while True:             # one go over cells alike in one state is one step
            tape[at] = color
            at += 1 if right else -1
            if to != state or tape.get(at, 0) != slot[1]:
                break
        state = to
        if not any(tape.values()):
            break
    st, co = {0: 0}, {0: 0}
    for slot in order:
        color, _, to = prog[slot]
        st.setdefault(to, len(st))
        co.setdefault(color, len(co))
    if states - 1 not in [st[prog[s][2]] for s in order]:
        return None
    if colors - 1 not in [co[prog[s][0]] for s in order]:
        return None
    return table.write({(st[s], co[c]): (co[prog[s, c][0]], prog[s, c][1], st[prog[s, c][2]])
                        for s, c in order}, states, colors)


def run(rep, tier):
    build.build()
    deep = tier != 'quick'
    scratch = tempfile.mkdtemp(prefix='vtree')
    ref = os.path.join(scratch, 'treeref')
    subprocess.run(['gcc', '-O2', os.path.join(SRC, 'treeref.c'), '-o', ref], check=True)

    jobs = []
    small = (*range(1, 12), 30, 107, 876) if deep else (*range(1, 8), 30, 876)
    for size in ((2, 2), (3, 2), (2, 3)):
        for halt in (1, 0):
            jobs += [('all', size, halt, lim, n)
                     for lim in small for n in ((1, 3, 8) if lim in (5, 876) else (4,))]
    jobs += [('all', (4, 2), 1, 876, 8), ('all', (4, 2), 0, 876, 8),
             ('all', (2, 4), 1, 876, 8), ('all', (2, 4), 0, 876, 8),
             ('all', (2, 5), 1, 2, 8), ('all', (3, 3), 1, 2, 8), ('all', (3, 3), 0, 1, 8)]
    jobs += [('all', (4, 2), 1, lim, 2) for lim in (3, 30)]
    jobs += [('all', (2, 4), 1, lim, 2) for lim in (3, 30)]
    if deep:
        jobs += [('all', (3, 3), 1, 300, 8), ('all', (2, 5), 1, 3, 8),
                 ('all', (5, 2), 1, 2, 8), ('all', (4, 2), 1, 2000, 1),
                 ('all', (2, 4), 1, 2000, 3)]
    parts = 6
    for size in ((2, 2), (3, 2), (2, 3)):
        for halt in (1, 0):
            for lim in (10, 60) if deep else (10, 20):
                jobs += [('raw', size, halt, lim, part) for part in range(parts)]
    jobs.sort(key=lambda j: -(j[1][0] * j[1][1] * j[3]))
    rep.bounds.append(f'{len([j for j in jobs if j[0] == "all"])} searches (up to'
                      f' {"3x3, 5x2" if deep else "4x2, 2x4; 2x5, 3x3 with small limits"}),'
                      ' with and without halting, with limits from 1 to 876, with 1 to 8'
                      ' threads; and every table of 2x2, 3x2, 2x3')

    def ask(path, states, colors, halt, lim, threads):
        env = dict(os.environ, RAYON_NUM_THREADS=str(threads))
        return subprocess.run(
            [sys.executable, '-c', ASK, path, str(states), str(colors), str(halt),
             str(lim)], env=env, check=False, timeout=600, cwd=build.VERIF,
            capture_output=True, text=True)

    def work(sub, k, total):
        for n, (what, (states, colors), halt, lim, arg) in list(enumerate(jobs))[k::total]:
            name = f'{states}x{colors} {"halt" if halt else "all"} {lim}'
            path = os.path.join(scratch, str(n))
            try:
                done = ask(path, states, colors, halt, lim, arg if what == 'all' else 2)
            except subprocess.TimeoutExpired:
                sub.violate('no end', name, 'of the search')
                continue
            if done.returncode:
                sub.violate('fails', name, done.stderr[-300:])
                continue
            got = sorted_lines(path)
            if what == 'all':
                with open(path, 'w') as f:
                    subprocess.run([ref, str(states), str(colors), str(halt), str(lim)],
                                   stdout=f, check=True)
                want = sorted_lines(path)
                sub.states += len(want)
                sub.transitions += len(got)
                sub.traces += 1
                sub.count(name, len(want))
                for i, (kind, prog) in enumerate(difference(got, want)):
                    if i == 1000:
                        break
                    sub.violate(kind, f'{prog} in {name}, {arg} threads', '')
            else:
                have = set(got)
                for i, prog in enumerate(raw(states, colors, halt)):
                    if i % parts != arg:
                        continue
                    sub.states += 1
                    key = used(prog, states, colors, halt, lim)
                    if key is None:
                        sub.count('halts early, or smaller')
                    elif key not in have:
                        sub.violate('not represented', table.write(prog, states, colors),
                                    f'{key} in {name}')
                    else:
                        sub.count('represented')
            os.unlink(path)
    try:
        shards(rep, work, shards=min(len(jobs), 24))
    finally:
        shutil.rmtree(scratch)
