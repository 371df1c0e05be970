"""The C enumerators: streams of programs, each against the program alone."""
import os
import shutil
import subprocess
import tempfile
from itertools import product

from ..build import REPO
from ..core import shards
from ..ctrace import SRC

FOLDER = os.path.join(REPO, 'machines')
LIMITS = {'2-2': 40, '2-3': 300, '2-4': 2**25, '3-2': 2**16,
          '4-2': 35_000_000, '5-2': 2**27}


def build(scratch, name):
    """The enumerator, and the most steps it goes."""
    exe = os.path.join(scratch, name)
    src = os.path.join(FOLDER, name + '.c')
    done = subprocess.run(
        ['gcc', '-O2', '-w', '-fsanitize=bounds', '-fno-sanitize-recover=all',
         '-mcmodel=large', src, '-o', exe], capture_output=True, text=True)
    if done.returncode:
        return None, done.stderr[-300:]
    ask = os.path.join(scratch, name + '.limit.c')
    with open(ask, 'w') as f:
        f.write(f'#define main enumerate\n#include "{src}"\n#undef main\n'
                'int main(void) { printf("%ld\\n", (long)(XLIMIT)); return 0; }\n')
    got = subprocess.run(['gcc', '-O0', '-w', '-mcmodel=large', ask, '-o', exe + '.limit'],
                         capture_output=True, check=False)
    if got.returncode:
        return exe, LIMITS[name]
    got = subprocess.run([exe + '.limit'], capture_output=True, text=True, check=True)
    return exe, int(got.stdout)


def every(states, colors):
    """Every table that starts with 1RB, without that."""
    cells = [f'{c}{d}{t}' for c in range(colors) for d in 'LR'
             for t in 'ABCDEFG'[:states] + 'H']
    return map(''.join, product(cells, repeat=states * colors - 1))


def grown(states, colors, most):
    """Tables of up to that many instructions, each needed within 60 steps of
    the run of those before it, and 1RH elsewhere."""
    def text(prog):
        return ''.join(prog.get((s, c), '1RH')
                       for s in range(states) for c in range(colors))[3:]

    def grow(prog):
        yield text(prog)
        tape, at, state = {}, 0, 0
        for _ in range(60):
            slot = (state, tape.get(at, 0))
            if slot not in prog:
                break
            c, d, t = prog[slot]
            tape[at] = int(c)
            at += 1 if d == 'R' else -1
            state = ord(t) - 65
        else:
            return
        if len(prog) == min(most, states * colors - 1):
            return
        seen = max(max(ord(i[2]) - 65 for i in prog.values()), 0) + 1
        used = max(int(i[0]) for i in prog.values()) + 1
        for c in range(min(used + 1, colors)):
            for d in 'LR':
                for t in range(min(seen + 1, states)):
                    yield from grow({**prog, slot: f'{c}{d}{chr(65 + t)}'})

    return grow({(0, 0): '1RB'})


def run(rep, tier):
    deep = tier != 'quick'
    scratch = tempfile.mkdtemp(prefix='vstream')
    ref = os.path.join(scratch, 'enumref')
    subprocess.run(['gcc', '-O2', os.path.join(SRC, 'enumref.c'), '-o', ref], check=True)
    names = sorted(f[:-2] for f in os.listdir(FOLDER) if f.endswith('.c'))
    rep.assumptions += [f'{n}.c: not known, not checked' for n in names if n not in LIMITS]
    names = [n for n in names if n in LIMITS]

    def steps_of(size, progs, limit):
        """How long each goes, -1: longer than that."""
        states, colors = size.split('-')
        got = subprocess.run([ref, states, colors, str(limit), '0'], check=True,
                             input='\n'.join(progs) + '\n', capture_output=True, text=True)
        return list(map(int, got.stdout.split()))

    def stream(sub, name, what, size, exe, limit, progs):
        path = os.path.join(scratch, f'{name}.{what}')
        with open(path, 'w') as f:
            for prog in progs:
                f.write(prog + '\n')
        states, colors = size.split('-')
        with open(path) as f, open(path + '.want', 'w') as g:
            subprocess.run([ref, states, colors, str(limit), '1'], check=True,
                           stdin=f, stdout=g)
        died = None
        with open(path) as f, open(path + '.got', 'w') as g:
            try:
                done = subprocess.run([exe], stdin=f, stdout=g, check=False, timeout=100,
                                      stderr=subprocess.PIPE, text=True)
                if done.returncode:
                    died = f'exit {done.returncode} {done.stderr[-200:]}'
            except subprocess.TimeoutExpired:
                died = 'no end'
        lines = 0
        with open(path + '.want') as a, open(path + '.got', errors='replace') as b:
            while True:
                x, y = a.readline(), b.readline()
                if x != y:
                    break
                if not x:
                    break
                lines += 1
        if x != y or died:
            num = int(x.split()[0]) if x[:1].isdigit() else None
            if y[:1].isdigit() and (num is None or int(y.split()[0]) < num):
                num = int(y.split()[0])
            where = ''
            if num:
                with open(path) as f:
                    text = f.read().split('\n')
                where = f'{text[num - 1]} after {text[num - 2] if num > 1 else "nothing"}'
            sub.violate(f'{name}: other figures', f'{what}: {where}',
                        f'{y.strip()!r}, not {x.strip()!r}; {died or ""}')
        sub.states += len(progs) if isinstance(progs, list) else 0
        sub.traces += 1
        sub.transitions += lines
        sub.count(f'{name}: programs reported', lines)
        for end in ('', '.want', '.got'):
            os.unlink(path + end)

    def pool(size, most, quick):
        """Programs that end within `quick` steps, at most that many, the long-runners"""
        progs = list(grown(*map(int, size.split('-')), 5 if size > '4' else 6))
        took = steps_of(size, progs, quick)
        short = [p for p, t in zip(progs, took) if t >= 0]
        rest = [p for p, t in zip(progs, took) if t < 0]
        every_ = max(1, len(short) // most)
        return short[::every_][:most], rest

    def pairs(progs):
        """Every one after every one."""
        for i, a in enumerate(progs):
            for b in progs[i:]:
                yield a
                yield b
        yield progs[0]

    jobs = []
    for name in names:
        if name == '2-2':
            jobs += [(name, 'pairs', 0)]
        elif name == '2-3':
            jobs += [(name, 'all', k) for k in range(4)]
            jobs += [(name, 'pairs', 0)]
        else:
            jobs += [(name, 'pairs', 0), (name, 'long', 0)]
        jobs += [(name, 'triples', 0)]

    most = 1500 if deep else 500
    rep.bounds.append(
        f'{len(names)} enumerators: streams of all ordered pairs of up to {most} programs'
        f' (2-2: every program), all triples of {100 if deep else 50}, each short program'
        ' after long ones, and every 2-3 program in one stream')

    def work(sub, k, total):
        for name, what, part in jobs[k::total]:
            exe, limit = build(scratch_of(name, what, part), name)
            if exe is None:
                sub.violate('does not compile', name, limit)
                continue
            states, colors = map(int, name.split('-'))
            if what == 'all':
                progs = [p for i, p in enumerate(every(states, colors))
                         if i * 4 // 18**5 == part]
                stream(sub, name, f'all{part}', name, exe, limit, progs)
            elif name == '2-2' and what == 'pairs':
                stream(sub, name, what, name, exe, limit,
                       pairs(list(every(states, colors))))
            else:
                short, rest = pool(name,
                                   most if what == 'pairs' else 100 if deep else 50,
                                   min(limit - 1, 2000))
                if what == 'pairs':
                    if limit < 10**5:
                        short = short[:-20] + rest[:20 if limit < 1000 else 1]
                    stream(sub, name, what, name, exe, limit, pairs(short))
                elif what == 'triples':
                    stream(sub, name, what, name, exe, limit,
                           (p for t in product(short, repeat=3) for p in t))
                else:
                    slow = rest[:3] if limit < 10**6 else rest[:1]
                    if deep:
                        slow = rest[:20] if limit < 10**6 else rest[:3]
                    stream(sub, name, what, name, exe, limit,
                           [p for l in slow for s in short[:50 if limit < 10**6 else 4]
                            for p in (s, l, s)])

    def scratch_of(*parts):
        path = os.path.join(scratch, '-'.join(map(str, parts)))
        os.makedirs(path)
        return path
    try:
        shards(rep, work, shards=len(jobs))
    finally:
        shutil.rmtree(scratch)
