"""Runs of the Python machine, recorded and replayed on the reference machine."""
import json
import subprocess
import tempfile

from . import build, shim
from . import numref as R
from .core import Guard, Hang, checker_merge, shards


def programs(space, lim=None, settled=True, maxdef=99):
    """The programs of a space; with settled=False only those that a plain run
    of `lim` steps leaves open (no halt, no spin, no recurrence)."""
    _, path = build.build()
    if settled:
        args = [path, 'all', space]
    else:
        args = [path, 'list', space, f'lim={lim}', f'maxdef={maxdef}']
    done = subprocess.run(args, capture_output=True, text=True, check=True,
                          timeout=600)
    return done.stdout.split('\n')[:-1]


def plain(count):
    """A block count as an integer, or None when it cannot be written out."""
    if isinstance(count, int):
        return count
    try:
        v = R.value(count)
    except R.Skip:
        return None
    return v.x if v.d == 1 and isinstance(v.x, int) and v.x < 10**6 else None


def spans(tape):
    return ([[b.color, plain(b.count)] for b in reversed(tape.lspan)],
            tape.scan,
            [[b.color, plain(b.count)] for b in tape.rspan])


class Log:
    """Stands in for show_tape: called by the machine at every cycle."""

    def __init__(self, machine, every):
        self.machine = machine
        self.every = every
        self.configs = []
        self.was = None
        self.leapt = False

    def __call__(self, step, cycle, state, *_):
        app = self.machine.rulapp
        fresh = app is not self.was and app != self.was
        self.was = app
        self.leapt |= step == -1
        if step == -1 or fresh or self.every == 1 or cycle % self.every == 0:
            self.configs.append([
                None if step == -1 else step, state, *spans(self.machine.tape)])


def record(rep, prog, lim, every=1, **macro):
    """One run; returns what `checker trace` replays, or None."""
    from tm.machine import Machine
    try:
        with Guard(60):
            m = Machine(prog, **macro)
            log = Log(m, every)
            m.show_tape = log
            m.run(sim_lim=lim, watch_tape=True)
    except Hang:
        rep.violate('no answer in 60 s', prog, lim)
        return None
    except (AssertionError, NotImplementedError, RecursionError) as err:
        # a refusal of the number arithmetic
        rep.count(f'refused: {type(err).__name__}')
        return None
    except Exception as err:
        rep.violate('exception', prog, repr(err))
        return None
    return m, log


def ending(m):
    """The verdict, as the reference sees it."""
    marks = plain(m.marks)

    def at(n):
        return None if n == -1 else n

    if m.undfnd is not None:
        step, slot = m.undfnd
        return {'kind': 'undfnd', 'step': at(step), 'slot': list(slot),
                'marks': marks}
    if m.spnout is not None:
        return {'kind': 'spnout', 'step': at(m.spnout), 'marks': marks}
    if m.infrul is not None:
        return {'kind': 'infrul', 'step': at(m.infrul)}
    for kind in ('limrul', 'cfglim', 'xlimit'):
        if getattr(m, kind) is not None:
            return {'kind': kind}
    return {'kind': 'none'}


def consistent(rep, m, prog):
    """The fields of a result agree with each other."""
    set_ = [k for k in ('undfnd', 'spnout', 'infrul', 'limrul', 'cfglim',
                        'xlimit') if getattr(m, k) is not None]
    if len(set_) != 1:
        rep.violate('verdicts', prog, set_)
    want = (m.undfnd[0] if m.undfnd is not None else m.spnout)
    if m.simple_termination != want:
        rep.violate('simple_termination', prog, [m.simple_termination, want])
    if want is not None and m.steps != want:
        rep.violate('steps', prog, [m.steps, want])


def replay(rep, name, lines, horizon=2_000_000, maxcells=400, timeout=800):
    """Pipes recorded runs through the reference machine."""
    _, path = build.build()
    with tempfile.TemporaryFile('w+') as f:
        for line in lines:
            f.write(json.dumps(line) + '\n')
        f.flush()
        f.seek(0)
        try:
            done = subprocess.run(
                [path, 'trace', '-', f'horizon={horizon}',
                 f'maxcells={maxcells}'],
                stdin=f, capture_output=True, text=True, timeout=timeout,
                env={'RAYON_NUM_THREADS': '1'})
            data = json.loads(done.stdout)
        except (subprocess.TimeoutExpired, ValueError) as err:
            rep.violate(f'{name}: no result', name, str(err)[:200])
            return
    checker_merge(rep, name, 'trace', data)


def explore(rep, name, progs, lim, every=1, horizon=2_000_000, maxcells=400,
            nshards=None, final=None, **macro):
    """All the programs, in parallel."""
    def work(sub, k, n):
        lines = []
        for prog in progs[k::n]:
            got = record(sub, prog, lim, every, **macro)
            if got is None:
                continue
            m, log = got
            consistent(sub, m, prog)
            end = ending(m)
            sub.count('verdict ' + end['kind'])
            if log.leapt:
                sub.count('programs with accelerated rules')
                sub.sample('accelerated', {'prog': prog, 'end': end,
                                           'rulapp': str(m.rulapp)[:60]})
            lines.append({'prog': prog, 'configs': log.configs, 'end': end,
                          'blanks': [[s, None if b == -1 else b]
                                     for s, b in m.blanks.items()]})
            if len(lines) >= 2000:
                replay(sub, name, lines, horizon, maxcells)
                lines = []
        replay(sub, name, lines, horizon, maxcells)
    rep.bounds.append(f'{name}: {len(progs)} programs, {lim} cycles')
    shards(rep, work, shards=nshards or min(64, max(8, len(progs) // 500)))


def install():
    shim.install()
    import sys
    sys.setrecursionlimit(3000)
