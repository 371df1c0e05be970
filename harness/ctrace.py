"""C programs compiled with callbacks and run next to their tables."""
import os
import shutil
import subprocess
import tempfile

from . import build

SRC = os.path.join(build.VERIF, 'c')
TRACED = ['-w', '-O0', '-fsanitize-coverage=trace-pc']


def initial(table, states, colors, missing):
    """A table as a C initialiser; missing: what an empty slot does."""
    out = []
    for s in range(states):
        cells = []
        for c in range(colors):
            got = table.get((s, c), missing)
            if got is None:
                cells.append('{0, 0, -2}')
            else:
                color, right, to = got
                cells.append(f'{{{color}, {1 if right else -1}, {to}}}')
        out.append('{' + ', '.join(cells) + '}')
    return '{' + ', '.join(out) + '}'


class Bench:
    """A scratch directory with the real machine.h behind one that adds the
    callbacks to it."""

    def __init__(self, real):
        self.dir = tempfile.mkdtemp(prefix='vctrace')
        with open(os.path.join(self.dir, 'machine.h'), 'w') as f:
            f.write(f'''#ifndef TRACE_ONCE
#define TRACE_ONCE
#include "{real}"
#undef assert
#define assert(x) do {{ if (!(x)) trace_assert(#x); }} while (0)
#undef XLIMIT
#define XLIMIT trace_steps()
TRACE_HOOKS
#endif
/* some programs that take long would return at once */
#define return (void)
''')
        self.obj = os.path.join(self.dir, 'trace.o')
        subprocess.run(['gcc', '-O2', '-c', os.path.join(SRC, 'trace.c'),
                        '-o', self.obj], check=True)

    def close(self):
        shutil.rmtree(self.dir)

    def build(self, name, jobs, width, most, blank_ends=True, spin_ends=True,
              open_=False, inside=False):
        """jobs: (C text, table, states, colors, missing,
        cells that must be blank).  The executable, or
        None and the compiler's complaint."""
        parts = ['#include "trace.h"']
        for k, job in enumerate(jobs):
            parts += [f'#define main prog_{k}', '#undef PROGRAM', job[0],
                      '#undef main', '#undef return',
                      f'QUIET static void run_{k}(void)'
                      f' {{ trace_on = 1; prog_{k}(); trace_on = 0; }}']
        parts.append('static const struct job jobs[] = {')
        for k, (_, table, states, colors, missing, *blank) in enumerate(jobs):
            at, n = blank[0] if blank else (0, 0)
            parts.append(f'{{ {k}, {colors}, {at}, {n}, '
                         f'{initial(table, states, colors, missing)}, run_{k} }},')
        parts += ['};', f'TRACE_DRIVER({int(blank_ends)}, {int(spin_ends)}, {int(open_)}, {int(inside)})',
                  'QUIET int main(void) { trace_all(jobs, sizeof jobs /'
                  f' sizeof *jobs, {width}, {most}); return 0; }}']
        src = os.path.join(self.dir, name + '.c')
        exe = os.path.join(self.dir, name)
        with open(src, 'w') as f:
            f.write('\n'.join(parts) + '\n')
        done = subprocess.run(['gcc', *TRACED, '-I' + SRC, src, self.obj,
                               '-o', exe], capture_output=True, text=True)
        return (exe if done.returncode == 0 else None), done.stderr[-300:]

    def run(self, exe, timeout=300):
        """([(job, tape, what)], runs, steps, runs that ended), or None if it dies."""
        try:
            done = subprocess.run([exe], capture_output=True, text=True,
                                  timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        bad, runs, steps, ended = [], None, None, None
        for line in done.stdout.split('\n'):
            if line.startswith('V '):
                k, tape, what = line[2:].split(' ', 2)
                bad.append((int(k), tape, what))
            elif line.startswith('T '):
                runs, steps, ended = map(int, line[2:].split())
        return None if runs is None else (bad, runs, steps, ended)


def trace(rep, bench, name, jobs, texts, width, most, **opts):
    """Builds and runs jobs; halves them where one does not build or dies."""
    exe, err = bench.build(name, jobs, width, most, **opts)
    got = exe and bench.run(exe)
    if got:
        bad, runs, steps, ended = got
        rep.states += len(jobs)
        rep.traces += runs
        rep.transitions += steps
        rep.count('runs that ended', ended)
        rep.count('runs cut off', runs - ended)
        for k, tape, what in bad:
            rep.violate(what if what.startswith('ends') else
                        what.split(':')[-1].strip().split(',')[0],
                        f'{texts[k]} on {tape or "blank"}', what)
        return
    if len(jobs) == 1:
        rep.violate('does not compile' if exe is None else 'dies', texts[0], err)
        return
    half = len(jobs) // 2
    if sum(len(r) for r in rep.viol.values()) > 50:
        return
    trace(rep, bench, name, jobs[:half], texts[:half], width, most, **opts)
    trace(rep, bench, name, jobs[half:], texts[half:], width, most, **opts)
