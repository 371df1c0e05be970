"""The command-line tools answer every line of their input by itself."""
import ast
import io
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
import threading
from collections import Counter
from contextlib import contextmanager, redirect_stdout
from itertools import product

from .. import core, shim, table
from ..core import Guard, Hang, shards
from ..pyrun import programs
from .c18 import sequence

STUB = r'''#!/bin/sh
# stands in for graphviz: dot IN -T png -o OUT
in=; out=
while [ $# -gt 0 ]; do
  case "$1" in
    -T) shift ;;
    -T*) ;;
    -o) shift; out=$1 ;;
    -o*) out=${1#-o} ;;
    *) [ -z "$in" ] || exit 2; in=$1 ;;
  esac
  shift
done
cp "$in" "$out"
'''


# -- tools in this process ---------------------------------------------------

def tool(script, text, *argv):
    """What the tool prints for an input."""
    out = io.StringIO()
    was = sys.argv, sys.stdin
    sys.argv = [script, *argv]
    sys.stdin = io.StringIO(text)
    try:
        with redirect_stdout(out), Guard(60):
            runpy.run_path(os.path.join(core.REPO, script), run_name='__main__')
    finally:
        sys.argv, sys.stdin = was
    return out.getvalue()


def ask(rep, script, text, *argv):
    rep.traces += 1
    try:
        return tool(script, text, *argv)
    except (Exception, Hang, SystemExit, shim.PanicException) as err:
        rep.violate(f'{script}: fails', text, repr(err))
        return None


# -- what each tool has to say of one program --------------------------------

def want_normalize(prog):
    from tools.normalize import normalize
    return normalize(prog) + '\n'


def want_tree(prog):
    from tools.tree_norm import tree_norm
    return tree_norm(prog) + '\n'


def want_c(prog):
    from tools.c import make_c
    return make_c(prog) + '\n'


def good_sequence(prog, got):
    """instr_seq.py prints what a run of the program needs first, in order."""
    read = ast.literal_eval('{' + got + '}')
    said = [(part, step, slot) for part, (step, slot) in read[prog].items()]
    return list(read) == [prog] and said == [
        (part, step, 'ABCDEFGHIJ'[slot[0]] + str(slot[1]))
        for part, step, slot in sequence(*table.read(prog))]


def good_measure(prog, got):
    from tm.machine import Machine
    from tm.num import show_number
    m = Machine(prog, opt_macro=2_000).run()
    first, rest = got.split('\n', 1)
    marks = m.marks if isinstance(m.marks, int) else m.marks.estimate()
    return first == ('infrul' if m.infrul else str(m.limrul)) and ast.literal_eval(
        '{' + rest + '}') == {prog: (m.cycles, str(marks), str(marks),
                                     show_number(m.rulapp))}


def ends(prog, lim, **macro):
    from tm.machine import Machine
    try:
        with Guard(20):
            return Machine(prog, **macro).run(sim_lim=lim).xlimit is None
    except (AssertionError, NotImplementedError, RecursionError, Hang):
        return False


def fit(script, prog):
    """Whether the tool comes to an end on the program."""
    if script == 'instr_seq.py':
        return prog.startswith('1RB') and \
            sequence(*table.read(prog)) is not None
    if script in ('measure.py', 'dump_macros.py'):
        return ends(prog, 300, opt_macro=2_000)
    if script == 'run.py':
        return ends(prog, 150, opt_macro=8_000)
    return True


def says(rep, script, prog, good, *argv):
    got = ask(rep, script, prog + '\n', *argv)
    if got is None:
        return None
    rep.transitions += 1
    try:
        with Guard(60):
            right = got == good(prog) if good.__name__.startswith('want') \
                else good(prog, got)
    except Exception as err:
        right = False
        got += repr(err)
    if not right:
        rep.violate(f'{script}: answer', ' '.join([prog, *argv]), got[-500:])
    # a last line without an end counts as well
    if (last := ask(rep, script, prog, *argv)) is not None and last != got:
        rep.violate(f'{script}: last line', prog, [got[-300:], last[-300:]])
    return got


PER_LINE = (
    ('normalize.py', (), want_normalize),
    ('normalize.py', ('--tree',), want_tree),
    ('c_prog.py', (), want_c),
    ('instr_seq.py', (), good_sequence),
    ('measure.py', (), good_measure),
)


def compact(rep, prog):
    """The other notation, with any instruction that halts for none."""
    tab, states, colors = table.read(prog)
    for blank in ('---', '1RZ', '0LZ', '2LZ', '-R-'):
        row = '_'.join(
            ''.join(table.cell(tab[s, c]) if (s, c) in tab else blank
                    for c in range(colors)) for s in range(states))
        got = ask(rep, 'normalize.py', row + '\n')
        rep.transitions += 1
        if got is not None and got != prog + '\n':
            rep.violate('normalize.py: notation', row, got)
        if len(tab) == states * colors:
            break


# -- run.py ------------------------------------------------------------------

ROW = re.compile(r'^ *(\d+) \| *(\d+|\.\.\.) \| ([A-Z])(\d+) \| (.*)$')


def cells(text):
    """'1^3 0 [2] 1' -> cells before the head, under it and after it."""
    parts = ([], [], [])
    at = 0
    for token in text.split(' '):
        if token[0] == '[':
            parts[1].append(int(token[1:-1]))
            at = 2
            continue
        color, _, count = token.partition('^')
        parts[at].extend([int(color)] * int(count or 1))
    return parts


def watched(rep, prog):
    """Every line that run.py shows is what the program has on its tape then."""
    if not fit('run.py', prog):
        return
    got = ask(rep, 'run.py', prog + '\n')
    if got is None:
        return
    lines = got.split('\n')
    lines.pop()
    last = lines.pop() if lines else ''
    head = re.match(r'0 \| ([^|(]*?) (\(.*\) )?\|\| ', last)
    if not head or table.read(head[1])[0] != table.read(prog)[0]:
        rep.violate('run.py: no result', prog, last)
        return
    rep.states += 1
    if 'macro' in last:
        rep.count('run.py: macro')
        return
    run = table.Run(table.read(prog)[0])
    shown = None
    for n, line in enumerate(lines):
        row = ROW.match(line)
        if not row:
            rep.violate('run.py: line', prog, line)
            return
        cycle, step, state, scan, tape = row.groups()
        if int(cycle) != n:
            rep.violate('run.py: cycle', prog, line)
            return
        if step == '...':
            rep.count('run.py: after a rule')
            break
        while run.steps < int(step):
            if run.step() is None:
                rep.violate('run.py: past the end', prog, line)
                return
        try:
            left, mid, right = cells(tape)
        except ValueError:
            rep.violate('run.py: line', prog, line)
            return
        rep.transitions += 1
        wide = max([len(left), len(right)]
                   + [abs(p - run.pos) for p in run.tape]) + 1
        here = [run.tape.get(run.pos + i, 0) for i in range(-wide, wide + 1)]
        said = [0] * (wide - len(left)) + left + mid + right \
            + [0] * (wide - len(right))
        if here != said or 'ABCDEFGHIJ'[run.state] != state \
                or int(scan) != run.scan:
            rep.violate('run.py: tape', prog, [line, here])
            return
        shown = int(step)
    else:
        # no rule: what is said of the end is about the plain run
        facts = dict(re.findall(r'([A-Z]+): ([^|]*[^| ])', last))
        if 'SPNOUT' in facts and (
                int(facts['SPNOUT']) != run.steps or not spins(run)):
            rep.violate('run.py: spins out', prog, last)
        if 'UNDFND' in facts:
            step, slot = ast.literal_eval(facts['UNDFND'])
            if step != run.steps or slot != (run.state, run.scan) \
                    or slot in run.table:
                rep.violate('run.py: undefined', prog, last)
        if ('SPNOUT' in facts or 'UNDFND' in facts) \
                and int(facts['MARKS']) != len(run.tape):
            rep.violate('run.py: marks', prog, last)
    rep.sample('run.py', [prog, shown, last])


def spins(run):
    got = run.table.get((run.state, run.scan))
    return got is not None and got[2] == run.state and run.scan == 0 \
        and all((p > run.pos) != got[1] for p in run.tape)


# -- branch.py ---------------------------------------------------------------

def branches(rep, prog):
    tab, states, colors = table.read(prog)
    got = ask(rep, 'branch.py', prog + '\n')
    if got is None:
        return
    from tm.machine import Machine
    slot, = set(product(range(states), range(colors))) - set(tab)
    want = []
    for instr in table.instrs(states, colors):
        full = table.write({**tab, slot: instr}, states, colors)
        try:
            with Guard(30):
                m = Machine(full, opt_macro=5_000).run(10_000)
        except (AssertionError, NotImplementedError, RecursionError, Hang):
            return
        if m.xlimit is None:
            want.append(str(m))
    rep.transitions += len(want)
    said = [line.split(' ', 1)[1] for line in got.split('\n')[:-1]]
    if sorted(said) != sorted(want):
        rep.violate('branch.py: branches', prog, [said, want])


# -- every two lines ---------------------------------------------------------

def numbered(text, at):
    """run.py numbers the programs."""
    return re.sub(r'^\d+ \| (?=.* \|\| )', f'{at} | ', text, flags=re.M)


def together(rep, script, argv, pool, k, total, most):
    alone = {}
    for prog in pool:
        alone[prog] = ask(rep, script, prog + '\n', *argv)
    rep.states += len(pool)
    seqs = [(a, b) for a in pool for b in pool]
    seqs += list(product(pool[:most], repeat=3))
    for n, seq in enumerate(seqs):
        if n % total != k:
            continue
        if any(alone[p] is None for p in seq):
            continue
        got = ask(rep, script, ''.join(p + '\n' for p in seq), *argv)
        want = ''.join(
            numbered(alone[p], i) if script == 'run.py' else alone[p]
            for i, p in enumerate(seq))
        rep.transitions += 1
        if got is not None and got != want:
            rep.violate(f'{script}: together', list(seq), [got[-300:], want[-300:]])


# -- dump_graphs.py ----------------------------------------------------------

@contextmanager
def scratch():
    """An empty directory to work in, with a stand-in for dot on the path."""
    was, path = os.getcwd(), os.environ['PATH']
    top = tempfile.mkdtemp(prefix='vfg')
    try:
        for d in ('bin', 'tmp', 'out'):
            os.mkdir(os.path.join(top, d))
        stub = os.path.join(top, 'bin', 'dot')
        with open(stub, 'w') as f:
            f.write(STUB)
        os.chmod(stub, 0o755)
        os.environ['PATH'] = os.path.join(top, 'bin') + ':' + path
        tempfile.tempdir = os.path.join(top, 'tmp')
        os.chdir(os.path.join(top, 'out'))
        yield os.path.join(top, 'out')
    finally:
        os.chdir(was)
        os.environ['PATH'] = path
        tempfile.tempdir = None
        shutil.rmtree(top)


def graphs(rep, seq):
    from tools.dot import make_dot
    with scratch() as out:
        got = ask(rep, 'dump_graphs.py', ''.join(p + '\n' for p in seq))
        if got is None:
            return
        want = {p.replace(' ', '_') + '.png': make_dot(p) for p in seq}
        have = {}
        for name in os.listdir(out):
            with open(os.path.join(out, name)) as f:
                have[name] = f.read()
    rep.transitions += 1
    if have != want:
        rep.violate('dump_graphs.py: pictures', list(seq),
                    [sorted(have), sorted(want)])


# -- just_so.py: every schedule of its workers -------------------------------

class Done(BaseException):
    """Ends a worker."""


class Sched:
    """Runs workers one at a time; which one goes on is chosen at every step,
    by a script of choices that is extended to all there are."""

    def __init__(self, script, workers, buffered):
        self.script = script
        self.made = []
        self.workers = workers
        self.buffered = buffered
        self.out = []
        self.used = False

    def choose(self, n):
        k = len(self.made)
        pick = self.script[k] if k < len(self.script) else 0
        self.made.append((pick, n))
        return pick

    def next_script(self):
        made = self.made
        while made and made[-1][0] + 1 >= made[-1][1]:
            made.pop()
        if not made:
            return None
        return [p for p, _ in made[:-1]] + [made[-1][0] + 1]


class Worker:
    """A thread that only runs when told to, and stops at every write and at
    every task: the process it stands for shares nothing but its output."""

    def __init__(self, pool, name):
        self.pool = pool
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.alive = True
        self.kill = False
        self.buffer = ''
        self.thread = threading.Thread(target=self.run, name=name, daemon=True)
        self.thread.start()

    def pause(self):
        self.back.release()
        self.go.acquire()
        if self.kill:
            raise Done

    def turn(self):
        self.go.release()
        self.back.acquire()

    def run(self):
        self.go.acquire()
        try:
            if self.kill:
                raise Done
            while self.pool.tasks:
                n, func, arg = self.pool.tasks.pop(0)
                self.pause()
                try:
                    got = (True, func(*arg))
                except Exception as err:
                    got = (False, err)
                self.pool.results[n] = got
                self.pause()
        except Done:
            pass
        finally:
            self.alive = False
            self.back.release()

    def write(self, text):
        self.pause()
        if self.pool.sched.buffered:
            self.buffer += text
        else:
            self.pool.sched.out.append(text)

    def flush(self):
        self.pause()
        if self.buffer:
            self.pool.sched.out.append(self.buffer)
            self.buffer = ''


class Out:
    """sys.stdout of all of them."""

    def __init__(self, sched):
        self.sched = sched
        self.workers = {}

    def write(self, text):
        w = self.workers.get(threading.current_thread().name)
        if w:
            w.write(text)
        else:
            self.sched.out.append(text)
        return len(text)

    def flush(self):
        w = self.workers.get(threading.current_thread().name)
        if w:
            w.flush()


class Later:
    def __init__(self, pool, keys, one):
        self.pool, self.keys, self.one = pool, keys, one

    def get(self, timeout=None):
        out = [self.pool.await_(k) for k in self.keys]
        return out[0] if self.one else out

    def wait(self, timeout=None):
        self.get()

    def ready(self):
        return all(k in self.pool.results for k in self.keys)


def pool_of(sched, out):
    class Pool:
        def __init__(self, processes=None, initializer=None, initargs=(),
                     maxtasksperchild=None):
            sched.used = True
            self.sched = sched
            self.tasks = []
            self.results = {}
            self.count = 0
            self.workers = []
            if initializer:
                initializer(*initargs)

        def __enter__(self):
            return self

        def __exit__(self, *_):
            self.terminate()

        def add(self, func, args):
            keys = []
            for arg in args:
                self.tasks.append((self.count, func, arg))
                keys.append(self.count)
                self.count += 1
            while len(self.workers) < sched.workers:
                name = f'worker {id(self)} {len(self.workers)}'
                w = Worker(self, name)
                out.workers[name] = w
                self.workers.append(w)
            return keys

        def step(self):
            live = [w for w in self.workers if w.alive]
            if not live:
                return False
            live[sched.choose(len(live))].turn()
            return True

        def await_(self, key):
            while key not in self.results:
                if not self.step():
                    raise RuntimeError('a task is never done')
            good, got = self.results[key]
            if not good:
                raise got
            return got

        def map(self, func, items, chunksize=None):
            keys = self.add(func, [(i,) for i in items])
            return [self.await_(k) for k in keys]

        def starmap(self, func, items, chunksize=None):
            keys = self.add(func, [tuple(i) for i in items])
            return [self.await_(k) for k in keys]

        def imap(self, func, items, chunksize=1):
            keys = self.add(func, [(i,) for i in items])
            return (self.await_(k) for k in keys)

        def imap_unordered(self, func, items, chunksize=1):
            keys = self.add(func, [(i,) for i in items])

            def each():
                left = list(keys)
                while left:
                    done = [k for k in left if k in self.results]
                    if not done:
                        self.step()
                        continue
                    left.remove(done[0])
                    yield self.await_(done[0])
            return each()

        def map_async(self, func, items, chunksize=None, callback=None,
                      error_callback=None):
            return Later(self, self.add(func, [(i,) for i in items]), False)

        def apply_async(self, func, args=(), kwds=None, callback=None,
                        error_callback=None):
            return Later(self, self.add(func, [tuple(args)]), True)

        def apply(self, func, args=(), kwds=None):
            return self.apply_async(func, args).get()

        def close(self):
            pass

        def join(self):
            while self.step():
                pass
            for w in self.workers:
                if w.buffer:
                    sched.out.append(w.buffer)
                    w.buffer = ''

        def terminate(self):
            # what a worker had not written out is gone with it
            for w in self.workers:
                if w.alive:
                    w.kill = True
                    w.turn()
                w.thread.join()
    return Pool


def schedules(rep, name, argv, seq, cant, workers, buffered):
    """Every interleaving of the workers' tasks and writes."""
    import multiprocessing
    want = Counter(p for p in seq if cant(p) is None)
    script = []
    while script is not None:
        sched = Sched(script, workers, buffered)
        out = Out(sched)
        was = sys.argv, sys.stdin, sys.stdout, multiprocessing.Pool
        sys.argv = ['just_so.py', *argv]
        sys.stdin = io.StringIO(''.join(p + '\n' for p in seq))
        sys.stdout = out
        multiprocessing.Pool = pool_of(sched, out)
        try:
            runpy.run_path(os.path.join(core.REPO, 'just_so.py'),
                           run_name='__main__')
            err = None
        except (Exception, SystemExit) as exc:
            err = repr(exc)
        finally:
            sys.argv, sys.stdin, sys.stdout, multiprocessing.Pool = was
        rep.traces += 1
        rep.transitions += len(sched.made)
        rep.count('schedules of just_so.py')
        if not sched.used and not ''.join(sched.out):
            rep.count('just_so.py: not run by a pool')
        got = ''.join(sched.out)
        if err or got and not got.endswith('\n') \
                or Counter(got.split('\n')[:-1]) != want:
            rep.violate('just_so.py: lines', ' | '.join([*argv, *seq]),
                        [name, got, err, [p for p, _ in sched.made]])
            return
        script = sched.next_script()


RUN = '''
import os, runpy, sys
sys.dont_write_bytecode = True
sys.path[:0] = [{repo!r}, {verif!r}]
from harness import shim
shim.install()
sys.argv = ['just_so.py'] + {argv!r}
runpy.run_path({repo!r} + '/just_so.py', run_name='__main__')
'''


def processes(rep, argv, seq, cant):
    """The same with real processes and a real pipe, and many lines."""
    want = Counter(p for p in seq if cant(p) is None)
    code = RUN.format(repo=core.REPO, verif=core.VERIF, argv=list(argv))
    for env in ({}, {'PYTHONUNBUFFERED': '1'}):
        full = {k: v for k, v in os.environ.items() if k != 'PYTHONUNBUFFERED'}
        try:
            done = subprocess.run(
                [sys.executable, '-c', code], text=True, capture_output=True,
                input=''.join(p + '\n' for p in seq), timeout=120,
                env={**full, **env}, cwd=core.REPO)
            got = Counter(done.stdout.split('\n')[:-1])
        except subprocess.TimeoutExpired:
            got = None
        rep.traces += 1
        rep.transitions += len(seq)
        if got != want:
            lost = sum((want - (got or Counter())).values())
            rep.violate('just_so.py: processes', ' '.join(argv),
                        [f'{lost} lines of {sum(want.values())} lost or changed',
                         list(((got or Counter()) - want).items())[:3]])


# -- all of it ---------------------------------------------------------------

def run(rep, tier):
    shim.install()
    deep = tier != 'quick'
    two = programs('raw:2x2')
    three = programs('tnf:3x2:50') + programs('tnf:2x3:50')

    def lines(sub, k, total):
        from tm.machine import Machine  # noqa: F401
        for prog in (two + three)[k::total]:
            compact(sub, prog)
            watched(sub, prog)
        some = [p for p in two if p.startswith('1RB')]
        some += three if deep else three[::1][:4000]
        for prog in some[k::total]:
            sub.states += 1
            for script, argv, good in PER_LINE:
                if fit(script, prog):
                    says(sub, script, prog, good, *argv)

    rep.bounds.append('one line: all 2x2 programs and those of tnf:3x2:50, tnf:2x3:50')
    shards(rep, lines, shards=32)

    pool = ['1RB 1LB  1LA ...', '1RB 1LB  1LA 1RB', '1RB 0LB  1LA 0RB',
            '1RB ...  1LB 0RB', '1RB 2LA 1RA  1LA 2RB ...',
            '1RB 1LA  1LA 0LB', '1RB 1LB  0LA 1RA',
            '1RB 1LC  1LA 1RB  0LB ...', '1RB 2LB 1RA  2LA 2RB 0LB',
            '1RB 1RC  1LC ...  1RA 0LB', '1RB ...  0LC 0RB  1LC 1LA',
            '1RB ... 2LA  2LB 1RA 0LA']
    pool += three[::len(three) // (60 if deep else 16)]
    pool = list(dict.fromkeys(pool))

    def pairs(sub, k, total):
        for script, argv, _ in (*PER_LINE, ('run.py', (), 0),
                                ('dump_macros.py', (), 0)):
            lines = [p for p in pool if fit(script, p)]
            if script == 'normalize.py' and not argv:
                # which also reads the other notation
                lines[1:1] = [p.replace('  ', '_').replace(' ', '')
                              .replace('...', '---') for p in lines[:3]]
            together(sub, script, argv, lines, k, total, 6)

    rep.bounds.append(f'{len(pool)} programs in every pair, six or eight in every triple')
    shards(rep, pairs, shards=16)

    ways = [('--halt',), ('--blank',), (), ('--spinout',), ('--segment',),
            ('--cycles', '2'), ('--cycles', '2', '--halt'), ('--cycles', '4', '--blank')]

    def claims(argv):
        from tm import reason
        n = int(argv[1]) if argv[:1] == ('--cycles',) else 2_000
        if '--halt' in argv:
            return lambda p: reason.cant_halt(p, n)
        if '--blank' in argv:
            return lambda p: reason.cant_blank(p, n)
        if '--segment' in argv:
            return lambda p: reason.segment_cant_halt(p, 20)
        return lambda p: reason.cant_spin_out(p, n)

    yes = {}
    for argv in ways:
        cant = claims(argv)
        got = [p for p in pool if cant(p) is None]
        rest = [p for p in pool if p not in got]
        yes[argv] = got[:2] + rest[:2] if not deep else got[:3] + rest[:3]

    def just(sub, k, total):
        for n, (argv, seq) in enumerate(
                (argv, seq) for argv in ways
                for seq in product(yes[argv], repeat=3)):
            if n % total != k:
                continue
            for buffered in (False, True):
                schedules(sub, 'two workers', argv, seq, claims(argv), 2, buffered)
            sub.states += 1
        for n, argv in enumerate(ways):
            if n % total == k:
                processes(sub, argv, (pool * 40)[:2000], claims(argv))
                for p in pool:
                    schedules(sub, 'one worker', argv, (p,), claims(argv), 1, True)
                if deep:
                    seq = tuple(yes[argv][:2] * 2)
                    schedules(sub, 'three workers', argv, seq[:3], claims(argv), 3, False)

    rep.bounds.append('just_so.py: three lines of four or six programs, two workers, '
                      'every schedule of tasks and writes, buffered or not')
    shards(rep, just, shards=32)

    def rest(sub, k, total):
        for n, pair in enumerate(product(pool, repeat=2)):
            if n % total == k:
                graphs(sub, pair)
        for prog in pool[k::total]:
            graphs(sub, (prog,))
        tests = [p for p in pool + three if p.count('...') == 1]
        for prog in tests[:400 if deep else 60][k::total]:
            branches(sub, prog)

    rep.bounds.append('dump_graphs.py and branch.py: the same pool')
    shards(rep, rest, shards=16)
