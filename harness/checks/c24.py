"""The same questions, in a fresh process and after others."""
import hashlib
import os
import pickle
import signal

from ..core import Guard, Hang, shards
from ..numspace import BASES
from ..pyrun import install, programs

OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y,
       '<': lambda x, y: x < y, '==': lambda x, y: x == y,
       '%': lambda x, y: x % (3 + 4 * hash_of(y)),
       '//': lambda x, y: (x * (2 + hash_of(y))) // (2 + hash_of(y)),
       'gcd': lambda x, y: gcd(x, y)}


def gcd(x, y):
    from tm.num import gcd as real
    return real(6 + hash_of(x), y)


def hash_of(x):
    return x % 5 if isinstance(x, int) else len(str(x)) % 5


def shown(x):
    from tm.num import Num
    if isinstance(x, Num):
        return f'{x} {x.depth} {x.tower_est}'
    return repr(x)


def guarded(call):
    """The answer as text; '?' and why for what may be refused."""
    from tm.num import ExpModLimit, ModDepthLimit
    try:
        with Guard(10):
            return call()
    except (AssertionError, NotImplementedError, RecursionError, ExpModLimit,
            ModDepthLimit, Hang) as err:
        return '? ' + type(err).__name__
    except Exception as err:
        return repr(err)


def leaves(base):
    from tm.num import make_exp as me
    b = base
    out = [-2, 1, 3, me(b, 60), me(b, 61), me(b, me(b, 60)), me(b, 1 + me(b, 60)),
           me(b, 2 * me(b, 300) + 3)]
    return out + [me(c, n) for c, n in BASES[b]]


def sums(base, op):
    """x op y and (x op y) op z over the leaves."""
    def ask():
        lines = []
        A = leaves(base)
        f = OPS[op]
        for x in A:
            for y in A:
                if isinstance(x, int) and isinstance(y, int):
                    continue
                lines.append((f'{x} {op} {y}', guarded(lambda: shown(f(x, y)))))
                lines.append((f'({x} + {y}) {op} {x}',
                              guarded(lambda: shown(f(x + y, x)))))
                lines.append((f'({y} * {x}) {op} {y}',
                              guarded(lambda: shown(f(y * x, y)))))
        return lines
    return ask


def machine(prog, lim, kw):
    def ask():
        from tm.machine import Machine

        def call():
            m = Machine(prog, **kw).run(sim_lim=lim)
            return ' | '.join(map(str, (
                m.steps, m.cycles, m.spnout, m.xlimit, m.undfnd, m.infrul, m.limrul,
                m.cfglim, shown(m.rulapp), m.blanks, m.tape, shown(m.marks))))
        return [('', guarded(call))]
    return ask


def macro(prog, cycles, kw):
    """The macro instructions a run comes by, without rules."""
    def ask():
        from tm.macro import make_macro
        from tm.tape import Tape

        def call():
            comp = make_macro(prog, **kw)
            tape, state, got = Tape(), 0, []
            for _ in range(cycles):
                try:
                    color, shift, to = comp[state, tape.scan]
                except Exception as err:
                    got.append(repr(err))
                    break
                got.append((state, tape.scan, color, shift, to))
                if to == state and tape.at_edge(shift):
                    break
                tape.step(shift, color, to == state)
                state = to
            return repr((got, getattr(comp, 'macro_states', 0),
                         str(getattr(comp, 'macro_colors', 0))))
        return [('', guarded(call))]
    return ask


def questions(deep):
    out = {}
    for base in (2, 3, 6, 10) if not deep else BASES:
        for op in OPS:
            out[f'{base}: {op}'] = sums(base, op)
    kws = [{}, {'blocks': 2}, {'blocks': 3}, {'backsym': 1}, {'backsym': 2},
           {'blocks': 2, 'backsym': 1}, {'opt_macro': 40}]
    pool = ['1RB 1LB  1LA 1LC  1RC 0LC', '1RB 2LA 1RA 1RA  1LB 1LA 3RB ...',
            '1RB 1LC  1RC 1RB  1RD 0LE  1LA 1LD  ... 0LA',
            '1RB 2LB 1LC  1LA 2RB 1RB  ... 2LA 0LC',
            '1RB 0LD  1RC 0RF  1LC 1LA  0LE ...  1LF 0RB  0RC 0RE',
            '1RB 3LA 4LB 0RB 1LA  1LB 2LB 3LA 1RB ...' if deep else
            '1RB 0LA 1RA ...  1LA 2RB 3LB 1RB']
    for prog in pool:
        for kw in kws:
            out[f'{prog} {kw}'] = machine(prog, 600 if deep else 250, kw)
    few = [p for s in ('2x2', '2x3', '3x2', '2x4')
           for p in programs(f'tnf:{s}:60', 60, False, 6)[::37][:6 if deep else 3]]
    for prog in few:
        for kw in kws[1:6]:
            out[f'cells of {prog} {kw}'] = macro(prog, 120, kw)
    return out


def child(call):
    """call() in a forked process; None if that dies."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(call(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def digest(lines):
    return hashlib.md5(repr(lines).encode()).digest() if lines is not None else None


def run(rep, tier):
    install()
    import tm.machine  # noqa: F401 pylint: disable = unused-import
    deep = tier != 'quick'
    asks = questions(deep)
    names = list(asks)
    fresh = {n: child(asks[n]) for n in names}
    for n in names:
        if fresh[n] is None:
            rep.violate('no answer', n, 'in a fresh process')
    short = {n: digest(fresh[n]) for n in names}
    third = names[::max(1, len(names) // (24 if deep else 10))]
    rep.bounds.append(f'{len(names)} computations: each after each other; after any two of'
                      f' {len(third)} of them; after all others in {len(names)} orders')

    def judge(sub, history, name, got):
        sub.traces += 1
        if digest(got) == short[name]:
            return
        if got is None or fresh[name] is None:
            sub.violate('no answer', f'{name} after {history}', '')
            return
        bad = 0
        for (what, want), (_, had) in zip(fresh[name], got):
            if want == had:
                continue
            if want[:1] == '?' or had[:1] == '?':
                sub.count('refused before or after only')
                continue
            bad += 1
            sub.violate('another answer', f'{name} {what} after {history}',
                        f'{had[:200]}, not {want[:200]}')
        return bad

    def work(sub, k, total):
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        jobs = [((a,), names) for a in names]
        jobs += [((a, b), third) for a in third for b in third]
        for history, todo in jobs[k::total]:
            def go(history=history, todo=todo):
                out = []
                for a in history:
                    asks[a]()
                for name in todo:
                    out.append((name, child(asks[name])))
                return [(n, None if digest(g) == short[n] else (g,)) for n, g in out]
            got = child(go)
            sub.states += 1
            if got is None:
                sub.violate('no answer', f'anything after {" and ".join(history)}', '')
                continue
            for name, other in got:
                sub.transitions += 1
                if other is None:
                    sub.traces += 1
                else:
                    judge(sub, ' and '.join(history), name, other[0])
        for i in range(len(names))[k::total]:
            order = names[i:] + names[:i]
            if i % 2:
                order.reverse()
            got = child(lambda: [(n, None if digest(g) == short[n] else (g,))
                                 for n in order for g in [asks[n]()]])
            sub.states += 1
            if got is None:
                sub.violate('no answer', f'all, from {order[0]}', '')
                continue
            for n, other in got:
                sub.transitions += 1
                if other is None:
                    sub.traces += 1
                else:
                    judge(sub, f'those from {order[0]} on', n, other[0])
    shards(rep, work, shards=32)
