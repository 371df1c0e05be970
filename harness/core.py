"""What every check shares: counting, known findings, evidence, verdict."""
import json
import os
import pickle
import signal
import subprocess
import sys
import time
import traceback
import zlib

from . import build

VERIF = build.VERIF
REPO = build.REPO
CPUS = os.cpu_count() or 1


class Hang(BaseException):
    """A call that should end did not."""


def known():
    """The listed findings; lines 'fixed: ...' are history and match nothing."""
    out = []
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for line in f:
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


class Report:
    """Counters and violations of one run (or of one shard of it)."""

    def __init__(self, prop, tier='quick'):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.states = 0         # distinct inputs / configurations explored
        self.transitions = 0    # reference steps or operations taken
        self.traces = 0         # runs of the real code compared with the model
        self.tally = {}
        self.samples = {}
        self.viol = {}          # kind -> [ (key, detail) ]
        self.counts = {}        # kind -> n
        self.digests = {}       # kind -> sum over the failing inputs
        self.bounds = []
        self.assumptions = []

    def count(self, key, n=1):
        self.tally[key] = self.tally.get(key, 0) + n

    def sample(self, key, value):
        if key not in self.samples:
            self.samples[key] = value

    def tell(self, kind, n, digest):
        self.counts[kind] = self.counts.get(kind, 0) + n
        self.digests[kind] = (self.digests.get(kind, 0) + digest) % 2 ** 64

    def violate(self, kind, key, detail=None):
        self.tell(kind, 1, zlib.crc32(str(key).encode()))
        rows = self.viol.setdefault(kind, [])
        if len(rows) < 400:
            rows.append((str(key), detail))

    def merge(self, other):
        self.states += other.states
        self.transitions += other.transitions
        self.traces += other.traces
        for k, n in other.tally.items():
            self.count(k, n)
        for k, v in other.samples.items():
            self.sample(k, v)
        for k, n in other.counts.items():
            self.tell(k, n, other.digests[k])
        for k, rows in other.viol.items():
            mine = self.viol.setdefault(k, [])
            mine.extend(rows[:max(0, 2000 - len(mine))])

    # -- verdict -----------------------------------------------------------

    def finish(self):
        new, old = self.judge()
        cov = {
            'states': self.states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'bounds': self.bounds,
            'tally': self.tally,
            'samples': [{'kind': k, 'case': v}
                        for k, v in list(self.samples.items())[:12]],
        }
        ev = {
            'property': self.prop, 'tier': self.tier,
            'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'model_checking', 'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 1),
            'violations': sum(n for _, n, _ in new),
        }
        if old:
            ev['coverage']['known_findings_seen'] = [
                {'what': e['what'], 'count': n} for e, n in old]
        out = os.path.join(VERIF, 'evidence')
        os.makedirs(os.path.join(out, 'replay'), exist_ok=True)
        for name in os.listdir(os.path.join(out, 'replay')):
            if name.startswith(self.prop + '.'):
                os.remove(os.path.join(out, 'replay', name))
        write(os.path.join(out, f'{self.prop}.json'), ev)
        for e, n in old:
            print(f"KNOWN-FINDING: property={self.prop} {e['what']} [{n} seen]")
        for i, (kind, n, rows) in enumerate(new[:8]):
            path = os.path.join(out, 'replay', f'{self.prop}.{i}.json')
            write(path, {'property': self.prop, 'kind': kind, 'count': n,
                         'cases': rows[:50]})
            key, detail = rows[0] if rows else ('', '')
            print(f'VIOLATION property={self.prop} replay={path}')
            print(f'  {kind} ({n} cases), first: {key}'
                  f' {json.dumps(detail, default=str)[:200]}')
        print(f'{self.prop} {self.tier}: {self.states} states,'
              f' {self.transitions} transitions, {self.traces} traces,'
              f" {ev['violations']} violations, {ev['wall_s']} s")
        return 1 if new else 0

    def judge(self):
        """Splits what was seen into new violations and listed findings.

        A listed finding names either the inputs that fail, or, for each
        space explored ("space: class"), how many inputs of a class do and a digest
        of which ones: exactly those are the finding."""
        mine = [e for e in known() if e['property'] == self.prop
                and e.get('tier', self.tier) == self.tier]
        new, old = [], []
        for kind, rows in sorted(self.viol.items()):
            cls = kind.rpartition(': ')[2]
            left = self.counts[kind]
            rest = list(rows)
            for e in mine:
                k = e['known']
                n = 0
                if 'inputs' in k and k['class'] == cls:
                    keep = [r for r in rest if r[0] not in k['inputs']]
                    n = len(rest) - len(keep)
                    rest = keep
                elif [left, self.digests[kind]] == k.get('kinds', {}).get(kind):
                    n = left
                    rest = []
                if n:
                    left -= n
                    old.append((e, n))
            if left:
                new.append((kind, left, rest))
        seen = {}
        for e, n in old:
            seen[e['what']] = (e, seen.get(e['what'], (e, 0))[1] + n)
        return new, list(seen.values())


def write(path, data):
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(data, f, indent=1, default=str)
        f.write('\n')
    os.replace(tmp, path)


# programs the repository itself speaks of, and those of its data files
KNOWN = 'list:' + os.path.join(VERIF, 'programs', 'known.prog')
DATA = 'list:' + os.path.join(VERIF, 'programs', 'data.prog')


def checker(rep, check, space, timeout=850, **opts):
    """Runs the Rust checker and merges what it covered into rep."""
    _, path = build.build()
    args = [path, check, space] + [f'{k}={v}' for k, v in opts.items()]
    name = ' '.join(args[1:]).replace(VERIF + os.sep, '')
    try:
        done = subprocess.run(args, capture_output=True, text=True,
                              timeout=timeout)
        data = json.loads(done.stdout)
    except (subprocess.TimeoutExpired, ValueError) as err:
        rep.violate(f'{name}: no result', space, str(err)[:300])
        return None
    rep.bounds.append(name)
    checker_merge(rep, name, check, data)
    return data


def checker_merge(rep, name, check, data):
    rep.states += data['programs']
    rep.transitions += data['ref_steps']
    rep.traces += data['calls']
    for k, n in data['tally'].items():
        rep.count(f'{check}:{k}', n)
    for k, v in data['samples'].items():
        rep.sample(f'{check}:{k}', v)
    for k, rows in data['violations'].items():
        kind = f'{name}: {k}'
        rep.tell(kind, data['counts'][k], data['digests'][k])
        rep.viol.setdefault(kind, []).extend(
            (r['prog'], r['detail']) for r in rows)


def has_parts(which='parts'):
    _, path = build.build()
    done = subprocess.run([path, 'size', 'raw:1x1'], capture_output=True,
                          text=True)
    return json.loads(done.stdout)['tally'].get(which, 0) > 0


# -- sharded Python exploration ----------------------------------------------

def _alarm(*_):
    raise Hang


class Guard:
    """Bounds one call of the code under test in time."""

    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.secs)

    def __exit__(self, *_):
        signal.setitimer(signal.ITIMER_REAL, 0)


def shards(rep, work, jobs=None, shards=None):
    """Runs work(rep, k, n) for k in range(n), in forked processes, at most
    `jobs` at a time; merges their reports.  A shard that dies is a violation:
    on code that answers, none does."""
    jobs = jobs or CPUS
    n = shards or jobs
    todo = list(range(n))
    live = {}
    while todo or live:
        while todo and len(live) < jobs:
            k = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if not pid:
                os.close(r)
                code = 0
                try:
                    sub = Report(rep.prop, rep.tier)
                    try:
                        work(sub, k, n)
                        data = pickle.dumps(('ok', sub))
                    except BaseException:  # reported by the parent
                        data = pickle.dumps(('error', traceback.format_exc()))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            live[k] = (pid, r)
        k, (pid, r) = next(iter(live.items()))
        del live[k]
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if not data:
            rep.violate('process died', f'shard {k} of {n}', status)
            continue
        tag, got = pickle.loads(data)
        if tag == 'error':
            raise RuntimeError(f'shard {k}: {got}')
        rep.merge(got)
