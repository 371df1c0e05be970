"""Remainders of symbolic numbers are exact."""
from .. import numref as R
from ..core import shards
from ..numspace import BASES, Space

MODS = list(range(1, 49)) + [
    54, 60, 64, 72, 81, 96, 100, 128, 162, 243, 256, 486, 512, 729, 1458, 4374,
    13122, 39366, 118098, 354294, 1062882]


def work(rep, k, _):
    base, part = list(BASES)[k // 2], k % 2
    sp = Space(rep, base)
    me = sp.num.make_exp
    _, one, two = sp.levels(rep.tier)
    # every residue of the exponent, large or symbolic
    many = []
    for r in range(0, 1500 if base == 2 else 200):
        many.append(me(base, 1000 + r))
        many.append(me(base, r + me(base, 60)) if r else me(base, me(base, 60)))
    if base == 2:
        many += [me(2, r + me(3, 60)) for r in range(1, 40)]
        many += [me(2, r + 2 * me(3, 60)) for r in range(1, 40)]
    nums = (many + sp.exps + one + two)[part::2]
    if rep.tier != 'quick':
        nums += sp.arith(one[part::2], one)
    for x in nums:
        try:
            v = R.value(x)
        except R.Skip:
            continue
        for m in MODS:
            try:
                want = v.mod(m)
            except R.Skip:
                continue
            rep.transitions += 1
            ok, got = sp.ask('%', lambda: x % m)
            if ok:
                rep.traces += 1
                if got != want or isinstance(got, str):
                    rep.violate('remainder', f'{x} % {m}', [str(got), want])
            if m > 60 or x.depth < 2 and m > 12:
                continue
            ok, got = sp.ask('divmod', lambda: divmod(x, m))
            if ok:
                rep.traces += 1
                try:
                    good = not isinstance(got, str) and got[1] == want and (
                        R.value(got[0]) * R.Q(m) + R.Q(want)).cmp(v) == 0
                except R.Skip:
                    continue
                if not good:
                    rep.violate('divmod', f'divmod({x}, {m})', str(got))
    rep.states += len(many)
    rep.sample(f'base {base}', {'number': str(many[-1]), 'mod': 1458,
                                'residue': R.value(many[-1]).mod(1458)})


def run(rep, tier):
    rep.bounds.append(f'{len(MODS)} moduli up to {MODS[-1]}; bases '
                      + ', '.join(map(str, BASES)))
    shards(rep, work, shards=2 * len(BASES))
