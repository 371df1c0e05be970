"""The accelerated Python run passes only through reachable configurations."""
from ..core import DATA, KNOWN
from ..pyrun import explore, install, programs


def run(rep, tier):
    install()
    if tier == 'quick':
        explore(rep, 'raw:2x2', programs('raw:2x2'), 60)
        for space in ('tnf:3x2:400', 'tnf:2x3:400'):
            explore(rep, space, programs(space), 40)
            explore(rep, 'open ' + space, programs(space, 400, False), 400)
        for space in ('tnf:4x2:120', 'tnf:2x4:120'):
            explore(rep, 'open ' + space + ' 6 instructions',
                    programs(space, 400, False, 6), 200)
            explore(rep, 'open ' + space + ' 7 instructions',
                    programs(space, 400, False, 7), 100, every=16)
        for space in ('as:0,3,7:0,9/tnf:3x2:400', 'as:0,11:0,6,9/tnf:2x3:400'):
            explore(rep, 'open ' + space, programs(space, 400, False), 200)
        explore(rep, 'programs/known.prog', programs(KNOWN), 1000)
        explore(rep, 'programs/data.prog', programs(DATA)[::5], 200)
        return
    explore(rep, 'raw:2x2', programs('raw:2x2'), 400)
    for space in ('tnf:3x2:2000', 'tnf:2x3:2000'):
        explore(rep, space, programs(space), 200)
        explore(rep, 'open ' + space, programs(space, 400, False), 2000,
                horizon=5_000_000)
    for space in ('tnf:4x2:120', 'tnf:2x4:120'):
        explore(rep, 'open ' + space, programs(space, 400, False), 150,
                every=8)
    for space in ('as:0,3,7:0,9/tnf:3x2:400', 'as:0,11:0,6,9/tnf:2x3:400'):
        explore(rep, 'open ' + space, programs(space, 400, False), 400)
    explore(rep, 'programs/known.prog', programs(KNOWN), 1000)
    explore(rep, 'programs/data.prog', programs(DATA), 200)
