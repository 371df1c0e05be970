from ..core import DATA, KNOWN, checker, has_parts


def run(rep, tier):
    if tier == 'quick':
        verdicts = [('raw:2x2', '3,20,100,400'), ('tnf:3x2:400', '5,20,100,400'),
                    ('tnf:2x3:400', '5,20,100,400'), ('rb:2x3', '60'),
                    ('as:0,3,7:0,9/tnf:3x2:400', '20,400'),
                    ('as:0,11:0,6,9/tnf:2x3:400', '20,400')]
        lists = [(KNOWN, '20,400,2000', 200_000), (DATA, '20,400', 20_000)]
        steps = [('tnf:3x2:400', 400), ('tnf:2x3:400', 400),
                 ('tnf:2x4:120', 120)]
    else:
        verdicts = [('raw:2x2', '3,20,100,400,2000'), ('raw:3x2', '20,200'),
                    ('rb:2x3', '5,20,100,400'),
                    ('tnf:4x2:120', '200'), ('tnf:2x4:120', '200'),
                    ('as:0,3,7:0,9/tnf:3x2:400', '20,100,400'),
                    ('as:0,11:0,6,9/tnf:2x3:400', '20,100,400')]
        lists = [(KNOWN, '20,400,2000,8000', 2_000_000),
                 (DATA, '20,400,2000', 200_000)]
        steps = [('raw:2x2', 200), ('tnf:3x2:1000', 1000),
                 ('tnf:2x3:1000', 1000), ('tnf:2x4:120', 200),
                 ('tnf:4x2:120', 200)]
    for space, lims in verdicts:
        checker(rep, 'prover', space, lims=lims)
    for space, lims, never in lists:
        checker(rep, 'prover', space, lims=lims, never=never)
    if has_parts():
        steps += [('as:0,3,7:0,9/tnf:3x2:400', 400), (DATA, 1500)]
        for space, lim in steps:
            checker(rep, 'refine', space, lim=lim, maxmarks=200,
                    horizon=5_000_000)
        checker(rep, 'refine', KNOWN, lim=4000, maxmarks=400, horizon=5_000_000)
    else:
        rep.assumptions.append(
            'the building blocks below the exported functions do not compile'
            ' as they used to: the configuration-by-configuration comparison'
            ' was skipped, the verdicts were compared')
