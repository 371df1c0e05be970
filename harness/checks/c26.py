from ..core import DATA, KNOWN, checker, has_parts


def run(rep, tier):
    steps = [('raw:2x2', '1,2,3', '1,2,3', 1, 400),
             ('tnf:3x2:400', '1,2,3', '1,2,3', 1, 400),
             ('tnf:2x3:400', '1,2,3', '1,2,3', 1, 400),
             ('as:0,3,7:0,9/tnf:3x2:400', '1,2,3', '1', 0, 400),
             ('as:0,11:0,6,9/tnf:2x3:400', '1,2', '1', 0, 400),
             (KNOWN, '2,3,4,5', '', 0, 400), (DATA, '2,3', '', 0, 400),
             ('rb:3x2', '2', '2', 0, 200), ('tnf:4x2:60', '', '2', 0, 100)]
    runs = [('raw:2x2', '20,306', '1,2,3,4', '1,2'),
            ('tnf:3x2:400', '20,306', '1,2,3,4', '1'),
            ('tnf:2x3:400', '20,306', '1,2,3,4', '1'),
            ('as:0,3,7:0,9/tnf:3x2:400', '20,306', '1,2', ''),
            (KNOWN, '20,306,2000', '1,2,3,4,5,6', ''),
            (DATA, '20,306', '1,2,3,4', '')]
    if tier != 'quick':
        steps = [('raw:2x2', '1,2,3,4', '1,2,3,4', 1, 1000),
                 ('tnf:3x2:2000', '1,2,3,4', '1,2,3', 1, 1000),
                 ('tnf:2x3:2000', '1,2,3', '1,2,3', 1, 1000),
                 ('tnf:4x2:120', '2', '1', 0, 100), *steps[3:5], *steps[7:],
                 (KNOWN, '2,3,4,5,6,7', '', 0, 2000), (DATA, '2,3,4,5', '', 0, 1000)]
        runs = [('raw:2x2', '5,20,100,306', '1,2,3,4,5,6', '1,2,3'),
                ('tnf:3x2:2000', '20,306', '1,2,3,4,5,6', '1,2'),
                ('tnf:2x3:2000', '20,306', '1,2,3,4', '1,2'),
                (KNOWN, '5,20,306,5000', '1,2,3,4,5,6,7,8', ''),
                (DATA, '20,306,1000', '1,2,3,4,5,6', '')]
    if has_parts('macros'):
        for space, blocks, backs, nest, most in steps:
            checker(rep, 'macros', space, blocks=blocks, backs=backs,
                    nest=nest, most=most)
    if has_parts('inner'):
        for space, lims, blocks, backs in runs:
            checker(rep, 'infrul', space, lims=lims, blocks=blocks,
                    backs=backs, horizon=100000)
