from ..core import DATA, KNOWN, checker


def run(rep, tier):
    quick = [('raw:2x2', '2,3,4,5,8'), ('tnf:3x2:400', '2,3,4,5,6,8'),
             ('tnf:2x3:400', '2,3,4,5,6,8'), ('tnf:4x2:120', '2,3')]
    deep = [('raw:2x2', '2,3,4,5,6,7,8,9,10,12'), ('raw:3x2', '2,3,5'),
            ('rb:2x3', '2,3,5'),
            ('tnf:3x2:2000', '2,3,4,5,6,7,8,9,10,12'),
            ('tnf:2x3:2000', '2,3,4,5,6,7,8,9,10,12'),
            ('tnf:4x2:400', '2,3,4,6'), ('tnf:2x4:400', '2,3,4,6')]
    for space, segs in quick if tier == 'quick' else deep:
        checker(rep, 'reason', space, segs=segs, reason=0)
    # the same with other names, and what the repository has programs of
    segs = '2,3,4,6' if tier == 'quick' else '2,3,4,5,6,8,10'
    for space, lim in (('At:0,3,5:0,4/tnf:3x2:400', 1000),
                       ('At:0,5:0,2,4/tnf:2x3:400', 1000),
                       (KNOWN, 300_000), (DATA, 100_000)):
        checker(rep, 'reason', space, segs=segs, reason=0, lim=lim)
