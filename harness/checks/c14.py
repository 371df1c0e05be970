from ..core import DATA, KNOWN, checker


def run(rep, tier):
    quick = [('rb:2x2', '2,3,5,10,30,100,1000'), ('tnf:3x2:400', '3,10,30,100,1000'),
             ('tnf:2x3:400', '3,10,30,100,1000'), ('tnf:4x2:120', '50')]
    deep = [('rb:2x2', '0,1,2,3,4,5,6,7,8,9,10,30,100,1000'),
            ('rb:3x2', '10,100'), ('rb:2x3', '10,100'),
            ('tnf:3x2:2000', '2,3,4,5,10,30,100,1000,4000'),
            ('tnf:2x3:2000', '2,3,4,5,10,30,100,1000,4000'),
            ('tnf:4x2:200', '20,200'), ('tnf:2x4:200', '20,200')]
    for space, lims in quick if tier == 'quick' else deep:
        checker(rep, 'rec', space, lims=lims)
    lims = '10,100,1000' if tier == 'quick' else '2,5,10,100,300,1000,4000'
    for space in ('as:0,1,9:0,1/tnf:3x2:400', 'as:0,1:0,1,8/tnf:2x3:400',
                  'At:0,1,9:0,1/tnf:3x2:400', KNOWN, DATA):
        checker(rep, 'rec', space, lims=lims, lim=100_000)
