from ..core import DATA, KNOWN, checker

QUICK = [('raw:2x2', '0,1,2,3,7,40'), ('tnf:3x2:400', '0,1,2,5,13,60,400'),
         ('tnf:2x3:400', '0,1,2,5,13,60,400'), ('rb:2x3', '3,6,25'),
         ('as:0,3,7:0,9/tnf:3x2:400', '5,60'), ('as:0,11:0,6,9/tnf:2x3:400', '5,60'),
         (KNOWN, '7,100,2000'), (DATA, '7,100,2000')]
DEEP = [('raw:2x2', '0,1,2,3,4,5,6,7,8,9,10,40,200'),
        ('raw:3x2', '1,4,9,40'), ('rb:2x3', '0,1,2,3,7,40'),
        ('tnf:3x2:2000', '0,1,2,5,13,60,400,2000'),
        ('tnf:2x3:2000', '0,1,2,5,13,60,400,2000'),
        ('tnf:4x2:200', '6,40,200'), ('tnf:2x4:200', '6,40,200'),
        ('as:0,3,7:0,9/tnf:3x2:400', '5,60,400'), ('as:0,7:0,9/raw:2x2', '5,60'),
        ('as:0,11:0,6,9/tnf:2x3:400', '5,60,400'), ('as:7,0,2:3,0/raw:2x2', '5,60'),
        (KNOWN, '1,7,100,2000,8000'), (DATA, '1,7,100,2000,8000')]


def run(rep, tier):
    for space, lims in QUICK if tier == 'quick' else DEEP:
        checker(rep, 'quick', space, lims=lims)
