from ..core import DATA, KNOWN, checker


def run(rep, tier):
    quick = [('raw:2x2', '0,1,2,3,5,20,256'), ('tnf:3x2:400', '0,1,2,3,5,20,256'),
             ('tnf:2x3:400', '0,1,2,3,5,20,256'), ('tnf:4x2:120', '30')]
    deep = [('raw:2x2', '0,1,2,3,4,5,6,7,8,20,256'), ('raw:3x2', '1,3,20'),
            ('rb:2x3', '1,3,20'),
            ('tnf:3x2:2000', '0,1,2,3,4,5,6,7,8,9,10,20,256'),
            ('tnf:2x3:2000', '0,1,2,3,4,5,6,7,8,9,10,20,256'),
            ('tnf:4x2:400', '1,2,3,5,12,40'), ('tnf:2x4:400', '1,2,3,5,12,40')]
    for space, depths in quick if tier == 'quick' else deep:
        checker(rep, 'reason', space, depths=depths, seg=0)
    # the same with other names, and what the repository has programs of
    depths = '1,5,20,256' if tier == 'quick' else '1,2,3,5,10,20,46,256'
    for space, lim in (('At:0,3,5:0,4/tnf:3x2:400', 1000),
                       ('At:0,5:0,2,4/tnf:2x3:400', 1000),
                       (KNOWN, 300_000), (DATA, 100_000)):
        checker(rep, 'reason', space, depths=depths, seg=0, lim=lim, reentered=1)
