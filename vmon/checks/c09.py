"""Range alignment and compression of every beam, from the observed beams and geometry."""
from .. import chain

RULE = ('one case = one run of L1BProcessor; for every beam of every stack the slant range, the three corrections, the '
        'aligned beam, its energy, the compressed beam and its power are compared with explicit formulas; the '
        'waveforms of the product with the reference chain. Non-trivial = beams compared')
NAMES = ('geometry', 'cols:wf')


def run(ck):
    n = 360 if ck.thorough else 40
    args = []
    for k, (a, b) in enumerate(chain.plan(ck, n, themes=('long', 'gaps', None, 'mask', 'focus'), off=9)):
        args.append((a, b, NAMES, dict(flag_doppler=k % 4 != 1, flag_slant=k % 4 != 2, zp=(1, 2, 3, 4, 2)[k // 2 % 5])))
    for i in range(12 if ck.thorough else 1):
        args.append((ck.seed * 1000 + 90 + i, 'nominal', NAMES))
    chain.many(ck, 'vmon.chain', 'stage', args)
