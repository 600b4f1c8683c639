"""The L1B file read back against the records handed to the writer and the L1A record of the closest burst."""
from .. import chain

RULE = ('one case = one run of L1BProcessor; every variable of every record of the L1B file is decoded with its '
        'declared scale and offset and compared with the computed record (half a packing step of the product definition). Non-trivial = '
        'values compared')
ASSUMPTIONS = ['values that do not fit the declared type or equal its fill value are skipped (counted)',
               'status fields are not compared where two bursts are equally close to the surface']
NAMES = ('l1b_obs',)


def run(ck):
    n = 420 if ck.thorough else 44
    args = []
    for k, (a, b) in enumerate(chain.plan(ck, n, off=13)):
        args.append((a, b, NAMES, dict(fmt=('extended', 'sentinel-3')[k % 2], min_rec=2)))
    # stacks of which little or nothing is left by the mask
    win = ((.85, .95), (2., 3.), (-.3, -.2), (.02, .05))
    for i in range(40 if ck.thorough else 6):
        args.append((ck.seed * 1000 + 1350 + i, chain.THEMES[i % 5], NAMES,
                     dict(fmt=('extended', 'sentinel-3')[i // 4 % 2], flag_masking=True, mask_min=win[i % 4][0],
                          mask_max=win[i % 4][1])))
    # bursts without any echo
    for i in range(40 if ck.thorough else 4):
        args.append((ck.seed * 1000 + 1450 + i, 'dark', NAMES, dict(fmt=('extended', 'sentinel-3')[i % 2], min_rec=1)))
    for i in range(12 if ck.thorough else 2):
        args.append((ck.seed * 1000 + 130 + i, 'nominal', NAMES, dict(fmt=('extended', 'sentinel-3')[i % 2])))
    chain.many(ck, 'vmon.chain', 'stage', args)
