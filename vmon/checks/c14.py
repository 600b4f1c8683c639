"""The L1BS file read back against the stacks handed to the writer, and against the L1B file."""
from .. import chain

RULE = ('one case = one run of L1BProcessor with the L1BS product; record counts and order against L1B, every stack '
        '(I/Q up to one quantisation step of its scale factor), angle table and ancillary value decoded and compared '
        'with the computed record. Non-trivial = values compared')
ASSUMPTIONS = ['values that do not fit the declared type or equal its fill value are skipped (counted)']
NAMES = ('l1bs',)


def run(ck):
    n = 420 if ck.thorough else 44
    args = []
    for k, (a, b) in enumerate(chain.plan(ck, n, off=14)):
        args.append((a, b, NAMES, dict(fmt=('extended', 'sentinel-3')[k // 2 % 2], min_rec=2)))
    # stacks of which little or nothing is left by the mask
    win = ((.85, .95), (2., 3.), (-.3, -.2), (.02, .05))
    for i in range(40 if ck.thorough else 6):
        args.append((ck.seed * 1000 + 1450 + i, chain.THEMES[i % 5], NAMES,
                     dict(fmt=('extended', 'sentinel-3')[i // 4 % 2], flag_masking=True, mask_min=win[i % 4][0],
                          mask_max=win[i % 4][1])))
    # bursts without any echo
    for i in range(40 if ck.thorough else 4):
        args.append((ck.seed * 1000 + 1450 + i, 'dark', NAMES, dict(fmt=('extended', 'sentinel-3')[i % 2], min_rec=1)))
    for i in range(12 if ck.thorough else 2):
        args.append((ck.seed * 1000 + 140 + i, 'nominal', NAMES))
    chain.many(ck, 'vmon.chain', 'stage', args)
