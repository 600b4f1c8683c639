"""Masking and multilooking of every stack, from the observed shifts, angles and powers."""
from .. import chain

RULE = ('one case = one run of L1BProcessor; for every stack the mask, mask vector, masked power, multilooked waveform, '
        'start/stop description and (where the fit is well conditioned) the fitted statistics are recomputed; the '
        'waveforms of the product are compared with the reference chain. Non-trivial = records compared')
ASSUMPTIONS = ['stacks whose mask hangs on the rounding of a shift or angle at the last digits are skipped (counted)',
               'fitted statistics are compared where eight perturbed fits agree']
NAMES = ('multilook', 'cols:wf')


def run(ck):
    n = 420 if ck.thorough else 48
    args = []
    for k, (a, b) in enumerate(chain.plan(ck, n, themes=('mask', 'antenna', 'gaps', 'mask', 'long', 'antenna'),
                                          off=10)):
        f = dict(flag_masking=k % 5 != 4, flag_avoid_zeros=bool(k // 2 % 2))
        if k % 7 == 3: f.update(n_looks=(1, 3, 2)[k // 7 % 3], min_rec=1)
        # narrow limits: some or all beams of a stack outside
        if k % 6 == 3: f.update(mask_min=(-.05, .1, -.3)[k // 6 % 3], mask_max=(.02, .3, -.2)[k // 6 % 3])
        args.append((a, b, NAMES, f))
    for i in range(60 if ck.thorough else 8):
        args.append((ck.seed * 1000 + 50 + i, 'narrow', NAMES, dict(flag_masking=True, flag_avoid_zeros=bool(i % 2), min_rec=1)))
    # beams in the middle of a stack that have nothing in the window; only one of the limits configured
    for i in range(60 if ck.thorough else 6):
        args.append((ck.seed * 1000 + 150 + i, 'jump', NAMES, dict(flag_masking=True, flag_avoid_zeros=bool(i % 2))))
    for i in range(8 if ck.thorough else 2):
        args.append((ck.seed * 1000 + 250 + i, None, NAMES, dict(
            flag_masking=True, mask_min=(-.3, None)[i % 2], mask_max=(None, .3)[i % 2])))
    # stacks of more than 249 beams, of which the central ones are fitted
    for i in range(24 if ck.thorough else 4):
        args.append((ck.seed * 1000 + 350 + i, 'big', NAMES, dict(min_rec=1)))
    # bursts without any echo
    for i in range(40 if ck.thorough else 4):
        args.append((ck.seed * 1000 + 1450 + i, 'dark', NAMES, dict(min_rec=1)))
    for i in range(12 if ck.thorough else 1):
        args.append((ck.seed * 1000 + 100 + i, 'nominal', NAMES))
    chain.many(ck, 'vmon.chain', 'stage', args)
