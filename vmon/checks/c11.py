"""Sigma-0 factors of every look and record."""
from .. import chain

RULE = ('one case = one run of L1BProcessor with its own instrument and Earth constants; the factor of every look and '
        'of every record is compared with the radar equation written in decibels. Non-trivial = records compared')
NAMES = ('sigma0', 'cols:sigma0')


def run(ck):
    n = 360 if ck.thorough else 40
    args = [(a, b, NAMES) for a, b in chain.plan(ck, n, themes=('gaps', 'long', None, 'mask', 'invalid'), off=11)]
    for i in range(12 if ck.thorough else 1):
        args.append((ck.seed * 1000 + 110 + i, 'nominal', NAMES))
    chain.many(ck, 'vmon.chain', 'stage', args)
