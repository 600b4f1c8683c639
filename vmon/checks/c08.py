"""Stacks: membership, order, cutting, per-beam annotations, closest burst, dropped surfaces."""
from .. import chain

RULE = ('one case = one run of L1BProcessor; every stack handed to the writers is compared with the one the reference '
        'collects from all bursts of the segment (beams, angles, indices, bursts, order, padding), and the stack '
        'description of the product with it. Non-trivial = records compared')
NAMES = ('stack', 'cols:stack')


def run(ck):
    n = 420 if ck.thorough else 40
    args = []
    for k, (a, b) in enumerate(chain.plan(ck, n, themes=('long', 'gaps', None, 'gaps', 'invalid'), off=8)):
        # numbers of looks from far below to far above the number of beams available, odd ones included
        f = [dict(), dict(n_looks=7), dict(n_looks=12), dict(n_looks=40), dict(), dict(n_looks=1), dict(n_looks=25),
             dict(n_looks=2)][k % 8]
        args.append((a, b, NAMES, dict(f, min_rec=2)))
    for i in range(12 if ck.thorough else 1):
        args.append((ck.seed * 1000 + 80 + i, 'nominal', NAMES))
    chain.many(ck, 'vmon.chain', 'stage', args)
