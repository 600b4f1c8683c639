"""Surface samples against the reference, in the records handed to the writers and in the product."""
from .. import chain

RULE = ('one case = one run of L1BProcessor; every surface sample (position, time, satellite state, attitude, tracker '
        'range) is compared with the reference sampling of the segment, computed from the L1A file as a whole')


def run(ck):
    n = 500 if ck.thorough else 48
    th = ('focus', 'gaps', 'long', None, 'focus', 'invalid')
    args = [(a, b, ('surface', 'cols:geo')) for a, b in chain.plan(ck, n, themes=th, off=5)]
    args += [(ck.seed * 1000 + i, 'nominal', ('surface', 'cols:geo')) for i in range(20 if ck.thorough else 4)]
    # few looks: the samples next to the ends of a segment are in the product
    args += [(ck.seed * 1000 + 500 + i, 'focus', ('surface', 'cols:geo'), dict(n_looks=2 + i % 4))
             for i in range(160 if ck.thorough else 16)]
    chain.many(ck, 'vmon.chain', 'stage', args)
