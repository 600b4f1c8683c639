"""Calibrated echoes entering the azimuth processing, and the calibration algorithms on single bursts."""
import contextlib, copy
import numpy as np
from .. import chain, scen, synth, ref, harness, compare

RULE = ('one case = one run of L1BProcessor in which the complex echoes of every burst are observed when they enter '
        'the azimuth processing and compared with I/Q x gain x (CAL1 once if on) x (CAL2 once if on) of that burst')


@contextlib.contextmanager
def observe(log):
    from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm as A
    orig = A.__call__

    def hook(self, *a, **k):
        packet = a[0] if a else k.get('packet')
        log.append((float(packet.time_sar_ku), np.array(packet.waveform_cor_sar)))
        return orig(self, *a, **k)
    A.__call__ = hook
    try:
        yield log
    finally:
        A.__call__ = orig


def echoes(seed, theme, c1, c2):
    s = scen.solid(seed, theme, min_rec=2, flag_cal1=c1, flag_cal2=c2)
    if s is None:
        return [], {}, dict(seed=seed, drawn=False)
    L = compare.Log(dict(s.desc, cal1=c1, cal2=c2, table=s.P.cal2_index))
    log = []
    with observe(log):
        r = harness.run(s.aux, s.l1a, s.out, l1bs=seed % 3 == 0)
    if r.error is not None:
        L.bad('processing failed with %s: %s' % (type(r.error).__name__, r.error))
        return chain.done(s, L)
    W = s.info.W
    at = {t: i for i, t in enumerate(W.time)}
    segno = {i: j for j, g in enumerate(s.info.segs) for i in g}
    for t, wf in log:
        i = at[t]
        sc = np.abs(W.wf[i]).max() or 1.
        if not L.close('echoes of burst %d (segment %s)' % (i, segno.get(i)), wf / sc, W.wf[i] / sc, 1e-9):
            break
        L.n('bursts compared')
        L.n('bursts first after a gap', int(any(i == g[0] for g in s.info.segs[1:])))
        L.n('bursts read past the first block of 40', int(i >= 40))
    if not log:
        L.n('not observable: azimuth input')
    # whatever the internals: the waveforms of the product follow from echoes calibrated exactly once
    pr = compare.Product(r.l1b)
    if pr.n != len(s.recs):
        L.bad('%d records, expected %d' % (pr.n, len(s.recs)))
    else:
        C = compare.l1b_columns_ref(s, pr, L)
        C.c = {k: v for k, v in C.c.items() if k == 'i2q2_meas_ku' and s.P.fmt == 'sentinel-3'}
        compare.check_cols(L, pr, C, compare.SFX)
    L.n('calibration settings cal1=%d cal2=%d' % (c1, c2))
    return chain.done(s, L)


def single(seed):
    """the two algorithms on single bursts read from a file, in any order and repeatedly"""
    rng = np.random.default_rng([seed, 3])
    s = scen.solid(seed, ('gaps', 'long', 'narrow')[seed % 3], min_rec=1, flag_cal1=bool(rng.integers(2)), flag_cal2=bool(rng.integers(2)))
    if s is None:
        return [], {}, dict(seed=seed, drawn=False)
    P, W = s.P, s.info.W
    L = compare.Log(dict(s.desc, single=True, npul=P.npul, ns=P.ns, cal1=P.flag_cal1, cal2=P.flag_cal2))
    try:
        from dedop.proc.sar.cal import CAL1Algorithm, CAL2Algorithm
        from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
        from dedop.data.input.l1a import L1ADataset
    except ImportError as e:
        L.n('not observable: %s' % e)
        return chain.done(s, L)
    with harness.quiet():
        cst = ConstantsFile(s.aux[1])
        chd = CharacterisationFile(cst, s.aux[2])
        cnf = ConfigurationFile(s.aux[0])
        ds = L1ADataset(s.l1a, cst=cst, chd=chd, cnf=cnf)
        c1, c2 = CAL1Algorithm(chd, cst, cnf), CAL2Algorithm(chd, cst, cnf)
        for i in rng.choice(s.info.used, 12):
            b = ds[int(i)]
            c1(b)
            c2(b)
            sc = np.abs(W.wf[i]).max() or 1.
            L.n('single bursts')
            if not L.close('calibration of single burst %d' % i, np.array(b.waveform_cor_sar) / sc, W.wf[i] / sc, 1e-9): break
    return chain.done(s, L)


def run(ck):
    chain.many(ck, __name__, 'single', [(ck.seed * 1000 + 500 + k,) for k in range(120 if ck.thorough else 20)])
    n = 160 if ck.thorough else 32
    args = []
    for k, (a, b) in enumerate(chain.plan(ck, n, themes=('gaps', 'long', 'invalid', 'gaps'), off=3)):
        args.append((a, b, bool(k // 4 & 1 ^ 1), bool(k // 8 & 1 ^ 1)))
    chain.many(ck, __name__, 'echoes', args)
