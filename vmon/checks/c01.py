"""End to end: L1B product on disk against the independent reference; point targets must focus."""
import numpy as np
from .. import chain, scen, synth, ref, harness, compare

RULE = ('one case = one synthetic L1A file + configuration run through L1BProcessor; every record and variable of the '
        'L1B file is compared with the independent reference chain; or a point-target run. Non-trivial = at least 3 '
        'records were compared')
ASSUMPTIONS = ['scenarios in which a structural decision (new surface, visibility, gap, cut) hangs on rounding are '
               'redrawn', 'small instruments (6..16 pulses, 8..32 samples) stand for the nominal 64x128 one; the '
               'thorough tier adds nominal-size runs']


def point(seed, azimuth):
    """echoes of a single scatterer on a surface sample"""
    for k in range(20):
        s = scen.draw(seed * 50 + k, 'long' if seed % 2 else 'gaps')
        P = s.P
        P.flag_cal1 = P.flag_cal2 = False
        P.win, P.azimuth, P.focus, P.flag_masking, P.flag_antenna = 'none', azimuth, False, seed % 3 == 0, False
        P.mask_min = P.mask_max = None
        P.min_lat = P.max_lat = P.min_lon = P.max_lon = None
        P.flag_doppler = P.flag_slant = True
        P.n_looks = max(P.n_looks, 12)
        s.dir = harness.scratch('pt')
        s.l1a = s.dir + '/L1A_a.nc'
        D = s.D
        D['agc_ku'] = np.zeros(len(D['time']))
        B = synth.write_l1a(s.l1a, D, P)
        recs, info = ref.chain(B, P)
        s.recs, s.info = recs, info
        if len(recs) < 6 or any(getattr(info.amb, q) < v for q, v in scen.AMB.items()) or not scen.expect_product(s):
            import shutil
            shutil.rmtree(s.dir)
            continue
        W = info.W
        cand = [i for i, R in enumerate(recs) if R.m >= .8 * max(R.m for R in recs)]
        t = cand[int(s.rng.integers(len(cand)))]
        x = recs[t].surface.xyz
        seg = info.segs[recs[t].seg]
        n, p = np.arange(P.ns), np.arange(P.npul)
        lam, t0 = P.c / P.freq, 1 / (P.uso * P.mult)
        E = np.zeros((W.n, P.npul, P.ns), complex)
        for i in seg:
            los = x - W.sat[i]
            r = np.linalg.norm(los)
            cosb = los @ W.vel[i] / r / W.speed[i]
            gate = (2 * r / P.c - W.wd[i]) / t0 + 2 / lam * W.speed[i] * cosb * P.pulse_length / P.bw / t0
            if abs(gate) > P.ns / 2 - 1:
                continue            # outside the window: not recorded
            E[i] = np.exp(4j * np.pi / lam * W.speed[i] * cosb * p / P.prf)[:, None] * \
                np.exp(2j * np.pi * gate * n / P.ns)
        D['i_meas'], D['q_meas'] = np.round(60 * E.real), np.round(60 * E.imag)
        B = synth.write_l1a(s.l1a, D, P)
        s.aux = synth.write_aux(P, s.dir + '/aux')
        s.desc.update(point=t, azimuth=azimuth, bursts_with_echo=int((np.abs(E).max((1, 2)) > 0).sum()))
        L = compare.Log(s.desc)
        r = harness.run(s.aux, s.l1a, s.dir)
        if r.error is not None:
            L.bad('processing failed with %s: %s' % (type(r.error).__name__, r.error))
            return chain.done(s, L)
        pr = compare.Product(r.l1b)
        wf = pr.val('i2q2_meas_ku' + compare.SFX)
        if len(wf) != len(recs):
            L.bad('%d records written, the algorithm defines %d' % (len(wf), len(recs)))
            return chain.done(s, L)
        f = pr.raw.get('i2q2_scale_factor' + compare.SFX)
        if f is not None:
            wf = wf * f[:, None]
        mid = P.ns * P.zp // 2
        pk = int(np.argmax(wf[t]))
        if abs(pk - mid) > max(1, P.zp // 2):
            L.bad('point scatterer on surface %d appears at sample %d of its record, the reference gate is %d' % (
                t, pk, mid))
        e = wf.max(1)
        far = [i for i in range(len(recs)) if abs(i - t) > 2]
        if far and e[t] < 3 * max(e[i] for i in far):
            L.bad('point scatterer not focused: peak %g on its record %d, %g elsewhere (record %d)' % (
                e[t], t, max(e[i] for i in far), max(far, key=lambda i: e[i])))
        L.n('point targets')
        L.n('point contrast x10', int(min(10 * e[t] / max([e[i] for i in far] or [e[t]]), 1000)))
        return chain.done(s, L)
    return [], {}, dict(seed=seed, drawn=False)


def nominal(seed):
    """the real instrument size"""
    return chain.stage(seed, 'nominal', ('l1b_ref',), dict(min_rec=3))


def run(ck):
    n = 400 if ck.thorough else 36
    chain.many(ck, 'vmon.chain', 'stage', [(a, b, ('l1b_ref',)) for a, b in chain.plan(ck, n, off=1)])
    k = 48 if ck.thorough else 8
    chain.many(ck, __name__, 'point', [(ck.seed * 100 + i, ('exact', 'approx')[i % 2]) for i in range(k)])
    if ck.thorough:
        chain.many(ck, __name__, 'nominal', [(ck.seed * 1000 + i,) for i in range(8)], procs=4)
