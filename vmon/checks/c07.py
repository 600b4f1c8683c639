"""Surfaces seen by each burst, beam angles and steered beams: observed inside runs and on single real bursts."""
import contextlib, shutil
from types import SimpleNamespace as NS
import numpy as np
from .. import chain, scen, synth, ref, harness, compare

RULE = ('one case = one run in which, for every burst, the surfaces seen, their beam angles and the beams formed are '
        'observed when the azimuth processing returns and compared with the reference (coherent sums written out as '
        'explicit DFTs), or one file whose bursts are presented to the beam angle and azimuth steps with made-up '
        'surface lists (interrupted, over-full, empty). Non-trivial = at least one beam compared')


@contextlib.contextmanager
def observe(log):
    from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm as A
    orig = A.__call__

    def hook(self, *a, **k):
        packet = a[0] if a else k.get('packet')
        res = orig(self, *a, **k)
        try:
            log.append((float(packet.time_sar_ku), np.array(packet.beam_angles_list, float),
                        list(packet.surfaces_seen_list), np.array(self.beams_focused)))
        except AttributeError as e:
            log.append(None)
        return res
    A.__call__ = hook
    try:
        yield log
    finally:
        A.__call__ = orig


def traced(seed, theme, force):
    s = scen.solid(seed, theme, min_rec=2, **force)
    if s is None:
        return [], {}, dict(seed=seed, drawn=False)
    P, W = s.P, s.info.W
    L = compare.Log(dict(s.desc, **force))
    log = []
    with observe(log):
        r = harness.run(s.aux, s.l1a, s.out)
    L.n('runs')
    if r.error is not None:
        L.bad('processing failed with %s: %s' % (type(r.error).__name__, r.error))
        return chain.done(s, L)
    at = {W.time[b.i]: b for si in s.info.seginfo for b in si.BS}
    for e in log:
        if e is None:
            L.n('not observable: beams')
            continue
        t, ang, seen, beams = e
        b = at.get(t)
        if b is None:
            L.bad('burst at time %r is no usable record' % t)
            continue
        w = ' of burst %d' % b.i
        if not L.close('number of surfaces seen', len(ang), b.n, 0, w):
            break
        if not L.close('beam angles', ang, b.ba, compare.ANG, w):
            break
        if len(seen) != len(ang) or list(np.diff(seen)) != [1] * (len(seen) - 1):
            L.bad('surfaces seen by burst %d are not consecutive: %s' % (b.i, seen))
            break
        if b.n:
            want = ref.focus_beams(b, W.wf[b.i], W.speed[b.i], P)
            sc = np.abs(want).max() or 1.
            if not L.close('beams', np.asarray(beams)[:b.n] / sc, want / sc, 1e-6, w):
                break
        L.n('beams', b.n)
        L.n('bursts trend %+d' % b.trend)
        L.n('bursts seeing nothing', int(b.n == 0))
        L.n('bursts seeing as many surfaces as pulses', int(b.n == P.npul))
    if compare.aligned(L, s.recs, r.surfaces):
        for i, (R, x) in enumerate(zip(s.recs, r.surfaces)):
            try:
                compare.stack(L, R, x, P, W, ' (record %d)' % i, beams=True, meta=False)
            except AttributeError as e:
                L.n('not observable: %s' % str(e)[-60:])
            if L.viol:
                break
    pr = compare.Product(r.l1b)
    if pr.n == len(s.recs):
        C = compare.l1b_columns_ref(s, pr, compare.Log({}))
        C.c = {k: v for k, v in C.c.items() if k in ('beam_ang', 'nb_stack') and (k == 'beam_ang' or
                                                                                   P.fmt == 'sentinel-3')}
        compare.check_cols(L, pr, C, compare.SFX)
    return chain.done(s, L)


def lists(seed):
    """made-up surface lists for real bursts"""
    rng = np.random.default_rng([seed, 70])
    s = scen.solid(seed, 'gaps', min_rec=1, tries=30)
    if s is None:
        return [], {}, dict(seed=seed, drawn=False)
    P, W = s.P, s.info.W
    L = compare.Log(dict(s.desc, lists=True))
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    from dedop.data.input.l1a import L1ADataset
    from dedop.model import SurfaceData
    from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm, BeamAnglesAlgorithm
    with harness.quiet():
        cst = ConstantsFile(s.aux[1])
        chd = CharacterisationFile(cst, s.aux[2])
        cnf = ConfigurationFile(s.aux[0])
        ds = L1ADataset(s.l1a, cst=cst, chd=chd, cnf=cnf)
        ba, az = BeamAnglesAlgorithm(chd, cst, cnf), AzimuthProcessingAlgorithm(chd, cst, cnf)
        S = [x for si in s.info.seginfo for x in si.S]
        for k in range(30):
            i = int(rng.choice(s.info.used))
            pk = ds[i]
            # positions along the track of this burst, wide enough to leave the cone, possibly with holes
            n = int(rng.choice([0, 1, 2, P.npul - 1, P.npul, P.npul + 1, 2 * P.npul, 40]))
            span = rng.choice([.3, 1., 2.])
            d = W.vel[i] / W.speed[i]
            q = ref.cone(W.speed[i], P)
            half = span * 8.2e5 * np.tan(np.pi / 2 - q)
            a = np.sort(rng.uniform(-half, half, n)) + rng.choice([0, 0, half])
            if n > 3 and rng.random() < .6:
                j = rng.integers(1, n - 1, max(1, n // 5))
                a[j] += rng.choice([-1, 1]) * 6 * half
            pos = W.gnd[i] + a[:, None] * d + rng.normal(0, 30, (n, 3))
            amb = NS(vis=np.inf)
            if n:
                b = ref.beams_of_segment([i], [NS(xyz=p) for p in pos], W, P, amb)[0]
                if amb.vis < 1e-7:
                    continue
            else:
                b = NS(i=i, lo=0, n=0, ba=np.zeros(0), trend=1)
            surfs = []
            for m, p in enumerate(pos):
                la, lo, al = ref.ecef2lla(p, P)
                x = SurfaceData(cst, chd, 100 + m, x_surf=p[0], y_surf=p[1], z_surf=p[2], lat_surf=la, lon_surf=lo,
                                alt_surf=al, time_surf=W.time[i], x_sat=W.sat[i][0], y_sat=W.sat[i][1],
                                z_sat=W.sat[i][2], x_vel_sat=W.vel[i][0], y_vel_sat=W.vel[i][1],
                                z_vel_sat=W.vel[i][2], win_delay_surf=W.wd[i])
                x.compute_surf_sat_vector()
                surfs.append(x)
            work = surfs[int(rng.integers(n))] if n else None
            ba(surfs, pk, work)
            w = ' (burst %d, %d surfaces)' % (i, n)
            if not L.close('number of surfaces seen', len(ba.beam_angles), b.n, 0, w): break
            if not L.close('surfaces seen', np.array(ba.surfaces_seen, float), 100. + b.lo + np.arange(b.n), 0, w): break
            if not L.close('beam angles', np.array(ba.beam_angles, float), b.ba, compare.ANG, w): break
            L.n('surface lists')
            L.n('lists with later surfaces inside the cone again', int(n > 0 and b.n > 0 and interrupted(
                pos, i, W, P, b)))
            L.n('lists seeing nothing', int(b.n == 0))
            # beams for the list under each trend that can occur
            pk.beam_angles_list, pk.surfaces_seen_list = list(ba.beam_angles), list(ba.surfaces_seen)
            for tr in ((0,) if b.n == P.npul else (1, -1)):
                b.trend = tr
                prev = {0: -1, 1: b.n - 1, -1: b.n + 1}[tr]
                if tr == 1 and b.n == 0: prev = -1
                pk.calculate_beam_angles_trend(prev, 1)
                if pk.beam_angles_trend != tr:
                    L.bad('trend of a list of %d after one of %d is %s' % (b.n, prev, pk.beam_angles_trend))
                    break
                az(pk, chd.wv_length_ku)
                if b.n:
                    wf = np.array(pk.waveform_cor_sar)
                    want = ref.focus_beams(b, wf, W.speed[i], P)
                    sc = np.abs(want).max() or 1.
                    if not L.close('beams', np.asarray(az.beams_focused)[:b.n] / sc, want / sc, 1e-6,
                                   w + ' trend %d' % tr):
                        break
                    L.n('beams', b.n)
                    L.n('bursts trend %+d' % tr)
            if L.viol:
                break
        ds.close()
    return chain.done(s, L)


def interrupted(pos, i, W, P, b):
    los = pos - W.sat[i]
    ang = np.arccos(los @ W.vel[i] / (np.linalg.norm(los, axis=-1) * W.speed[i])) - W.dop[i]
    q = ref.cone(W.speed[i], P)
    seen = (ang >= q) & (ang <= np.pi - q)
    return bool(seen[b.lo + b.n:].any())


def run(ck):
    n = 320 if ck.thorough else 40
    args = []
    for k, (a, b) in enumerate(chain.plan(ck, n, themes=('gaps', 'long', None, 'gaps', 'focus'), off=7)):
        args.append((a, b, dict(azimuth=('exact', 'approx')[k % 2],
                                win=('none', 'hamming', 'hanning', 'boxcar')[k // 2 % 4])))
    for i in range(12 if ck.thorough else 2):
        args.append((ck.seed * 1000 + i, 'nominal', dict(azimuth=('exact', 'approx')[i % 2], layout='two')))
    chain.many(ck, __name__, 'traced', args)
    chain.many(ck, __name__, 'lists', [(ck.seed * 100 + i,) for i in range(160 if ck.thorough else 16)])
