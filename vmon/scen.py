"""Random processing scenarios: configuration, orbit, terrain, instrument data, file imperfections."""
import os, copy
from types import SimpleNamespace as NS
import numpy as np
from . import synth, ref, harness

LEAP2012 = 394416000          # 2012-07-01 in UTC seconds since 2000-01-01 (86400 s days)


def draw(seed, theme=None, **force):
    """-> NS(P, D, desc, l1bs).  theme emphasises one aspect, everything else stays random."""
    force = dict(force)
    rng = np.random.default_rng([int(seed), 77])
    t = theme or ''
    ch = lambda *a: a[int(rng.integers(len(a)))]
    P = synth.default_params()
    P.npul = ch(8, 8, 6, 10, 12, 16)
    P.ns = ch(16, 16, 8, 24, 32, 12)
    P.zp = ch(1, 2, 2, 4, 3)
    P.brf = float(ch(8., 8., 6.5, 10., 12.))
    P.prf = float(rng.uniform(16500, 18500))
    if t == 'narrow':                # alignment shifts of the order of the window
        P.ns, P.zp = ch(8, 6, 8, 10), 1
    if t == 'nominal':
        P.npul, P.ns, P.zp, P.brf, P.prf = 64, 128, ch(1, 2), 1 / 0.0127307, 17825.311
        P.bw, P.mult, P.uso = 320e6, 32., 10e6
    if t == 'big':                   # stacks of more than 249 beams: bursts that follow each other closely
        P.npul, P.ns, P.zp, P.brf = ch(8, 6), ch(8, 10), ch(1, 1, 2), float(rng.uniform(85, 120))
    r2 = np.random.default_rng([int(seed), 78])
    if r2.random() < .6:            # instrument and Earth constants other than the nominal ones
        u = r2.uniform
        P.freq *= u(.97, 1.03); P.pulse_length *= u(.8, 1.1); P.bw *= u(.95, 1.05)
        P.ptx, P.gain = u(4, 12), u(38, 44)
        P.ptr_width *= u(.7, 1.4); P.ratio_trc += u(-5, 5)
        P.earth_radius += u(-6e3, 2e3)
        P.mean_sat_alt = float(r2.choice([814.5e3, 717.2e3, 800e3]))
        P.semi_major_axis += u(-300, 300)
        P.flat = 1 / u(297., 299.5)
        P.semi_minor_axis = P.semi_major_axis * (1 - P.flat)
        P.uso *= u(.999, 1.001)
    P.azimuth = ch('approx', 'exact')
    P.win = ch('none', 'hamming', 'hanning', 'boxcar')
    P.win_width = int(ch(P.npul, P.npul - 2, P.npul // 2, P.npul - 1))
    P.flag_cal1, P.flag_cal2 = bool(rng.random() < .7), bool(rng.random() < .7)
    P.cal2_index = ch(0, 1, 2)
    P.flag_doppler, P.flag_slant = bool(rng.random() < .8), bool(rng.random() < .85)
    P.flag_masking = bool(rng.random() < .75)
    P.flag_avoid_zeros = bool(rng.random() < .5)
    P.fmt = ch('extended', 'extended', 'sentinel-3')
    looks = 21e3 / (6.5e3 / P.brf)          # roughly the beams per stack
    P.n_looks = int(ch(round(.7 * looks), round(looks), round(1.4 * looks), round(.45 * looks)))
    if t == 'nominal': P.n_looks = int(ch(128, 200, 256))
    if t == 'big': P.n_looks = int(ch(400, 300, 350, 270))
    if rng.random() < (.9 if t == 'antenna' else .3):
        n = 250                                  # the table size the characterisation file prescribes
        P.flag_antenna = True
        P.ant_spacing = float(rng.uniform(3e-5, 3e-4))
        P.ant_angles = (np.arange(n) - n // 2 + rng.uniform(-30, 30)) * P.ant_spacing
        P.ant_weights = rng.uniform(.2, 1, n)
    if P.flag_masking and rng.random() < (.8 if t == 'mask' else .3):
        P.mask_min, P.mask_max = float(rng.uniform(-.9, -.1)), float(rng.uniform(.1, .9))
    lat0 = float(ch(20., -55., rng.uniform(-70, 70), 0., 80., -80.))
    lon0 = float(ch(10., 179.9, -179.95, 0., rng.uniform(-180, 180), 359.9 - 360))
    kw = dict(lat0=lat0, lon0=lon0, alt=float(ch(814.5e3, 780e3, 850e3)), asc=bool(rng.integers(2)),
              radial=float(ch(0., 12., -20., 25.)), amp=float(ch(12., 3., 200.)),
              rough=float(ch(.2, 1., 3.)), tracker_step=float(ch(0., 0., 30., 8.)), dopp=float(ch(0., .2, .15, .3)),
              t0=float(rng.integers(3.6e8, 5.2e8)) + rng.random())
    if kw['tracker_step']:
        kw['rough'] = min(kw['rough'], 1.)
    if t == 'big':
        kw.update(tracker_step=0., dopp=float(ch(.45, .6, .35)))
    # segment layout (in bursts)
    surf_per_burst = .83 * P.npul / 21. * 8 / P.brf
    need = lambda s: int(np.ceil(s / surf_per_burst)) + 3
    layout = ch('long', 'two', 'two', 'three', 'many') if t != 'gaps' else ch('two', 'three', 'many', 'many')
    if t == 'long': layout = 'long'
    if t in ('nominal', 'big'): layout = 'two'
    layout = force.pop('layout', layout)
    short = lambda: int(rng.integers(need(6), need(22)))
    if layout == 'long': seg = [need(82) + int(rng.integers(0, need(25)))]
    elif t == 'nominal': seg = [int(rng.integers(120, 200)) for _ in range(2)]
    elif t == 'big': seg = [int(rng.integers(need(9), need(13))), need(6)]
    elif layout == 'two': seg = [short(), short()]
    elif layout == 'three': seg = [short(), short() if rng.random() < .6 else need(84), short()]
    else: seg = [int(ch(short(), short(), 1, 2, 4)) for _ in range(int(rng.integers(3, 6)))]
    if layout == 'many' and max(seg[:-1]) < need(6): seg[0] = short()
    seg = force.pop('seg', seg)
    bri = 1 / P.brf
    dt = []
    for k, m in enumerate(seg):
        if k: dt.append(bri * float(ch(1.52, 1.6, 2.0, 3.0, 8.2, 20.)))
        d = np.full(m - 1, bri)
        if rng.random() < .4:      # jitter below the gap threshold
            d = d * rng.uniform(.97, 1.03, m - 1)
            if m > 12: d[int(rng.integers(m - 1))] = bri * 1.46
        dt.extend(d)
    n = sum(seg)
    dt = np.array(dt[:n - 1])
    utc_shift = 0.
    if t == 'utc' or rng.random() < .15:
        mid = ch('midnight', 'midnight', 'leap', 'none')
        T = dt.sum()
        frac = rng.uniform(.2, .8)
        if mid == 'midnight':
            day = int(kw['t0'] // 86400) + 1
            kw['t0'] = day * 86400. - frac * T
        elif mid == 'leap':
            kw['leap'] = True
            kw['t0'] = LEAP2012 - frac * T
    leap = kw.pop('leap', False)
    D = synth.make_bursts(P, rng, n, dt=dt, **kw)
    if t == 'jump':                  # single bursts whose window lies beyond that of their neighbours
        at = r2.choice(n, max(1, n // 12), replace=False)
        D['range_ku'] = D['range_ku'].copy()
        D['range_ku'][at] += r2.choice([-1., 1.], len(at)) * r2.uniform(.9, 2.5, len(at)) * P.ns * P.c / (2 * P.bw)
    if t == 'dark':                  # bursts without any echo: some, a stretch or all of them
        k0, k1 = np.sort(r2.integers(0, n + 1, 2))
        at = [r2.random(n) < .3, (np.arange(n) >= k0) & (np.arange(n) < k1), np.ones(n, bool)][int(r2.integers(3))]
        D['i_meas'], D['q_meas'] = np.where(at[:, None, None], 0, D['i_meas']), np.where(at[:, None, None], 0, D['q_meas'])
    if leap:
        # time (TAI) runs through; UTC has 86401 s on 2012-06-30
        el = D['time'] - LEAP2012           # 0 = start of the leap second
        after = el >= 1.
        day = LEAP2012 // 86400
        D['UTC_day'] = np.where(after, day, day - 1)
        D['UTC_sec'] = np.where(after, el - 1., 86400. + el)
    inv = 0
    if t == 'invalid' or rng.random() < .2:
        # invalid records: added between good ones (time continues), so that segments stay as laid out
        inv = int(rng.integers(1, 12))
        at = np.sort(rng.choice(n + 1, inv, replace=True))
        if rng.random() < .4: at[:max(1, inv // 2)] = 0
        if rng.random() < .4: at[-max(1, inv // 2):] = n
        for k, v in list(D.items()):
            v = np.asarray(v, float)
            if v.ndim and v.shape[0] == n:
                fillv = v[np.clip(at, 0, n - 1)] * 1.
                D[k] = np.insert(v, at, fillv, axis=0)
        mask = np.insert(np.zeros(n, bool), at, True)
        D['lat'] = np.where(mask, 0., D['lat'])
        D['lon'] = np.where(mask, 0., D['lon'])
    if t == 'roi' or rng.random() < .15:
        ok = ~((D['lat'] == 0) & (D['lon'] == 0))
        key = ch('lat', 'lat', 'lon')
        v = np.sort(D[key][ok])
        if v[-1] - v[0] < 300:
            k0, k1 = int(.03 * len(v)), int((1 - rng.uniform(0, .05)) * len(v)) - 1
            q = 1e-6
            lo = np.round(v[k0] / q) * q if rng.random() < .5 else (v[k0] + v[max(k0 - 1, 0)]) / 2
            hi = np.round(v[k1] / q) * q if rng.random() < .5 else (v[k1] + v[min(k1 + 1, len(v) - 1)]) / 2
            which = ch('both', 'min', 'max')
            if which != 'max': setattr(P, 'min_' + key, float(lo))
            if which != 'min': setattr(P, 'max_' + key, float(hi))
    if t == 'focus' or rng.random() < .15:
        P.focus = True
        ok = np.flatnonzero(~((D['lat'] == 0) & (D['lon'] == 0)))
        where = ch('inside', 'inside', 'inside', 'start', 'end', 'beyond')
        a = dict(inside=rng.uniform(.2, .8), start=rng.uniform(0, .1), end=rng.uniform(.9, 1),
                 beyond=rng.choice([0, 1])).get(where)
        m = ok[min(int(a * len(ok)), len(ok) - 1)]
        P.focus_lat = float(D['lat'][m] + rng.normal(0, .01))
        P.focus_lon = float(D['lon'][m] + rng.normal(0, .01))
        if where == 'beyond':
            P.focus_lat = float(np.clip(P.focus_lat + rng.choice([-1, 1]) * rng.uniform(.02, 3), -90, 90))
        P.focus_alt = float(ch(0., 30., 100.))
    for k, v in force.items():
        setattr(P, k, v)
    desc = dict(seed=int(seed), theme=t, layout=layout, segs=list(map(int, seg)), npul=P.npul, ns=P.ns, zp=P.zp,
                az=P.azimuth, win=P.win, n_looks=P.n_looks, mask=P.flag_masking, azero=P.flag_avoid_zeros,
                ant=P.flag_antenna, fmt=P.fmt, invalid=inv, focus=P.focus,
                roi=[P.min_lat, P.max_lat, P.min_lon, P.max_lon], lat0=round(lat0, 2), lon0=round(lon0, 2), leap=leap)
    return NS(P=P, D=D, desc=desc, rng=rng)


AMB = dict(res=1e-6, focus=1e-2, vis=1e-7, gap=1e-6)


def solid(seed, theme=None, min_rec=1, tries=12, **force):
    """draw until the reference has records and no structural decision hangs on rounding.
    -> NS with path, B, recs, info (files written in a scratch folder)"""
    for k in range(tries):
        s = draw(seed * 100 + k, theme, **force)
        s.dir = harness.scratch('sc')
        s.l1a = os.path.join(s.dir, 'L1A_a.nc')
        s.B = synth.write_l1a(s.l1a, s.D, s.P)
        s.recs, s.info = ref.chain(s.B, s.P)
        a = s.info.amb
        if len(s.recs) < min_rec or any(getattr(a, q) < v for q, v in AMB.items()) or not expect_product(s):
            import shutil
            shutil.rmtree(s.dir)
            continue
        s.aux = synth.write_aux(s.P, os.path.join(s.dir, 'aux'))
        s.out = os.path.join(s.dir, 'out')
        os.makedirs(s.out)
        return s
    return None


def expect_product(s):
    """a run fails for lack of records iff there is only one segment and it has fewer than 80 samples"""
    si = s.info.seginfo
    return len(si) > 1 or (len(si) == 1 and si[0].n_surf >= 80)
