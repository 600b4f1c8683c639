"""Independent executable specification of the Delay-Doppler L1B chain.

Written from the algorithm description, global (whole segments at a time) and vectorised; it shares no code with
dedop.  `P` is a plain namespace of physical parameters and options (see synth.Params), `B` a dict of decoded L1A
arrays (index = file record).
"""
import numpy as np
from types import SimpleNamespace as NS


# ---------------------------------------------------------------- geodesy
def lla2ecef(lat, lon, alt, P):
    a, b = P.semi_major_axis, P.semi_minor_axis
    lat = np.asarray(lat, float); lon = np.asarray(lon, float); alt = np.asarray(alt, float)
    n = a * a / np.sqrt((a * np.cos(lat)) ** 2 + (b * np.sin(lat)) ** 2)
    return np.stack([(n + alt) * np.cos(lat) * np.cos(lon), (n + alt) * np.cos(lat) * np.sin(lon),
                     (n * (b / a) ** 2 + alt) * np.sin(lat)], -1)


def ecef2lla(xyz, P):
    """Newton iteration on the parametric latitude; stable everywhere incl. poles"""
    a, b = P.semi_major_axis, P.semi_minor_axis
    x, y, z = np.moveaxis(np.asarray(xyz, float), -1, 0)
    p = np.hypot(x, y)
    e2 = 1 - (b / a) ** 2
    beta = np.arctan2(a * z, b * p)
    for _ in range(6):
        lat = np.arctan2(z + (a * a / (b * b) - 1) * b * np.sin(beta) ** 3, p - e2 * a * np.cos(beta) ** 3)
        beta = np.arctan2(b * np.sin(lat), a * np.cos(lat))
    # altitude: projection on the local normal (no division by cos lat)
    alt = (p - a * np.cos(beta)) * np.cos(lat) + (z - b * np.sin(beta)) * np.sin(lat)
    return lat, np.arctan2(y, x), alt


def angle(u, v):
    """angle between vectors (last axis), accurate at 0 and pi"""
    u = u / np.linalg.norm(u, axis=-1, keepdims=True)
    v = v / np.linalg.norm(v, axis=-1, keepdims=True)
    return 2 * np.arctan2(np.linalg.norm(u - v, axis=-1), np.linalg.norm(u + v, axis=-1))


# ---------------------------------------------------------------- bursts
def bursts(B, P):
    """per record derived values (all records of the file)"""
    d = np.pi / 180
    W = NS()
    W.n = len(B['time'])
    W.time = B['time']
    W.day = B['UTC_day'].astype(float)
    W.sec = B['UTC_sec']
    W.lat = B['lat'] * d
    W.lon = B['lon'] * d
    W.alt = B['alt']
    W.alt_rate = B['orb_alt_rate']
    W.vel = np.stack([B['x_vel'], B['y_vel'], B['z_vel']], -1)
    W.speed = np.linalg.norm(W.vel, axis=-1)
    W.roll, W.pitch, W.yaw = (B[k + '_sral_mispointing'] * d for k in ('roll', 'pitch', 'yaw'))
    W.rng = B['range_ku'] + np.cos(B['pitch_sat_pointing'] * d) * B['cog_cor']
    W.wd = 2 * W.rng / P.c
    W.sat = lla2ecef(W.lat, W.lon, W.alt, P)
    W.gnd = lla2ecef(W.lat, W.lon, W.alt - W.rng, P)
    # doppler angle: velocity against the horizontal (plane normal to the nadir direction)
    nad = lla2ecef(W.lat, W.lon, W.alt - P.mean_sat_alt, P) - W.sat
    nad = nad / np.linalg.norm(nad, axis=-1, keepdims=True)
    hor = W.vel - (W.vel * nad).sum(-1, keepdims=True) * nad
    W.dop = -angle(W.vel, hor)
    W.agc = B['agc_ku']
    W.seq = B['seq_count']
    W.wf = waveforms(B, P)
    return W


def waveforms(B, P):
    """calibrated complex echoes of all records"""
    wf = (B['i_meas'] + 1j * B['q_meas']) * (10. ** (B['agc_ku'] / 20.))[:, None, None]
    if P.flag_cal1:
        g = 10. ** ((B['agc_ku'] - B['sig0_cal_ku']) / 20.)
        wf = wf * (np.sqrt(B['burst_power']) * np.exp(1j * B['burst_phase']) / g[:, None])[:, :, None]
    if P.flag_cal2:
        tab = np.sqrt(B['gprw'][:, P.cal2_index, :])
        n = wf.shape[-1]
        # spectrum sample k (natural order) corresponds to table entry (k + n//2) % n
        tabn = tab[:, (np.arange(n) + n // 2) % n]
        wf = np.fft.ifft(np.fft.fft(wf, axis=-1) / tabn[:, None, :], axis=-1)
    return wf


def usable(B, P):
    lat, lon = B['lat'], B['lon']
    ok = ~((lat == 0) & (lon == 0))
    if P.min_lat is not None: ok &= lat >= P.min_lat
    if P.max_lat is not None: ok &= lat <= P.max_lat
    if P.min_lon is not None: ok &= lon >= P.min_lon
    if P.max_lon is not None: ok &= lon <= P.max_lon
    return np.flatnonzero(ok)


def segments(idx, time, P):
    """split the usable records at gaps; also report the distance of the intervals to the threshold"""
    if len(idx) == 0:
        return [], np.inf
    dt = np.diff(time[idx])
    thr = 1.5 / P.brf
    cut = np.flatnonzero(dt >= thr) + 1
    margin = np.min(np.abs(dt - thr)) * P.brf if len(dt) else np.inf
    return np.split(idx, cut), margin


# ---------------------------------------------------------------- surfaces
def surfaces(seg, W, P, focus_state, amb):
    """surface samples of one continuous segment (record indices seg)"""
    S = []

    def mk(**k):
        s = NS(**k)
        s.res = np.arcsin(P.c / (2 * P.freq * np.linalg.norm(s.vel) * P.npul / P.prf))
        s.view = s.xyz - s.sat
        s.focused = False
        S.append(s)
        return s

    i = seg[0]
    mk(time=W.time[i], lat=W.lat[i], lon=W.lon[i], alt=W.alt[i] - W.rng[i], xyz=W.gnd[i], sat=W.sat[i],
       lat_sat=W.lat[i], lon_sat=W.lon[i], alt_sat=W.alt[i], vel=W.vel[i], alt_rate=W.alt_rate[i],
       roll=W.roll[i], pitch=W.pitch[i], yaw=W.yaw[i], wd=W.wd[i], prev=i, cur=i, first=True)
    for j in range(1, len(seg)):
        p, q = seg[j - 1], seg[j]
        s = S[-1]
        aq = angle(s.view, W.gnd[q] - s.sat)
        amb.res = min(amb.res, abs(aq - s.res) / s.res)
        if aq < s.res:
            continue
        ap = angle(s.view, W.gnd[p] - s.sat)
        al = (s.res - ap) / (aq - ap)
        li = lambda v: v[p] + al * (v[q] - v[p])
        xyz, sat = li(W.gnd), li(W.sat)
        lat, lon, alt = ecef2lla(xyz, P)
        las, los, als = ecef2lla(sat, P)
        new = mk(time=li(W.time), lat=lat, lon=lon, alt=alt, xyz=xyz, sat=sat, lat_sat=las, lon_sat=los,
                 alt_sat=als, vel=li(W.vel), alt_rate=li(W.alt_rate), roll=li(W.roll), pitch=li(W.pitch),
                 yaw=li(W.yaw), wd=2 * (als - alt) / P.c, prev=p, cur=q, first=False)
        if P.focus and not focus_state.found and len(S) > 2:
            tgt = lla2ecef(np.radians(P.focus_lat), np.radians(P.focus_lon), P.focus_alt, P)
            dn, dl = np.linalg.norm(new.xyz - tgt), np.linalg.norm(S[-2].xyz - tgt)
            db = np.linalg.norm(S[-3].xyz - tgt)
            amb.focus = min(amb.focus, abs(dn - dl), abs(db - dl))
            if dn > dl and dl <= db:
                focus_state.found = True
                m, pr = S[-2], S[-3]
                u = (m.xyz - pr.xyz) / np.linalg.norm(m.xyz - pr.xyz)
                m.xyz = pr.xyz + ((tgt - pr.xyz) @ u) * u
                m.lat, m.lon, m.alt = ecef2lla(m.xyz, P)
                m.wd = 2 * (m.alt_sat - m.alt) / P.c
                m.focused = True
    return S


# ---------------------------------------------------------------- beams
def cone(speed, P):
    return np.arccos(np.clip(P.c * P.prf / (4 * P.freq * speed), -1, 1))


def beams_of_segment(seg, S, W, P, amb):
    """for every burst of the segment: (first surface, count, beam angles, trend)"""
    xyz = np.array([s.xyz for s in S])
    out = []
    prev_n, prev_t = -1, -1
    for i in seg:
        los = xyz - W.sat[i]
        ba = np.arccos(los @ W.vel[i] / (np.linalg.norm(los, axis=-1) * W.speed[i]))
        q = cone(W.speed[i], P)
        rel = ba - W.dop[i]
        amb.vis = min(amb.vis, np.min(np.abs(rel - q)), np.min(np.abs(rel - (np.pi - q))))
        seen = (rel >= q) & (rel <= np.pi - q)
        k = np.flatnonzero(seen)
        if len(k) == 0:
            lo = n = 0
        else:
            lo = k[0]
            br = np.flatnonzero(~seen[lo:])
            n = br[0] if len(br) else len(S) - lo
            if n > P.npul:
                lo, n = lo + n - P.npul, P.npul
        if n == P.npul: t = 0
        elif n > prev_n: t = 1
        elif n < prev_n: t = -1
        else: t = prev_t
        out.append(NS(i=i, lo=lo, n=n, ba=ba[lo:lo + n], trend=t))
        prev_n, prev_t = n, t
    return out


def window(P):
    w = np.zeros(P.npul)
    c = P.npul // 2
    s = slice(c - P.win_width // 2, c - P.win_width // 2 + P.win_width)
    k = np.arange(P.win_width)
    co = np.cos(2 * np.pi * k / (P.win_width - 1)) if P.win_width > 1 else np.ones(1)
    if P.win == 'none': w[:] = 1
    elif P.win == 'boxcar': w[s] = 1
    elif P.win == 'hamming': w[s] = P.hamming[0] - P.hamming[1] * co
    elif P.win == 'hanning': w[s] = P.hanning[0] - P.hanning[1] * co
    return w


def focus_beams(b, wf, speed, P):
    """beams for the surfaces in b (one row per seen surface); wf: calibrated burst"""
    N = P.npul
    lam = P.c / P.freq
    w = wf * window(P)[:, None]
    p = np.arange(N)
    if P.azimuth == 'exact':
        ph = np.exp(-4j * np.pi / lam * speed / P.prf * np.cos(b.ba)[:, None] * p[None, :])
        return ph @ w / np.sqrt(N)
    # approximate: steer once at the nadir beam, Fourier fan around it
    h = N // 2
    if b.trend == 1: nad = 0 if b.n < h else b.n - h
    elif b.trend == -1: nad = b.n - 1 if b.n <= h else h
    else: nad = h
    k0 = (N - b.n) if b.trend == 1 else 0
    bins = k0 + np.arange(b.n) - h           # Doppler bin relative to the nadir beam
    ph = np.exp(-4j * np.pi / lam * speed / P.prf * np.cos(b.ba[nad]) * p)
    dft = np.exp(-2j * np.pi * np.outer(bins, p) / N) / np.sqrt(N)
    return dft @ (ph[:, None] * w)


# ---------------------------------------------------------------- stacks
def stack_records(S, BS, W, P, amb):
    """entries (burst order) looking at each surface: list per surface of (beams_of_segment entry, column)"""
    ent = [[] for _ in S]
    for b in BS:
        for k in range(b.n):
            ent[b.lo + k].append((b, k))
    return ent


def cut_stack(look, n_looks):
    """indices kept, margin of the decision"""
    m = len(look)
    if m <= n_looks:
        return np.arange(m), np.inf
    order = np.argsort(np.abs(look), kind='stable')
    a = np.sort(np.abs(look))
    st = order[:n_looks].min()
    return np.arange(st, st + n_looks), a[n_looks] - a[n_looks - 1]


def gather(s, ent, W, P, amb, beam_cache):
    look = np.array([np.pi / 2 + W.dop[b.i] - b.ba[k] for b, k in ent])
    R = NS(surface=s)
    keep, R.amb_cut = cut_stack(look, P.n_looks)
    R.amb_closest = R.amb_round = R.amb_ang = np.inf
    e = [ent[j] for j in keep]
    R.m = len(e)
    R.all_n = len(ent)
    R.ent = e
    R.bi = np.array([b.i for b, k in e], int)
    R.beam_ang = np.array([b.ba[k] for b, k in e])
    R.dop = W.dop[R.bi] if R.m else np.zeros(0)
    R.look = look[keep]
    R.pointing = R.look - (W.pitch[R.bi] if R.m else 0)
    R.look_index = np.array([k - P.npul // 2 + ((P.npul - b.n) if b.trend == 1 else 0) for b, k in e], int)
    R.drop = R.m < P.n_looks // 2
    if R.drop:
        return R
    R.beams = np.array([beam_cache(b)[k] for b, k in e])
    d = np.abs(R.beam_ang - np.pi / 2)
    R.closest = int(np.argmin(d))
    if R.m > 1:
        ds = np.sort(d)
        R.amb_closest = ds[1] - ds[0]
    return R


# ---------------------------------------------------------------- geometry .. multilook
def geometry(s, R, W, P):
    t0 = 1. / (P.uso * P.mult)
    lam = P.c / P.freq
    R.range = np.linalg.norm(W.sat[R.bi] - s.xyz, axis=-1)
    R.dop_cor = -2 / lam * W.speed[R.bi] * np.cos(R.beam_ang) * P.pulse_length / P.bw / t0 * bool(P.flag_doppler)
    R.sr_cor = (s.wd - 2 * R.range / P.c) / t0 * bool(P.flag_slant)
    R.wd_cor = (W.wd[R.bi] - s.wd) / t0
    R.shift = R.dop_cor + R.sr_cor + R.wd_cor
    n = np.arange(P.ns)
    R.aligned = R.beams * np.exp(2j * np.pi * R.shift[:, None] * n / P.ns)


def compress(R, P):
    L = P.ns * P.zp
    n = np.arange(P.ns)
    k = np.arange(L) - L // 2
    R.iq = R.aligned @ np.exp(-2j * np.pi * np.outer(n, k) / L) / np.sqrt(L)
    R.pow = R.iq.real ** 2 + R.iq.imag ** 2


def mask(R, P):
    L = P.ns * P.zp
    R.mask = np.ones((R.m, L), bool)
    if P.flag_masking:
        fr = np.abs(R.shift - np.floor(R.shift) - .5)
        if R.m:
            R.amb_round = fr.min()
        sh = np.round(R.shift).astype(int)
        k = np.arange(L)
        for j in range(R.m):
            if sh[j] > 0: R.mask[j] = k >= sh[j] * P.zp
            else: R.mask[j] = k < (P.ns + sh[j]) * P.zp
            if P.mask_min is not None and P.mask_max is not None:
                lo, hi = np.radians(P.mask_min), np.radians(P.mask_max)
                R.amb_ang = min(R.amb_ang, abs(R.look[j] - lo), abs(R.look[j] - hi))
                if not (lo < R.look[j] < hi):
                    R.mask[j] = False
        R.vec = np.zeros(R.m)
        for j in range(R.m):
            one = np.flatnonzero(R.mask[j])
            R.vec[j] = 0 if len(one) == 0 else min(one[-1] + 1, L - 1)
    else:
        R.vec = np.full(R.m, L - 1.)
    R.masked = np.where(R.mask, R.pow, 0.)


def antenna(ang, P):
    a, w = P.ant_angles, P.ant_weights
    x = (np.asarray(ang) - a[0]) / P.ant_spacing
    i = np.clip(np.floor(x).astype(int), 0, len(w) - 2)
    v = w[i] + (x - i) * (w[i + 1] - w[i])
    v = np.where(ang <= a[0], w[0], v)
    return np.where(ang >= a[-1], w[-1], v)


def multilook(R, P):
    use = np.flatnonzero(R.vec != 0)
    R.use = use
    x = R.masked[use]
    if P.flag_antenna:
        x = x * antenna(R.pointing[use], P)[:, None]
    if P.flag_avoid_zeros:
        cnt = R.mask[use].sum(0)
        x = np.where(R.mask[use], x, 0.)
    else:
        cnt = np.full(P.ns * P.zp, len(use))
    R.count = cnt
    with np.errstate(all='ignore'):
        R.wf = np.where(cnt > 0, x.sum(0) / np.where(cnt > 0, cnt, 1), 0.)
    if len(use):
        R.start, R.stop = use[0], use[-1]
        R.n_ss = R.stop - R.start + 1
    else:
        R.start = R.stop = None
        R.n_ss = 0


def sigma0(s, R, W, P):
    lam = P.c / P.freq
    v, r = W.speed[R.bi], R.range
    az = (1 + r / P.earth_radius) * lam * r * P.prf / (2 * v * P.npul)
    rg = 2 * np.sqrt(P.c * r * P.ptr_width * P.earth_radius / (P.earth_radius + r))
    area = az * rg * .886
    db = lambda x: 10 * np.log10(x)
    off = db(64) + 3 * db(np.pi) - db(P.ptx) - 2 * P.gain - 2 * db(lam) + P.ratio_trc + db(P.npul)
    R.s0_beam = -(off + 4 * db(r) - db(area) - W.agc[R.bi[R.closest]])
    R.s0 = R.s0_beam.mean()


# ---------------------------------------------------------------- whole chain
def chain(B, P, want_signal=True):
    """-> list of records (written surfaces, in order), info"""
    W = bursts(B, P)
    amb = NS(res=np.inf, focus=np.inf, vis=np.inf)
    idx = usable(B, P)
    segs, gapm = segments(idx, W.time, P)
    amb.gap = gapm
    fs = NS(found=False)
    recs, allS = [], []
    seginfo = []
    dropped = 0
    for si, seg in enumerate(segs):
        S = surfaces(seg, W, P, fs, amb)
        BS = beams_of_segment(seg, S, W, P, amb)
        cache = {}

        def beam_cache(b):
            if b.i not in cache:
                cache[b.i] = focus_beams(b, W.wf[b.i], W.speed[b.i], P)
            return cache[b.i]
        ent = stack_records(S, BS, W, P, amb)
        nrec0 = len(recs)
        for s, e in zip(S, ent):
            R = gather(s, e, W, P, amb, beam_cache)
            R.seg = si
            if R.drop:
                dropped += 1
                continue
            geometry(s, R, W, P)
            compress(R, P)
            mask(R, P)
            multilook(R, P)
            sigma0(s, R, W, P)
            recs.append(R)
        seginfo.append(NS(n_surf=len(S), n_burst=len(seg), n_rec=len(recs) - nrec0, S=S, BS=BS,
                          first=seg[0], last=seg[-1]))
    return recs, NS(W=W, amb=amb, segs=segs, seginfo=seginfo, dropped=dropped, used=idx)
