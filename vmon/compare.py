"""Comparison of what the real chain did (surfaces handed to the writers, products on disk) with the reference."""
import json, os, re
import numpy as np
import netCDF4 as nc
from . import ref

PI2 = 2 * np.pi
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'packing.json')) as _fp:
    PACKING = json.load(_fp)    # type, units, scale, offset, fill value of every variable: the product definition


class Log:
    """violations and counters of one case (picklable result)"""
    def __init__(self, desc):
        self.viol, self.counts, self.desc = [], {}, desc

    def n(self, k, v=1):
        self.counts[k] = self.counts.get(k, 0) + int(v)

    def bad(self, what):
        if len(self.viol) < 6:
            self.viol.append(what)

    def close(self, name, got, want, tol, where=''):
        """absolute comparison; got/want arrays of the same shape, finite"""
        got, want = np.asarray(got, float) if not np.iscomplexobj(got) else np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.bad('%s%s: shape %s, expected %s' % (name, where, got.shape, want.shape))
            return False
        if got.size == 0:
            return True
        d = np.abs(got - want)
        ok = d <= tol
        if not np.all(ok):
            k = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
            self.bad('%s%s: got %r, expected %r (element %d of %d, tolerance %.3g)' % (
                name, where, got.ravel()[k].item(), want.ravel()[k].item(), k, got.size, np.max(tol)))
            return False
        self.n('values compared', int(got.size))
        return True


def angdiff(a, b):
    return (np.asarray(a) - np.asarray(b) + np.pi) % PI2 - np.pi


def v3(x):
    return np.ravel(np.asarray(x, float))


def aligned(L, recs, surfs, what='records'):
    if len(recs) != len(surfs):
        L.bad('%d %s produced, the reference has %d' % (len(surfs), what, len(recs)))
        return False
    L.n('records', len(recs))
    return True


# ------------------------------------------------------------------ surfaces (C05)
ALT = 2e-2      # altitude of a position in space (closed formula of the geodetic conversion: millimetres)


def surface(L, R, x, P, w):
    s = R.surface
    L.close('surface time', x.time_surf, s.time, 1e-6, w)
    L.close('surface position', v3(x.ecef_surf), s.xyz, 1e-4, w)
    L.close('surface latitude', x.lat_surf, s.lat, 1e-10, w)
    L.close('surface longitude', angdiff(x.lon_surf, s.lon) * np.cos(s.lat), 0., 1e-10, w)
    L.close('surface altitude', x.alt_surf, s.alt, 2e-3, w)
    L.close('satellite position', v3([x.x_sat, x.y_sat, x.z_sat]), s.sat, 1e-4, w)
    L.close('satellite altitude', x.alt_sat, s.alt_sat, ALT, w)
    L.close('satellite latitude', x.lat_sat, s.lat_sat, 1e-8, w)
    L.close('satellite longitude', angdiff(x.lon_sat, s.lon_sat) * np.cos(s.lat_sat), 0., 1e-8, w)
    L.close('satellite velocity', v3([x.x_vel_sat, x.y_vel_sat, x.z_vel_sat]), s.vel, 1e-6, w)
    L.close('altitude rate', x.alt_rate_sat, s.alt_rate, 1e-6, w)
    L.close('attitude', [x.roll_sat, x.pitch_sat, x.yaw_sat], [s.roll, s.pitch, s.yaw], 1e-9, w)
    L.close('tracker range', x.win_delay_surf * P.c / 2, s.wd * P.c / 2, ALT, w)
    L.close('tracker range vs altitudes', x.win_delay_surf * P.c / 2, x.alt_sat - x.alt_surf, 1e-5, w)
    L.n('surfaces focused', int(s.focused))


# ------------------------------------------------------------------ beams and stacks (C07, C08)
ANG = 1e-7


def stack(L, R, x, P, W, w, beams=True, meta=True):
    if R.amb_cut < 4 * ANG:
        L.n('skipped: cut hangs on rounding')
        return False
    if not L.close('stack size', x.data_stack_size, R.m, 0, w):
        return False
    m = R.m
    if meta:
        for nm, got, want, tol in (('beam angle', x.beam_angles_surf, R.beam_ang, ANG),
                                   ('doppler angle', x.doppler_angles_surf, R.dop, ANG),
                                   ('look angle', x.look_angles_surf, R.look, ANG),
                                   ('pointing angle', x.pointing_angles_surf, R.pointing, ANG),
                                   ('look index', x.look_index_surf, R.look_index, 0),
                                   ('sampling interval', x.t0_surf, np.full(m, 1 / (P.uso * P.mult)), 1e-14)):
            g = np.asarray(got)
            L.close(nm, g[:m], want, tol, w)
            if nm != 'look index' and len(g) > m:
                L.close(nm + ' of unused places', g[m:], np.zeros(len(g) - m), 0, w)
        t = np.array([b.time_sar_ku for b in x.stack_bursts[:m]])
        L.close('bursts of the stack', t, W.time[R.bi], 0, w)
        if any(hasattr(b, 'time_sar_ku') for b in x.stack_bursts[m:]):
            L.bad('places of the stack beyond its %d bursts are occupied%s' % (m, w))
        if R.amb_closest > 4 * ANG:
            L.close('closest burst', x.closest_burst.time_sar_ku, W.time[R.bi[R.closest]], 0, w)
    if beams:
        sc = np.abs(R.beams).max() or 1.
        L.close('focused beams', np.asarray(x.beams_surf)[:m] / sc, R.beams / sc, 1e-6, w)
        L.n('beams', m)
    return True


# ------------------------------------------------------------------ geometry, compression (C09)
def geometry(L, R, x, P, W, w):
    """stage-local: uses the observed beams and tracker range"""
    m = R.m
    t0 = 1. / (P.uso * P.mult)
    wd = x.win_delay_surf
    L.close('slant range', np.asarray(x.range_sat_surf)[:m], R.range, 1e-4, w)
    L.close('doppler correction', np.asarray(x.doppler_corrections)[:m], R.dop_cor, 1e-6, w)
    sr = (wd - 2 * R.range / P.c) / t0 * bool(P.flag_slant)
    wdc = (W.wd[R.bi] - wd) / t0
    L.close('slant range correction', np.asarray(x.slant_range_corrections)[:m], sr, 1e-4, w)
    L.close('window delay correction', np.asarray(x.win_delay_corrections)[:m], wdc, 1e-4, w)
    shift = R.dop_cor + sr + wdc
    b = np.asarray(x.beams_surf)[:m]
    n = np.arange(P.ns)
    want = b * np.exp(2j * np.pi * shift[:, None] * n / P.ns)
    sc = np.abs(b).max() or 1.
    got = np.asarray(x.beams_geo_corr)[:m]
    L.close('aligned beams', got / sc, want / sc, 1e-4, w)
    e0 = (np.abs(b) ** 2).sum(-1); e1 = (np.abs(got) ** 2).sum(-1)
    L.close('energy of aligned beams', e1 / (e0.max() or 1), e0 / (e0.max() or 1), 1e-9, w)
    Lz = P.ns * P.zp
    k = np.arange(Lz) - Lz // 2
    iq = got @ np.exp(-2j * np.pi * np.outer(n, k) / Lz) / np.sqrt(Lz)
    gi = np.asarray(x.beams_range_compr_iq)[:m]
    s2 = np.abs(iq).max() or 1.
    L.close('range compressed beams', gi / s2, iq / s2, 1e-8, w)
    L.close('energy of compressed beams', (np.abs(gi) ** 2).sum(-1) / (e0.max() or 1), e0 / (e0.max() or 1), 1e-8, w)
    L.close('power of compressed beams', np.asarray(x.beams_range_compr)[:m] / s2 ** 2, np.abs(iq) ** 2 / s2 ** 2,
            1e-8, w)
    L.n('beams aligned', m)
    L.n('beams wrapping', int((np.abs(shift) > .5).sum()))


# ------------------------------------------------------------------ masking, multilooking (C10)
def fit_stats(look, power):
    """(max, std, skewness, kurtosis) of the Gaussian fitted to the normalised beam power, or None when the fit is
    not a stable function of its data"""
    import warnings
    from scipy.optimize import curve_fit, OptimizeWarning
    g = lambda x, a, b, c: a * np.exp(-(x - b) ** 2 / (c ** 2))

    def fit(x, y):
        with warnings.catch_warnings():
            warnings.simplefilter('error', OptimizeWarning)
            try:
                with np.errstate(all='ignore'):
                    return np.array(curve_fit(g, x, y)[0])
            except (RuntimeError, OptimizeWarning, TypeError, ValueError):
                return None
    if power.max() <= 0 or len(power) < 4:
        return None
    y = power / power.max()
    xi = np.arange(len(y), dtype=float)
    res = []
    rng = np.random.default_rng(0)
    for k in range(8):
        e = (0, 3e-8, 3e-8, 1e-6, 1e-6, 1e-5, 1e-5, 1e-4)[k]
        yy = y * (1 + e * rng.standard_normal(len(y)))
        ll = look * (1 + e * rng.standard_normal(len(y)))
        a, b = fit(ll, yy), fit(xi, yy)
        res.append(None if a is None or b is None else np.concatenate([a, b]))
    if any(r is None for r in res):
        return None
    r0 = res[0]
    if any(np.any(np.abs(r - r0) > 2e-3 * (np.abs(r0) + 1e-6)) for r in res[1:]) or any(
            np.any(np.abs(r - r0) > 1e-5 * (np.abs(r0) + 1e-6)) for r in res[1:3]):
        return None
    q = g(xi, *r0[3:])
    sd = q.std()
    if sd < 1e-6:
        return None
    z = (q - q.mean()) / sd
    return np.array([r0[0], abs(r0[2]) / 2, (z ** 3).mean(), (z ** 4).mean() - 3, r0[1]])


def multilook(L, R, x, P, w, fits=True):
    """stage-local: observed shifts, angles and powers"""
    m = R.m
    Lz = P.ns * P.zp
    shift = np.asarray(x.doppler_corrections)[:m] + np.asarray(x.slant_range_corrections)[:m] + \
        np.asarray(x.win_delay_corrections)[:m]
    look = np.asarray(x.look_angles_surf)[:m]
    po = np.asarray(x.beams_range_compr)[:m]
    from types import SimpleNamespace as NS
    Q = NS(m=m, shift=shift, look=look, pow=po, pointing=np.asarray(x.pointing_angles_surf)[:m], amb_round=np.inf,
           amb_ang=np.inf)
    ref.mask(Q, P)
    if Q.amb_round < 1e-7 or Q.amb_ang < 1e-9:
        L.n('skipped: mask hangs on rounding')
        return
    ref.multilook(Q, P)
    got_mask = np.asarray(x.stack_mask)
    L.close('stack mask', got_mask[:m].astype(float), Q.mask.astype(float), 0, w)
    L.close('stack mask vector', np.asarray(x.stack_mask_vector)[:m], Q.vec, 0, w)
    mx = po.max() or 1.
    bm = np.asarray(x.beams_masked)[:m]
    L.close('masked beams', bm / mx, Q.masked / mx, 1e-9, w)
    L.close('multilooked waveform', np.asarray(x.waveform_multilooked) / mx, Q.wf / mx, 1e-9, w)
    L.close('beams between start and stop', x.n_beams_start_stop, Q.n_ss, 0, w)
    for nm in ('stack_mask_vector', 'beam_angles', 'look_angles'):
        rest = np.asarray(getattr(x, nm + '_start_stop'), float)[Q.n_ss:]
        if (np.nan_to_num(rest) != 0).any():
            L.bad('%s_start_stop holds %.6g past its %d entries%s' % (nm, rest[np.argmax(np.nan_to_num(rest) != 0)], Q.n_ss, w))
    if Q.n_ss:
        a, b = Q.start, Q.stop
        for nm, tab in (('look', look), ('beam', np.asarray(x.beam_angles_surf)),
                        ('pointing', Q.pointing), ('doppler', np.asarray(x.doppler_angles_surf))):
            L.close('start %s angle' % nm, getattr(x, 'start_%s_angle' % nm), tab[a], 1e-12, w)
            L.close('stop %s angle' % nm, getattr(x, 'stop_%s_angle' % nm), tab[b], 1e-12, w)
        n = Q.n_ss
        L.close('mask vector from start to stop', np.asarray(x.stack_mask_vector_start_stop)[:n], Q.vec[a:b + 1], 0, w)
        L.close('beam angles from start to stop', np.asarray(x.beam_angles_start_stop)[:n],
                np.asarray(x.beam_angles_surf)[a:b + 1], 1e-12, w)
        L.close('look angles from start to stop', np.asarray(x.look_angles_start_stop)[:n], look[a:b + 1], 1e-12, w)
        if a == 0 and b == m - 1:
            L.close('start/stop burst', [x.start_burst_index, x.stop_burst_index],
                    [x.stack_bursts[0].source_seq_count, x.stack_bursts[m - 1].source_seq_count], 0, w)
    if fits:
        c = int(np.argmin(np.abs(np.pi / 2 - np.asarray(x.beam_angles_surf)[:m])))
        lo, hi = max(c - 124, 0), min(c + 124, m - 1)
        st = fit_stats(look[lo:hi + 1], Q.masked[lo:hi + 1, :(P.ns // 2) * P.zp].sum(-1)) \
            if Q.masked.size else None
        if st is not None and Q.masked[:, :(P.ns // 2) * P.zp].sum(-1).max() == \
                Q.masked[lo:hi + 1, :(P.ns // 2) * P.zp].sum(-1).max():
            got = np.array([x.stack_max, x.stack_std, x.stack_skewness, x.stack_kurtosis], float)
            L.close('fitted stack statistics (max, std, skewness, kurtosis)', got, st[:4],
                    2e-5 * np.array([1, st[1], 1, 1]) * (1 + np.abs(st[:4])), w)
            L.n('stack fits of more than 249 beams', int(m > 249))
            L.n('stack fits compared')
    L.n('beams with a single sample left', int((Q.vec == 1).sum()))
    L.n('samples masked', int((~Q.mask).sum()))
    L.n('samples without contribution', int((Q.count == 0).sum()))


def sigma0(L, R, x, P, w):
    if R.amb_closest < 4 * ANG:
        return
    L.close('sigma-0 factor per look', np.asarray(x.sigma0_scaling_factor_beam)[:R.m], R.s0_beam, 1e-6, w)
    L.close('sigma-0 scaling factor', x.sigma0_scaling_factor, R.s0, 1e-6, w)


# ------------------------------------------------------------------ products
class Product:
    def __init__(self, path):
        self.raw, self.att, self.dims = {}, {}, {}
        with nc.Dataset(path) as ds:
            ds.set_auto_maskandscale(False)
            for k, v in ds.variables.items():
                self.raw[k] = np.array(v[:])
                self.att[k] = {a: v.getncattr(a) for a in v.ncattrs()}
                self.dims[k] = v.dimensions
            self.glob = {a: ds.getncattr(a) for a in ds.ncattrs()}
            self.n = max((len(d) for k, d in ds.dimensions.items() if d.isunlimited()), default=0)

    def __contains__(self, k):
        return k in self.raw

    def pin(self, k):
        """(type, units, scale, offset, fill value) of the product definition"""
        kind = 'L1BS' if k.endswith(S2) else 'L1B extended' if 'i2q2_scale_factor' + SFX in self.raw else 'L1B sentinel-3'
        return PACKING[kind].get(k)

    def step(self, k):
        """packing step: the declared one, or that of the product definition if that is finer"""
        if self.raw[k].dtype.kind not in 'iu':
            return 0.
        d, p = abs(float(self.att[k].get('scale_factor', 1))), self.pin(k)
        return min(d, abs(p[2])) if p and p[0][0] in 'iu' else d

    def units(self, k):
        """what is wrong with the declared units"""
        p = self.pin(k)
        if p and p[1]:
            u = self.att[k].get('units')
            f = lambda x: ' '.join(re.sub(r'\bdeg(ree)?s?\b', 'degrees', re.sub(r'\bs(ec(ond)?s?)?\b', 'seconds', str(x).lower())).split())
            if f(u) != f(p[1]):
                return '%s is declared in %s, the product definition says %s' % (k, u, p[1])

    def fill(self, k):
        dt = self.raw[k].dtype
        return self.att[k].get('_FillValue', nc.default_fillvals.get(dt.str[1:]))

    def val(self, k):
        a = self.att[k]
        return self.raw[k].astype(float) * float(a.get('scale_factor', 1)) + float(a.get('add_offset', 0))

    def holds(self, k, want):
        """mask of the values representable in the variable's type according to the product definition (inside the
        range, not the fill value)"""
        a = self.att[k]
        t, _, sc, off, f = self.pin(k) or (self.raw[k].dtype, None, float(a.get('scale_factor', 1)), float(a.get('add_offset', 0)),
                                           a.get('_FillValue'))
        if np.dtype(t).kind not in 'iu':
            return np.isfinite(want)
        q = (np.asarray(want, float) - off) / sc
        ii = np.iinfo(t)
        ok = (q > ii.min + 1) & (q < ii.max - 1) & np.isfinite(q)
        if f is not None:
            ok &= np.abs(q - float(f)) > 1
        return ok


SFX = '_l1b_echo_sar_ku'
STATUS = ('isp_coarse_time', 'isp_fine_time', 'sral_fine_time', 'flag_time_status', 'nav_bul_status',
          'nav_bul_source', 'oper_instr', 'SAR_mode', 'cl_gain', 'acq_stat', 'dem_eeprom', 'loss_track', 'h0_nav_dem',
          'h0_applied', 'cor2_nav_dem', 'cor2_applied', 'dh0', 'agccode_ku', 'surf_type', 'uso_cor',
          'int_path_cor_ku', 'agc_ku', 'sig0_cal_ku')
CLOSEST_ALSO = dict(seq_count='seq_count')


def utc(R, B):
    """(day, second) of the surface time between its two bursts"""
    s = R.surface
    p, q = s.prev, s.cur
    dt = s.time - B['time'][p]
    sec = B['UTC_sec'][p] + dt
    day = B['UTC_day'][p]
    if B['UTC_day'][q] != day:
        # length of the day: the instant of q in seconds of p's day minus its second of the day
        length = np.round(B['UTC_sec'][p] + (B['time'][q] - B['time'][p]) - B['UTC_sec'][q])
        if sec >= length:
            return day + 1, sec - length, length
        return day, sec, length
    return day, sec, None


class Cols:
    """expected columns of a product; each entry: (values (n or n,k), extra tolerance, valid mask)"""
    def __init__(self, n):
        self.n, self.c = n, {}

    def add(self, k, values, tol=0., ok=None):
        self.c[k] = (values, tol, ok)


def check_cols(L, pr, cols, sfx, frac=.5001):
    for k, (vals, tol, ok) in cols.c.items():
        name = k + sfx
        if name not in pr:
            L.bad('variable %s missing' % name)
            continue
        got = pr.val(name)
        if got.shape[0] != cols.n:
            L.bad('%s has %d records, expected %d' % (name, got.shape[0], cols.n))
            continue
        st = pr.step(name)
        if pr.units(name):
            L.bad(pr.units(name))
        for i in range(cols.n):
            if ok is not None and not ok[i]:
                continue
            w = np.asarray(vals[i], float)
            g = got[i]
            if g.ndim == 1:
                rest, raw = g[len(w):], pr.raw[name][i][len(w):]
                # nothing there: zero (whatever the type makes of it where it cannot hold it) or fill
                stale = (np.abs(rest) > st + 1e-12) & (raw != pr.fill(name)) if pr.holds(name, np.zeros(1))[0] else \
                    (raw != raw[:1]) & (raw != pr.fill(name))
                L.n('entries past the end', len(rest))
                if stale.any():
                    L.bad('%s of record %d: entry %d, past its %d entries, holds %.6g'
                          % (name, i, len(w) + int(np.argmax(stale)), len(w), rest[np.argmax(stale)]))
                    break
                g = g[:len(w)]
            hold = pr.holds(name, w)
            t = np.broadcast_to(np.asarray(tol[i] if np.ndim(tol) else tol), np.shape(w))
            mag = np.abs(np.asarray(w, float)) * 1e-12
            g1, w1, t1 = np.atleast_1d(g)[np.atleast_1d(hold)], np.atleast_1d(w)[np.atleast_1d(hold)], \
                np.atleast_1d(frac * st + t + mag)[np.atleast_1d(hold)]
            L.n('not representable', int(np.size(hold) - np.sum(hold)))
            if not L.close(name, g1, w1, t1, ' of record %d' % i):
                break


def lon360(pr, sfx, L, want, ok=None, tol=0.):
    name = 'lon' + sfx
    got = pr.val(name)
    d = (got - np.asarray(want) + 180) % 360 - 180
    L.close(name + ' (mod 360)', d, np.zeros(len(d)), pr.step(name) * .5001 + tol)


def l1b_columns_ref(s, pr, L):
    """expected L1B content straight from the reference (end to end)"""
    P, recs, B, W = s.P, s.recs, s.B, s.info.W
    n = len(recs)
    C = Cols(n)
    A = [R.surface for R in recs]
    deg = np.degrees
    C.add('time', [a.time for a in A], 1e-6)
    C.add('lat', [deg(a.lat) for a in A], 1e-8)
    C.add('alt', [a.alt_sat for a in A], ALT)
    C.add('orb_alt_rate', [a.alt_rate for a in A], 1e-6)
    for j, c in enumerate('xyz'):
        C.add(c + '_pos', [a.sat[j] for a in A], 1e-4)
        C.add(c + '_vel', [a.vel[j] for a in A], 1e-6)
    C.add('range_ku', [a.wd * P.c / 2 for a in A], ALT)
    okc = [R.amb_closest > 4 * ANG for R in recs]
    C.add('scale_factor_ku', [R.s0 for R in recs], 1e-6, okc)
    # the surface's own tracker range cancels out of the alignment unless the slant range correction is off
    loose = not P.flag_slant
    tsh = 8e-3 if loose else 1e-4
    okm = [R.amb_cut > 4 * ANG and R.amb_round > (tsh if P.flag_masking else -1) and R.amb_ang > 4 * ANG
           for R in recs]
    okk = [R.amb_cut > 4 * ANG for R in recs]
    wtol = 6e-2 if loose else 1e-4 if P.flag_antenna else 1e-5
    wmax = [max(R.pow.max(), 1e-300) for R in recs]
    ext = P.fmt != 'sentinel-3'
    if ext:
        C.add('nb_stack', [R.n_ss for R in recs], 0, okm)
        C.add('beam_ang', [R.beam_ang for R in recs], ANG, okk)
        C.add('look_ang', [R.look for R in recs], ANG, okk)
        C.add('stack_scale_factor_ku', [R.s0_beam for R in recs], 1e-6, [a and b for a, b in zip(okc, okk)])
        C.add('stack_mask_vector', [R.vec[R.start:R.stop + 1] if R.n_ss else np.zeros(0) for R in recs], 0, okm)
        for nm, t in (('look_angle', 'look'), ('beam_ang', 'beam_ang')):
            for ss in ('start', 'stop'):
                C.add('%s_%s_stack' % (ss, nm),
                      [getattr(R, t)[getattr(R, ss)] if R.n_ss else 0. for R in recs], ANG,
                      [o and R.n_ss > 0 for o, R in zip(okm, recs)])
        for nm in ('roll', 'pitch', 'yaw'):
            C.add(nm + '_sat_pointing', [deg(getattr(a, nm)) for a in A], 1e-7)
        f = pr.raw.get('i2q2_scale_factor' + SFX)
        wf = pr.val('i2q2_meas_ku' + SFX)
        if f is None or len(f) != n or len(wf) != n:
            L.bad('waveform scaling incomplete: %s factors, %d waveforms, %d records' % (
                None if f is None else len(f), len(wf), n))
        else:
            for i, R in enumerate(recs):
                if okm[i]:
                    g = wf[i] * f[i]
                    # packing of the extended waveform: 32 bit of the largest sample
                    L.close('waveform', g / wmax[i], R.wf / wmax[i], wtol + 1e-9, ' of record %d' % i)
                    L.n('waveforms compared')
    else:
        C.add('nb_stack', [R.m for R in recs], 0, okk)
        C.add('beam_ang', [-R.look for R in recs], ANG, okk)
        C.add('i2q2_meas_ku', [R.wf for R in recs], [wtol * x for x in wmax], okm)
        L.n('waveforms compared', sum(okm))
    return C


def fits_e2e(L, s, pr):
    """fitted statistics of the product against the reference beams"""
    P = s.P
    names = ['max_stack', 'stdev_stack', 'skew_stack', 'kurt_stack']
    cols = [pr.val(k + SFX) for k in names]
    tsh = 8e-3 if not P.flag_slant else 1e-4
    if not P.flag_slant:
        return
    for i, R in enumerate(s.recs):
        if R.amb_cut < 4 * ANG or (P.flag_masking and (R.amb_round < tsh or R.amb_ang < 4 * ANG)) or i % 4:
            continue
        lo, hi = max(R.closest - 124, 0), min(R.closest + 124, R.m - 1)
        pw = R.masked[:, :(P.ns // 2) * P.zp].sum(-1)
        if (lo > 0 or hi < R.m - 1) and (R.amb_closest < 4 * ANG or pw.max() != pw[lo:hi + 1].max()):
            continue
        st = fit_stats(R.look[lo:hi + 1], pw[lo:hi + 1])
        if st is None:
            continue
        for k, nm in enumerate(names):
            if pr.holds(nm + SFX, st[k]):
                L.close(nm + SFX, cols[k][i], st[k], pr.step(nm + SFX) + 2e-3 * (1 + abs(st[k])), ' of record %d' % i)
        L.n('stack fits compared')


def l1b_columns_obs(s, surfs, pr, L):
    """expected L1B content from the computed records (observed at the writer) and the closest burst's L1A record"""
    P, recs, B, W = s.P, s.recs, s.B, s.info.W
    n = len(surfs)
    C = Cols(n)
    deg = np.degrees
    m = [int(x.data_stack_size) for x in surfs]
    C.add('time', [x.time_surf for x in surfs])
    C.add('GPS_time', [x.time_surf + 20 * 365 * 86400 - 19 for x in surfs], 1e-6)
    C.add('lat', [deg(x.lat_surf) for x in surfs])
    C.add('alt', [x.alt_sat for x in surfs])
    C.add('orb_alt_rate', [x.alt_rate_sat for x in surfs])
    for c in 'xyz':
        C.add(c + '_pos', [getattr(x, c + '_sat') for x in surfs])
        C.add(c + '_vel', [getattr(x, c + '_vel_sat') for x in surfs])
    C.add('range_ku', [x.win_delay_surf * P.c / 2 for x in surfs], 1e-6)
    C.add('scale_factor_ku', [x.sigma0_scaling_factor for x in surfs])
    C.add('max_stack', [x.stack_max for x in surfs])
    C.add('stdev_stack', [x.stack_std for x in surfs])
    C.add('skew_stack', [x.stack_skewness for x in surfs])
    C.add('kurt_stack', [x.stack_kurtosis for x in surfs])
    okc = [R.amb_closest > 4 * ANG for R in recs]
    ci = [R.bi[R.closest] for R in recs]
    for k in STATUS:
        C.add(k, [B[k][i] for i in ci], 1e-9, okc)
    C.add('seq_count', [B['seq_count'][i] for i in ci], 0, okc)
    C.add('agc_cor_ku', [B['agc_ku'][i] - B['agccode_ku'][i] for i in ci], 1e-9, okc)
    if P.fmt != 'sentinel-3':
        C.add('nb_stack', [x.n_beams_start_stop for x in surfs])
        C.add('beam_ang', [np.asarray(x.beam_angles_surf)[:k] for x, k in zip(surfs, m)])
        C.add('look_ang', [np.asarray(x.look_angles_surf)[:k] for x, k in zip(surfs, m)])
        C.add('stack_mask_vector', [np.asarray(x.stack_mask_vector_start_stop)[:int(x.n_beams_start_stop)]
                                    for x in surfs])
        C.add('stack_scale_factor_ku', [np.asarray(x.sigma0_scaling_factor_beam)[:k] for x, k in zip(surfs, m)])
        for nm in ('roll', 'pitch', 'yaw'):
            C.add(nm + '_sat_pointing', [deg(getattr(x, nm + '_sat')) for x in surfs])
        has = [x.n_beams_start_stop > 0 for x in surfs]
        C.add('start_look_angle_stack', [x.start_look_angle for x in surfs], 0, has)
        C.add('stop_look_angle_stack', [x.stop_look_angle for x in surfs], 0, has)
        C.add('start_beam_ang_stack', [x.start_beam_angle for x in surfs], 0, has)
        C.add('stop_beam_ang_stack', [x.stop_beam_angle for x in surfs], 0, has)
        f = pr.raw['i2q2_scale_factor' + SFX]
        wf = pr.val('i2q2_meas_ku' + SFX)
        if len(f) == n == len(wf):
            for i, x in enumerate(surfs):
                y = np.asarray(x.waveform_multilooked)
                L.close('waveform (i2q2 x scale factor)', wf[i] * f[i], y, y.max() * 6e-10 + 1e-300, ' of record %d' % i)
        else:
            L.bad('waveforms: %d, factors: %d, records: %d' % (len(wf), len(f), n))
    else:
        C.add('nb_stack', m)
        C.add('beam_ang', [-np.asarray(x.look_angles_surf)[:k] for x, k in zip(surfs, m)])
        C.add('i2q2_meas_ku', [np.asarray(x.waveform_multilooked) for x in surfs])
    return C


S2 = '_l1bs_echo_sar_ku'


def l1bs(L, s, surfs, pr):
    P, recs, B = s.P, s.recs, s.B
    n = len(surfs)
    C = Cols(n)
    deg = np.degrees
    m = [int(x.data_stack_size) for x in surfs]
    C.add('time', [x.time_surf for x in surfs])
    C.add('lat', [deg(x.lat_surf) for x in surfs])
    C.add('alt', [x.alt_sat for x in surfs])
    C.add('orb_alt_rate', [x.alt_rate_sat for x in surfs])
    for c in 'xyz':
        C.add(c + '_pos', [getattr(x, c + '_sat') for x in surfs])
        C.add(c + '_vel', [getattr(x, c + '_vel_sat') for x in surfs])
        C.add('meas_%s_pos' % c, [getattr(x, c + '_surf') for x in surfs])
    for nm in ('roll', 'pitch', 'yaw'):
        C.add(nm + '_sat_pointing', [deg(getattr(x, nm + '_sat')) for x in surfs])
    C.add('range_ku', [x.win_delay_surf * P.c / 2 for x in surfs], 1e-6)
    C.add('scale_factor_ku', [x.sigma0_scaling_factor for x in surfs])
    C.add('max_stack', [x.stack_max for x in surfs])
    C.add('stdev_stack', [x.stack_std for x in surfs])
    C.add('skew_stack', [x.stack_skewness for x in surfs])
    C.add('kurt_stack', [x.stack_kurtosis for x in surfs])
    C.add('nb_stack', m)
    has = [x.n_beams_start_stop > 0 for x in surfs]
    C.add('start_look_angle_stack', [x.start_look_angle for x in surfs], 0, has)
    C.add('stop_look_angle_stack', [x.stop_look_angle for x in surfs], 0, has)
    C.add('start_beam_ang_stack', [x.start_beam_angle for x in surfs], 0, has)
    C.add('stop_beam_ang_stack', [x.stop_beam_angle for x in surfs], 0, has)
    C.add('beam_ang', [np.asarray(x.beam_angles_start_stop)[:int(x.n_beams_start_stop)] for x in surfs])
    okc = [R.amb_closest > 4 * ANG for R in recs]
    ci = [R.bi[R.closest] for R in recs]
    for k in ('int_path_cor_ku', 'uso_cor', 'cog_cor', 'agccode_ku', 'agc_ku', 'sig0_cal_ku',
              'roll_sral_mispointing', 'pitch_sral_mispointing', 'yaw_sral_mispointing'):
        C.add(k, [B[k][i] for i in ci], 1e-9, okc)
    oks = [x.n_beams_start_stop == k for x, k in zip(surfs, m)]
    C.add('burst_start_ind', [B['seq_count'][R.bi[0]] for R in recs], 0, oks)
    C.add('burst_stop_ind', [B['seq_count'][R.bi[-1]] for R in recs], 0, oks)
    C.add('i2q2_meas_ku', [np.asarray(x.waveform_multilooked) * 10. ** (-B['agc_ku'][i] / 10)
                           for x, i in zip(surfs, ci)], 0, okc)
    check_cols(L, pr, C, S2)
    lon360(pr, S2, L, [deg(x.lon_surf) for x in surfs])
    rc = pr.raw['records_count' + S2]
    if np.any(np.diff(rc.astype(float)) <= 0):
        L.bad('record counters of the L1BS product do not increase: %s' % rc[:20])
    f = pr.val('iq_scale_factor' + S2)
    ie, qe = pr.raw['i_echoes_ku' + S2].astype(float), pr.raw['q_echoes_ku' + S2].astype(float)
    if not (len(f) == len(ie) == len(qe) == n):
        L.bad('stacks in L1BS: %d/%d/%d for %d records' % (len(f), len(ie), len(qe), n))
        return
    for i, x in enumerate(surfs):
        iq = np.asarray(x.beams_range_compr_iq)[:m[i]]
        mx = max(np.abs(iq.real).max(), np.abs(iq.imag).max())
        if mx == 0:
            continue
        if not (mx / 128 <= f[i] <= mx / 32):
            L.bad('scale factor of the stack of record %d is %g for a largest component %g' % (i, f[i], mx))
        L.close('I of the stack of record %d' % i, ie[i, :m[i]] * f[i], iq.real, 1.01 * f[i])
        L.close('Q of the stack of record %d' % i, qe[i, :m[i]] * f[i], iq.imag, 1.01 * f[i])
        L.n('stack beams compared', m[i])


def times(L, s, pr, sfx):
    """UTC day/second and time of every record"""
    B = s.B
    day, sec, tim = pr.raw['UTC_day' + sfx], pr.val('UTC_sec' + sfx), pr.val('time' + sfx)
    if not (len(day) == len(sec) == len(tim) == len(s.recs)):
        L.bad('%d/%d/%d times for %d records' % (len(day), len(sec), len(tim), len(s.recs)))
        return
    for i, R in enumerate(s.recs):
        d, c, length = utc(R, B)
        L.close('time of record %d' % i, tim[i], R.surface.time, 1e-6)
        full = length or 86400
        # same instant (a rounding difference may flip the representation right at midnight)
        if abs(c) < 1e-5 or (length and abs(c - length) < 1e-5):
            continue
        L.close('UTC day of record %d' % i, day[i], d, 0)
        L.close('UTC second of record %d' % i, sec[i], c, 1e-5)
        L.n('records on the second day', int(d != B['UTC_day'][s.info.used[0]]))
        L.n('records inside a leap second', int(c >= 86400))
