"""Records delivered by the L1A reader against the file decoded as a whole, for any access history."""
import os, shutil
import numpy as np
from .. import chain, scen, synth, ref, harness, compare

RULE = ('one case = one L1A file (random length, contents, region limits) read by the real L1ADataset with one access '
        'pattern (sequential, iterator, random, backwards, hopping over block boundaries, two readers interleaved); '
        'every delivered value of every record is compared with the stored one. Non-trivial = values compared')

D2R = np.pi / 180
SAME = dict(isp_coarse_time='isp_coarse_time', isp_fine_time='isp_fine_time', sral_fine_time='sral_fine_time',
            days='UTC_day', seconds='UTC_sec', burst_sar_ku='burst_count_prod', alt_sar_sat='alt',
            alt_rate_sat_sar='orb_alt_rate', roll_sral_mispointing='roll_sral_mispointing',
            pitch_sral_mispointing='pitch_sral_mispointing', yaw_sral_mispointing='yaw_sral_mispointing',
            cog_cor='cog_cor', h0_sar='h0_applied', uso_cor='uso_cor', cor2_sar='cor2_applied',
            flag_time_status='flag_time_status', nav_bul_status='nav_bul_status', nav_bul_source='nav_bul_source',
            source_seq_count='seq_count', oper_instr='oper_instr', SAR_mode='SAR_mode', cl_gain='cl_gain',
            acq_stat='acq_stat', dem_eeprom='dem_eeprom', loss_track='loss_track', h0_nav_dem='h0_nav_dem',
            h0_applied='h0_applied', cor2_nav_dem='cor2_nav_dem', cor2_applied='cor2_applied', dh0='dh0',
            agccode_ku='agccode_ku', range_ku='range_ku', int_path_cor_ku='int_path_cor_ku', agc_ku='agc_ku',
            sig0_cal_ku='sig0_cal_ku', surf_type='surf_type', cal1_power='burst_power', cal1_phase='burst_phase')


def check(L, p, i, B, W, P, cal2):
    w = ' of record %d' % i
    g = lambda k: getattr(p, k)

    def cmp(name, want, tol):
        try:
            got = g(name)
        except (AttributeError, KeyError):
            L.n('not observable: %s' % name)
            return True
        return L.close(name, np.asarray(got, float).reshape(np.shape(want)) if np.size(got) == np.size(want) else got,
                       want, tol, w)
    ok = cmp('time_sar_ku', B['time'][i], 0)
    for a, b in SAME.items():
        v = B[b][i]
        ok = ok and cmp(a, v, np.abs(v) * 1e-12 + 1e-12)
    for a, b in (('lat_sar_sat', 'lat'), ('lon_sar_sat', 'lon'), ('roll_sar', 'roll_sral_mispointing'),
                 ('pitch_sar', 'pitch_sral_mispointing'), ('yaw_sar', 'yaw_sral_mispointing')):
        ok = ok and cmp(a, B[b][i] * D2R, 1e-13)
    ok = ok and cmp('cal2_array', B['gprw'][i, P.cal2_index], 1e-9)
    ok = ok and cmp('vel_sat_sar', W.vel[i], 1e-9) and cmp('vel_sat_sar_norm', W.speed[i], 1e-6)
    ok = ok and cmp('win_delay_sar_ku', W.wd[i], 1e-16 + 1e-12 * W.wd[i])
    for j, c in enumerate('xyz'):
        ok = ok and cmp(c + '_sar_sat', W.sat[i][j], 1e-6) and cmp(c + '_sar_surf', W.gnd[i][j], 1e-6)
    ok = ok and cmp('doppler_angle_sar_sat', W.dop[i], compare.ANG)
    if ok:
        wf = (B['i_meas'][i] + 1j * B['q_meas'][i]) * 10. ** (B['agc_ku'][i] / 20)
        sc = np.abs(wf).max() or 1.
        ok = L.close('echoes', np.asarray(p.waveform_cor_sar) / sc, wf / sc, 1e-12, w)
    L.n('records')
    return ok


def access(rng, n, kind):
    if kind == 'random': return rng.integers(0, n, min(3 * n, 60))
    if kind == 'backwards': return np.arange(n)[::-1]
    if kind == 'blocks':
        c = np.array([b + d for b in range(0, n + 1, 40) for d in (-2, -1, 0, 1, 39, 40, -40)])
        c = c[(c >= 0) & (c < n)]
        return rng.permutation(np.repeat(c, 2)) if len(c) else np.arange(n)
    if kind == 'same place in other blocks':
        return np.array([(k % 40 + 40 * int(rng.integers(0, n // 40 + 1))) % n for k in rng.integers(0, 40, 50)])
    return np.arange(n)


def reader(seed):
    rng = np.random.default_rng([seed, 12])
    ch = lambda *a: a[int(rng.integers(len(a)))]
    n = int(ch(1, 2, 39, 40, 41, 79, 80, 81, 120, int(rng.integers(2, 130)), int(rng.integers(2, 130))))
    P = synth.default_params(npul=int(ch(4, 8, 5)), ns=int(ch(8, 16, 6)), cal2_index=int(ch(0, 1, 2)),
                             mean_sat_alt=float(ch(814.5e3, 720e3)))
    D = synth.make_bursts(P, rng, n, lat0=float(rng.uniform(-75, 75)), lon0=float(ch(179.99, -179.99, 0.001, 77.)),
                          radial=float(ch(0, 20, -20)), asc=bool(rng.integers(2)))
    # the full range of the attitude, corrections and gains
    D['pitch_sat_pointing'] = rng.uniform(-3, 3, n)
    D['cog_cor'] = rng.uniform(-3, 3, n)
    D['agc_ku'] = rng.uniform(-20, 70, n)
    for k in ('roll', 'pitch', 'yaw'):
        D[k + '_sral_mispointing'] = rng.uniform(-3, 3, n)
    D['uso_cor'] = rng.uniform(-1, 1, n)
    bad = np.zeros(n, bool)
    if rng.random() < .5:
        bad[rng.integers(0, n, max(1, n // 9))] = True
        D['lat'], D['lon'] = np.where(bad, 0, D['lat']), np.where(bad, 0, D['lon'])
    elif rng.random() < .5 and n > 4:      # on the equator or the prime meridian: still valid
        k = int(rng.integers(n))
        D[ch('lat', 'lon')][k] = 0.
    d = harness.scratch('rd')
    path = os.path.join(d, ch('L1A_x.nc', 'x.nc', 'L1A.nc'))
    glob = {k: '%s %d' % (k, rng.integers(1e6)) for k in synth.GLOBALS}
    drop = [k for k in list(glob) if rng.random() < .15]
    for k in drop: del glob[k]
    B = synth.write_l1a(path, D, P, glob)
    W = ref.bursts(B, P)
    if rng.random() < .5 and n > 6:
        key = ch('lat', 'lon')
        v = np.sort(B[key][~bad])
        a, b = v[int(rng.integers(0, len(v) // 2))], v[int(rng.integers(len(v) // 2, len(v)))]
        if b - a < 180:
            w = ch('both', 'min', 'max')
            if w != 'max': setattr(P, 'min_' + key, float(a))
            if w != 'min': setattr(P, 'max_' + key, float(b))
    aux = synth.write_aux(P, d)
    kind = ('sequential', 'iterator', 'random', 'backwards', 'blocks', 'same place in other blocks', 'two')[seed % 7]
    L = compare.Log(dict(seed=seed, n=n, kind=kind, bad=int(bad.sum()), dropped=len(drop),
                         roi=[P.min_lat, P.max_lat, P.min_lon, P.max_lon]))
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    from dedop.data.input.l1a import L1ADataset
    with harness.quiet():
        cst = ConstantsFile(aux[1])
        chd = CharacterisationFile(cst, aux[2])
        cnf = ConfigurationFile(aux[0])
        mk = lambda: L1ADataset(path, cst=cst, chd=chd, cnf=cnf)
        ds = mk()
        use = ref.usable(B, P)
        inside = np.ones(n, bool)
        for k in ('lat', 'lon'):
            if getattr(P, 'min_' + k) is not None: inside &= B[k] >= getattr(P, 'min_' + k)
            if getattr(P, 'max_' + k) is not None: inside &= B[k] <= getattr(P, 'max_' + k)
        ends = [float(B['time'][i]) for i in np.flatnonzero(inside)[[0, -1]]]

        def coverage(when):
            got = [float(ds.first_time()), float(ds.last_time())]
            if got != ends:
                L.bad('first and last time %s: %s, the records of the region are from %s' % (when, got, ends))
        if rng.random() < .6: coverage('before reading')
        mixed = rng.random() < .5
        if kind in ('sequential', 'iterator'):
            it = iter(lambda: next(ds), 0) if kind == 'sequential' else iter(ds)
            got, total = [], 0
            while True:
                if mixed and rng.random() < .1:         # other reads in between
                    i = int(rng.integers(n))
                    if not check(L, ds[i], i, B, W, P, None): break
                    if kind == 'sequential' and len(use):
                        other = [x for x, _ in zip((y for y in ds if y is not None), range(int(rng.integers(1, 60))))]
                        if [float(x.time_sar_ku) for x in other] != [float(x) for x in B['time'][use[:len(other)]]]:
                            L.bad('a new iteration in between does not start with the first usable record')
                    L.n('reads in between')
                try:
                    x = next(it)
                except StopIteration:
                    break
                total += 1
                if x is not None:
                    got.append(x)
                if total > n + 5:
                    L.bad('more records delivered than the file has')
                    break
            if total != len(ds):
                L.bad('%d records delivered, length %d' % (total, len(ds)))
            t = [float(x.time_sar_ku) for x in got]
            if t != [float(x) for x in B['time'][use]]:
                L.bad('records delivered: %d, usable: %d (or other order)' % (len(t), len(use)))
            else:
                for x, i in zip(got, use):
                    if not check(L, x, int(i), B, W, P, None):
                        break
        else:
            d2 = mk() if kind == 'two' else None
            for k, i in enumerate(access(rng, n, kind)):
                p = ds[int(i)]
                if d2 is not None:
                    j = int(rng.integers(n))
                    if not check(L, d2[j], j, B, W, P, None): break
                if not check(L, p, int(i), B, W, P, None): break
            # an index behind the end is no record
            for i in (n, (n // 40 + 1) * 40):
                try:
                    x = ds[i]
                    L.bad('record %d of a file with %d records delivered (time %r)' % (i, n, x.time_sar_ku))
                except (IndexError, KeyError):
                    L.n('indices past the end refused')
            if d2 is not None: d2.close()
        coverage('after reading')
        g = ds.read_globals()
        for k in synth.GLOBALS:
            if getattr(g, k) != glob.get(k):
                L.bad('global attribute %s is %r, the file has %r' % (k, getattr(g, k), glob.get(k)))
        L.n('global attributes', len(synth.GLOBALS))
        ds.close()
    L.n('files')
    L.n('files of exactly full blocks', int(n % 40 == 0))
    shutil.rmtree(d, ignore_errors=True)
    return L.viol, L.counts, L.desc


def run(ck):
    chain.many(ck, __name__, 'reader', [(ck.seed * 1000 + i,) for i in range(1200 if ck.thorough else 105)])
