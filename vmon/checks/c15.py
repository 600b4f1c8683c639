"""Record times, provenance attributes and file names of the products."""
import os, shutil, datetime as dt
import numpy as np
from .. import chain, scen, synth, ref, harness, compare

RULE = ('one case = one run of L1BProcessor (with L1BS) around midnights, leap seconds, gaps and region limits, with '
        'random sets of input attributes and file and run names; time, UTC day and second of every record of both '
        'products against the two enclosing bursts, every global attribute against the input, file names. '
        'Non-trivial = records compared')
ASSUMPTIONS = ['records within 10 microseconds of midnight may carry either representation of the instant']

COPIED = ('mission_name', 'altimeter_sensor_name', 'gnss_sensor_name', 'doris_sensor_name', 'references',
          'acq_station_name', 'xref_altimeter_level0', 'xref_navatt_level0', 'xref_altimeter_orbit', 'xref_doris_uso',
          'xref_altimeter_ltm_lrm_cal1', 'xref_altimeter_ltm_sar_cal1', 'xref_altimeter_ltm_ku_cal2',
          'xref_altimeter_ltm_c_cal2', 'xref_altimeter_characterisation', 'xref_time_correlation', 'history')


def product(seed, theme):
    s = scen.solid(seed, theme, min_rec=2)
    if s is None:
        return [], {}, dict(seed=seed, drawn=False)
    rng = np.random.default_rng([seed, 15])
    ch = lambda *a: a[int(rng.integers(len(a)))]
    P, B = s.P, s.B
    L = compare.Log(s.desc)
    glob = {k: '%s<%d>' % (k, rng.integers(1e6)) for k in synth.GLOBALS}
    glob['product_name'] = ch('S3A_SR_1_SRA_A__20130415T054207_x.SEN3', 'S3B_SR_1_SRA_A__2018_A__.SEN3', 'CS_OFFL_1B',
                              'S3A_SR_1_SRA_A__%d' % rng.integers(1e6))
    for k in list(glob):
        if rng.random() < .12: del glob[k]
        elif rng.random() < .04: glob[k] = ''
    stem = ch('L1A_a', 'L1A_01', 'measurement_l1a', 'x.y', 'L1A', 'S3A_L1A_b', 'L1A_L1A_2', 'L1AL1A', 'l1a_low', 'L1Ax', 'aL1A', '.hid', 'a.nc', 'sp ace',
              'L1A.v2', 'L1B_x')
    name = ch('run', 'My config 2', 'a-b', 'Config_01', 'L1A', 'v1.2', 'run.nc')
    l1a = os.path.join(s.dir, stem + '.nc')
    synth.write_l1a(l1a, s.D, P, glob)
    t0 = dt.datetime.now(dt.timezone.utc)
    l1bs = bool(rng.integers(2)) or theme == 'utc'
    r = harness.run(s.aux, l1a, s.out, name=name, l1bs=l1bs)
    t1 = dt.datetime.now(dt.timezone.utc)
    L.desc.update(stem=stem, name=name, missing=sorted(set(synth.GLOBALS) - set(glob)))
    L.n('runs')
    if r.error is not None:
        L.bad('processing failed with %s: %s' % (type(r.error).__name__, r.error))
        return chain.done(s, L)
    base = stem[3:] if stem.startswith('L1A') else stem
    tail = ('_' + base if base else '') + ('_' + name if name else '') + '.nc'
    want = {'L1B' + tail} | ({'L1BS' + tail} if l1bs else set())
    have = set(os.listdir(s.out))
    if have != want:
        L.bad('product files %s, expected %s (input %s, run name %r)' % (sorted(have), sorted(want), stem, name))
        return chain.done(s, L)
    # reported first/last measurement: the first and last record inside the region
    inroi = np.ones(len(B['time']), bool)
    for key, sg in (('min_lat', 1), ('max_lat', -1), ('min_lon', 1), ('max_lon', -1)):
        v = getattr(P, key)
        if v is not None:
            inroi &= sg * B[key[4:]] >= sg * v
    idx = np.flatnonzero(inroi)
    for f, sfx, rep in (('L1B', compare.SFX, '____'), ('L1BS', compare.S2, '_BS_')):
        if f + tail not in have:
            continue
        pr = compare.Product(os.path.join(s.out, f + tail))
        if pr.n != len(s.recs):
            L.bad('%s has %d records, expected %d' % (f, pr.n, len(s.recs)))
            continue
        compare.times(L, s, pr, sfx)
        L.n('records', pr.n)
        g = pr.glob
        exp = {k: glob.get(k, 'Not available') for k in COPIED}
        if f == 'L1BS': exp['xref_platform'] = glob.get('xref_platform', 'Not available')
        pn = glob.get('product_name')
        exp['product_name'] = 'Not available' if pn is None else pn.replace('_A__', rep)
        for k, v in exp.items():
            if g.get(k) != v:
                L.bad('%s attribute %s is %r, expected %r' % (f, k, g.get(k), v))
            L.n('attributes compared')
            L.n('attributes missing in the input', int(v == 'Not available'))
        for k, v in (('semi_major_ellipsoid_axis', P.semi_major_axis), ('ellipsoid_flattening', P.flat)):
            try:
                ok = abs(float(g.get(k)) - v) <= 1e-12 * abs(v)
            except (TypeError, ValueError):
                ok = False
            if not ok:
                L.bad('%s attribute %s is %r, the constants file has %r' % (f, k, g.get(k), v))
        z = dt.datetime(2000, 1, 1, tzinfo=dt.timezone.utc)
        for k, i in (('first_meas_time', idx[0]), ('last_meas_time', idx[-1])):
            x = dt.datetime.fromisoformat(str(g.get(k)))
            L.close('%s %s' % (f, k), (x - z).total_seconds(), B['time'][i], 2e-6)
        x = dt.datetime.fromisoformat(str(g.get('creation_time')))
        if not (t0 - dt.timedelta(seconds=2) <= x <= t1 + dt.timedelta(seconds=2)):
            L.bad('%s creation time %s is not the time of the run (%s .. %s)' % (f, x, t0, t1))
    return chain.done(s, L)


def run(ck):
    n = 480 if ck.thorough else 54
    chain.many(ck, __name__, 'product', chain.plan(
        ck, n, themes=('utc', 'utc', 'roi', 'utc', 'gaps', 'utc', 'invalid'), off=15))
    # the sampling interval of the day change made fine: many bursts straddling midnight
    chain.many(ck, 'vmon.chain', 'stage', [(ck.seed * 1000 + 700 + i, 'utc', ('times',), dict(l1bs=True, min_rec=2))
                                           for i in range(160 if ck.thorough else 10)])
