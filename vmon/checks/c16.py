"""Auxiliary files: every parameter of many loaded files against what was written into them."""
import gc, json, math, os, shutil, warnings
import numpy as np
from .. import chain, scen, synth, harness, compare

RULE = ('one case = one history over a pool of configuration / constants / characterisation objects (files with random '
        'values, missing, unknown, null, invalid and ill-typed parameters, other versions, overriding keywords): objects '
        'are loaded, read in random order, dropped and garbage collected, and algorithms are built on them; every value, '
        'warning and error is compared with what the file says. Also processing runs with defective files, and the '
        'delivered templates. Non-trivial = values read')

E_AZ = ('approx', 'exact')
E_WIN = ('none', 'boxcar', 'hanning', 'hamming')
E_FMT = ('sentinel-3', 'extended')
# attribute -> (name in the file, kind, optional, default)
CNF = dict(
    flag_cal2_correction=('flag_cal2_correction_cnf', 'flag'), flag_uso_correction=('flag_uso_correction_cnf', 'flag'),
    flag_cal2_table_index=('flag_cal2_table_index_cnf', 'int'), flag_cal1_corrections=('flag_cal1_corrections_cnf', 'flag'),
    flag_cal1_intraburst_corrections=('flag_cal1_intraburst_corrections_cnf', 'flag'),
    flag_surface_focusing=('flag_surface_focusing_cnf', 'bool'),
    surface_focusing_lat=('surface_focusing_lat_cnf', 'deg'), surface_focusing_lon=('surface_focusing_lon_cnf', 'deg'),
    surface_focusing_alt=('surface_focusing_alt_cnf', 'num'),
    flag_azimuth_processing_method=('flag_azimuth_processing_method_cnf', E_AZ),
    flag_postphase_azimuth_processing=('flag_postphase_azimuth_processing_cnf', 'flag'),
    flag_azimuth_windowing_method=('flag_azimuth_windowing_method_cnf', E_WIN),
    azimuth_window_width=('azimuth_window_width_cnf', 'num'),
    flag_doppler_range_correction=('flag_doppler_range_correction_cnf', 'flag'),
    flag_slant_range_correction=('flag_slant_range_correction_cnf', 'flag'),
    flag_window_delay_alignment_method=('flag_window_delay_alignment_method_cnf', 'num'),
    flag_stack_masking=('flag_stack_masking_cnf', 'bool'),
    flag_avoid_zeros_in_multilooking=('flag_avoid_zeros_in_multilooking_cnf', 'flag'),
    flag_surface_weighting=('flag_surface_weighting_cnf', 'flag'), flag_antenna_weighting=('flag_antenna_weighting_cnf', 'flag'),
    zp_fact_range=('zp_fact_range_cnf', 'num'), n_looks_stack=('N_looks_stack_cnf', 'num'),
    min_lat=('min_lat_cnf', 'num', None), max_lat=('max_lat_cnf', 'num', None),
    min_lon=('min_lon_cnf', 'num', None), max_lon=('max_lon_cnf', 'num', None),
    output_format=('output_format_flag_cnf', E_FMT, 'extended'))
CHD = {k: (v, 'float') for k, v in dict(
    mean_sat_alt='mean_sat_alt_chd', freq_ku='freq_ku_chd', pulse_length='pulse_length_chd', bw_ku='bw_ku_chd',
    power_tx_ant_ku='power_tx_ant_ku_chd', antenna_gain_ku='antenna_gain_ku_chd', uso_freq_nom='uso_freq_nom_chd',
    alt_freq_multiplier='alt_freq_multiplier_chd', prf_sar='prf_sar_chd', brf_sar='brf_sar_chd',
    antenna_angles_spacing='antenna_angles_spacing_chd', ptr_width='ptr_width_chd',
    fft_step_freq_ku='fft_step_freq_ku_chd', ratio_trc_ku='ratio_trc_ku_chd').items()}
CHD.update(n_samples_sar=('N_samples_sar_chd', 'int'), n_ku_pulses_burst=('N_ku_pulses_burst_chd', 'int'),
           antenna_weights=('antenna_weights_chd', 'array'), antenna_angles=('antenna_angles_chd', 'array'),
           look_angle_mask_min=('look_angle_mask_min_chd', 'deg', None),
           look_angle_mask_max=('look_angle_mask_max_chd', 'deg', None))
CST = {k: (v, 'float') for k, v in dict(
    c='c_cst', pi='pi_cst', semi_major_axis='semi_major_axis_cst', semi_minor_axis='semi_minor_axis_cst',
    earth_radius='earth_radius_cst', flat_coeff='flat_coeff_cst', sec_in_day='sec_in_day_cst').items()}
SPEC = dict(CNF=CNF, CHD=CHD, CST=CST)
VERSION = dict(CNF=3, CHD=1, CST=0)
DERIVED = dict(pri_sar=('prf_sar',), bri_sar=('brf_sar',), chirp_slope_ku=('bw_ku', 'pulse_length'),
               wv_length_ku=('freq_ku',), t0_nom=('uso_freq_nom', 'alt_freq_multiplier'))
MISS = object()


def draw(rng, kind):
    if isinstance(kind, tuple): return kind[int(rng.integers(len(kind)))]
    if kind in ('flag', 'bool'): return (True, False, 1, 0)[int(rng.integers(4))]
    if kind == 'int': return int(rng.integers(0, 300))
    if kind == 'deg': return (0, 0., float(rng.uniform(-360, 360)), int(rng.integers(-180, 181)))[int(rng.integers(4))]
    if kind == 'array': return [float(x) for x in rng.normal(0, 1, 250)]
    return (0, 1, int(rng.integers(-1000, 1000)), float(rng.normal(0, 1e3)), float(10. ** rng.uniform(-12, 12)))[int(rng.integers(5))]


def wanted(kind, v):
    """value in the file -> expected value"""
    if kind == 'deg': return v * math.pi / 180
    if kind == 'int': return int(v)
    if kind == 'bool': return bool(v)
    return v


def same(kind, got, want):
    if want is None: return got is None
    if isinstance(kind, tuple): return getattr(got, 'value', got) == want and not isinstance(got, str)
    if kind == 'array':
        return isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == (250,) and np.array_equal(got, want)
    if isinstance(got, (str, bytes)) or got is None: return False
    if kind == 'deg': return abs(got - want) <= 1e-14 * max(1, abs(want))
    if kind == 'float' and not isinstance(got, float): return False
    if kind == 'int' and (not isinstance(got, int) or isinstance(got, bool)): return False
    if kind == 'bool' and not isinstance(got, (bool, np.bool_)): return False
    return got == want


class Obj:
    """a loaded object with what its file says"""


def make(rng, d, k, cst_pool, L):
    """-> Obj, or None if the file had to be refused"""
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    key = ('CNF', 'CHD', 'CST')[int(rng.integers(3))]
    if key == 'CHD' and not cst_pool: key = 'CST'
    spec = SPEC[key]
    o = Obj()
    o.key, o.file, o.vals = key, {}, {}
    style = int(rng.integers(8))
    data, unknown = {}, []
    for a, sp in spec.items():
        o.vals[a] = MISS
        if rng.random() < (.12 if style < 6 else .5) * (2 if len(sp) > 2 else 1):
            continue
        v = draw(rng, sp[1])
        r = rng.random()
        if r < .03: v = None
        elif r < .05 and isinstance(sp[1], tuple): v = ('nonsense', '', 'NONE', 0, sp[1][0].upper())[int(rng.integers(5))]
        elif r < .06 and sp[1] in ('float', 'int'): v = 'abc'
        elif r < .08 and sp[1] == 'array': v = [1., 2.]
        o.vals[a] = v
        data[sp[0]] = dict(value=v, description='d', units=None)
        if rng.random() < .1: data[sp[0]].pop('units')
    if rng.random() < .4:
        for i in range(int(rng.integers(1, 4))):
            u = ('unknown_%d' % i, 'flag_cal2_correction', 'c', 'min_lat', 'N_looks_stack', '__doc__')[int(rng.integers(6))]
            if u not in data:
                unknown.append(u)
                data[u] = dict(value=int(rng.integers(100)))
        if rng.random() < .3:       # a parameter of another kind of file
            ok = ('CNF', 'CHD', 'CST')[int(rng.integers(3))]
            n = list(SPEC[ok].values())[int(rng.integers(len(SPEC[ok])))][0]
            if ok != key and n not in data:
                unknown.append(n)
                data[n] = dict(value=1)
    order = rng.permutation(len(data))
    items = list(data.items())
    data = dict(items[i] for i in order)
    ver = VERSION[key]
    r = rng.random()
    if r < .06:
        ver = [ver - 1, ver + 1, ver + 7, ver + .5, ver - .25, str(ver), [ver], None][int(rng.integers(8))]
    full = dict(data)
    if r > .04 or r < .02:
        full['__metainf__'] = dict(version=ver, description='x', changelog=[])
    else:
        ver = -1
    if '__metainf__' not in full: ver = -1
    if rng.random() < .5:
        full = dict([('__metainf__', full.pop('__metainf__'))] + list(full.items())) if '__metainf__' in full else full
    path = os.path.join(d, '%s_%d.json' % (key, k))
    with open(path, 'w') as fp:
        json.dump(full, fp)
    before = open(path).read()
    kw, nofile = {}, rng.random() < .08
    if nofile:
        o.vals = {a: MISS for a in spec}
        unknown, ver = [], VERSION[key]
    if rng.random() < .3 or nofile:
        for a, sp in spec.items():
            if rng.random() < .3:
                o.vals[a] = kw[sp[0]] = draw(rng, sp[1])
    o.over = {}
    if key == 'CHD':
        for a in ('wv_length_ku', 'chirp_slope_ku'):
            if rng.random() < .2:
                o.over[a] = kw[a + '_chd'] = float(rng.uniform(1, 2))
        o.cst = cst_pool[int(rng.integers(len(cst_pool)))]
        mk = lambda: CharacterisationFile(o.cst.real, None if nofile else path, **kw)
    else:
        cls = ConfigurationFile if key == 'CNF' else ConstantsFile
        mk = lambda: cls(None if nofile else path, **kw)
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        try:
            o.real = mk()
            err = None
        except Exception as e:
            err = e
    if open(path).read() != before:
        L.bad('reading %s changed the file' % key)
    if ver != VERSION[key]:
        if err is None: L.bad('%s file of version %s accepted (current version is %d)' % (key, ver, VERSION[key]))
        elif isinstance(ver, (int, float)) and type(err).__name__ != 'IncompatibleAuxiliaryFileError':
            L.bad('%s file of another version: %s: %s' % (key, type(err).__name__, err))
        L.n('other versions refused')
        return None
    if err is not None:
        L.bad('loading a %s file failed with %s: %s' % (key, type(err).__name__, err))
        return None
    uw = sorted(str(w.message) for w in ws if w.category.__name__ == 'UnknownParameterWarning')
    if len(uw) != len(unknown) or any(sum(w.split()[-1] == u for w in uw) != 1 for u in unknown):
        L.bad('%s file with unknown parameters %s: warnings %s' % (key, unknown, uw))
    L.n('unknown parameters warned about', len(unknown))
    L.n('overridden parameters', len(kw))
    o.unknown = unknown
    L.n('files loaded')
    return o


def read(L, o, a):
    sp = SPEC[o.key][a]
    name, kind = sp[:2]
    v = o.vals[a]
    expect = None
    if v is MISS:
        if len(sp) > 2: v = sp[2]
        else: expect = ('MissingParameterError',)
    elif v is None:
        if kind in ('int', 'float', 'bool') or isinstance(kind, tuple): expect = ('ParameterTypeError',)
    elif isinstance(kind, tuple) and v not in kind: expect = ('ValueError',)
    elif v == 'abc': expect = ('ValueError', 'ParameterTypeError')
    elif kind == 'array' and len(v) != 250: expect = ('ValueError',)
    if a == 'flag_antenna_weighting' and v is None: expect = ('ParameterTypeError',)
    try:
        got, err = getattr(o.real, a), None
    except Exception as e:
        got, err = None, e
    w = '%s of a %s file with %r' % (a, o.key, '(absent)' if o.vals[a] is MISS else o.vals[a] if kind != 'array' else '...')
    if expect is None:
        if err is not None: return L.bad('%s: unexpected %s: %s' % (w, type(err).__name__, err))
        if not same(kind, got, None if v is None else wanted(kind, v)):
            return L.bad('%s: got %r' % (w, got))
        L.n('values read')
    else:
        if err is None: return L.bad('%s: an error was expected, got %r' % (w, got))
        if type(err).__name__ not in expect: return L.bad('%s: %s expected, got %s: %s' % (w, expect, type(err).__name__, err))
        if expect[0] == 'MissingParameterError' and name not in str(err).split():
            return L.bad('%s: the error does not name the parameter: %s' % (w, err))
        L.n('reads refused (%s)' % expect[0])


def good(o, a):
    v = o.vals[a]
    return v is not MISS and v is not None and not isinstance(v, str) and v != 0


def derived(L, o):
    for a, src in DERIVED.items():
        if a in o.over:
            want = o.over[a]
        else:
            if not all(good(o, s) for s in src) or (a == 'wv_length_ku' and not good(o.cst, 'c')): continue
            x = [float(o.vals[s]) for s in src]
            want = (o.cst.vals['c'] / x[0] if a == 'wv_length_ku' else x[0] / x[1] if a == 'chirp_slope_ku'
                    else 1 / x[0] if len(x) == 1 else 1 / (x[0] * x[1]))
        got = getattr(o.real, a)
        if not abs(got - want) <= 1e-12 * abs(want):
            L.bad('%s is %r, expected %r' % (a, got, want))
        L.n('derived values read')


ALGOS = dict(stack_masking=('StackMaskingAlgorithm', ('flag_stack_masking', 'n_looks_stack', 'zp_fact_range')),
             geometry_corrections=('GeometryCorrectionsAlgorithm', ('flag_doppler_range_correction', 'flag_slant_range_correction',
                                                               'flag_window_delay_alignment_method', 'n_looks_stack')),
             multilooking=('MultilookingAlgorithm', ('flag_avoid_zeros_in_multilooking', 'n_looks_stack')))


def algorithms(L, o, chd, cst):
    """algorithm objects take their options from the configuration they were built with"""
    import importlib
    out = []
    for m, (c, pars) in ALGOS.items():
        cls = getattr(importlib.import_module('dedop.proc.sar.algorithms.' + m), c)
        illtyped = [p for p in pars if o.vals[p] is None and CNF[p][1] == 'bool']
        try:
            out.append((cls(chd.real, cst.real, o.real), pars, o))
            if illtyped: L.bad('%s built although %s is null' % (c, illtyped))
        except Exception as e:
            if type(e).__name__ == 'ParameterTypeError' and illtyped: L.n('ill-typed options refused')
            elif type(e).__name__ in ('MissingParameterError', 'ParameterTypeError', 'TypeError', 'ValueError'): L.n('algorithm not built')
            else: raise
    return out


def history(seed):
    rng = np.random.default_rng([seed, 16])
    d = harness.scratch('aux')
    L = compare.Log(dict(seed=seed, part='history'))
    pool, algs, k = [], [], 0
    with harness.quiet():
        for step in range(160):
            r = rng.random()
            if r < .12 or len(pool) < 2:
                o = make(rng, d, k, [p for p in pool if p.key == 'CST'], L)
                k += 1
                if o is not None: pool.append(o)
            elif r < .18 and len(pool) > 3:
                o = pool.pop(int(rng.integers(len(pool))))
                o.real = None
                algs = [x for x in algs if x[2] is not o]
                del o
                gc.collect()
                L.n('objects dropped')
            elif r < .24:
                cn, ch, cs = ([p for p in pool if p.key == x and p.real is not None] for x in ('CNF', 'CHD', 'CST'))
                if cn and ch and cs:
                    algs += algorithms(L, cn[int(rng.integers(len(cn)))], ch[0], cs[0])
            else:
                o = pool[int(rng.integers(len(pool)))]
                if o.real is None: continue
                sp = list(SPEC[o.key])
                for a in rng.permutation(sp)[:int(rng.integers(1, len(sp) + 1))]:
                    read(L, o, str(a))
                if o.key == 'CHD': derived(L, o)
                for u in o.unknown:
                    try:
                        o.real[u]
                        L.bad('unknown parameter %s delivered' % u)
                    except Exception as e:
                        if type(e).__name__ != 'MissingParameterError': raise
            for alg, pars, o in algs:
                for p in pars:
                    if o.vals[p] is MISS or not hasattr(alg, p): continue
                    if not same(CNF[p][1], getattr(alg, p), None if o.vals[p] is None else wanted(CNF[p][1], o.vals[p])):
                        L.bad('option %s of an algorithm is %r, its configuration says %r' % (p, getattr(alg, p), o.vals[p]))
                    L.n('algorithm options compared')
            if L.viol: break
    L.desc['files'] = k
    shutil.rmtree(d, ignore_errors=True)
    return L.viol, L.counts, L.desc


DEFECTS = [('CNF', 'N_looks_stack_cnf', 'missing'), ('CNF', 'zp_fact_range_cnf', 'missing'),
           ('CNF', 'flag_azimuth_processing_method_cnf', 'missing'), ('CNF', 'flag_azimuth_processing_method_cnf', 'fast'),
           ('CNF', 'flag_azimuth_windowing_method_cnf', 'missing'), ('CNF', 'flag_azimuth_windowing_method_cnf', 'hann'),
           ('CNF', 'flag_stack_masking_cnf', None), ('CNF', 'flag_cal2_table_index_cnf', 'missing'),
           ('CNF', 'flag_cal1_corrections_cnf', 'missing'), ('CNF', 'flag_cal2_correction_cnf', 'missing'),
           ('CNF', 'flag_surface_focusing_cnf', 'missing'), ('CNF', 'output_format_flag_cnf', 'netcdf'),
           ('CHD', 'freq_ku_chd', 'missing'), ('CHD', 'N_samples_sar_chd', 'missing'), ('CHD', 'bw_ku_chd', None),
           ('CHD', 'uso_freq_nom_chd', 'missing'), ('CHD', 'brf_sar_chd', 'missing'), ('CHD', 'antenna_gain_ku_chd', 'missing'),
           ('CST', 'c_cst', 'missing'), ('CST', 'semi_major_axis_cst', 'missing'), ('CST', 'flat_coeff_cst', 'missing'),
           ('CST', 'pi_cst', 'missing'), ('CNF', '__metainf__', 'version'), ('CHD', '__metainf__', 'version'),
           ('CST', '__metainf__', 'version'), ('CNF', '__metainf__', 'missing'), (None, None, None)]


def defective(seed, i):
    """a processing run with a defective auxiliary file reports it and delivers no product"""
    key, name, how = DEFECTS[i]
    s = scen.solid(seed, None, min_rec=1)
    L = compare.Log(dict(seed=seed, part='run', file=key, parameter=name, defect=how))
    if s is None:
        return [], {}, L.desc
    if key:
        path = s.aux[('CNF', 'CST', 'CHD').index(key)]
        data = json.load(open(path))
        if how == 'missing': data.pop(name)
        elif how == 'version': data[name]['version'] -= 1
        else: data[name]['value'] = how
        json.dump(data, open(path, 'w'))
    r = harness.run(s.aux, s.l1a, s.out)
    if key is None:
        if r.error is not None: L.bad('run with intact files failed: %s' % r.error)
        L.n('intact runs')
    elif r.error is None:
        L.bad('run with %s %s (%s) reported success' % (key, name, how))
    else:
        t = type(r.error).__name__
        if name == '__metainf__' and t != 'IncompatibleAuxiliaryFileError' or how == 'missing' and name != '__metainf__' and (
                t != 'MissingParameterError' or name not in str(r.error)):
            L.bad('run with %s %s (%s): %s: %s' % (key, name, how, t, r.error))
        L.n('runs refused')
    return chain.done(s, L)


def templates():
    from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
    import pkgutil
    L = compare.Log(dict(part='templates'))
    d = harness.scratch('tpl')
    for pkg in ('config', 'cryosat_config'):
        real = {}
        for key in ('CST', 'CHD', 'CNF'):
            txt = pkgutil.get_data('dedop.ui.data.' + pkg, key + '.json').decode()
            p = os.path.join(d, key + '.json')
            open(p, 'w').write(txt)
            o = Obj()
            o.key = key
            data = json.loads(txt)
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter('always')
                o.real = ConstantsFile(p) if key == 'CST' else ConfigurationFile(p) if key == 'CNF' else \
                    CharacterisationFile(real['CST'], p)
            real[key] = o.real
            if [w for w in ws if w.category.__name__ == 'UnknownParameterWarning']:
                L.bad('template %s/%s: %s' % (pkg, key, [str(w.message) for w in ws]))
            o.vals = {a: data[sp[0]]['value'] if sp[0] in data else MISS for a, sp in SPEC[key].items()}
            for a in SPEC[key]: read(L, o, a)
            if key == 'CHD':
                o.over, o.cst = {}, Obj()
                o.cst.vals = dict(c=real['CST'].c)
                derived(L, o)
            need = [sp[0] for a, sp in SPEC[key].items() if len(sp) == 2 and not sp[0].startswith('antenna_') and sp[0] not in data]
            if need: L.bad('template %s/%s lacks %s' % (pkg, key, need))
        L.n('template sets')
    shutil.rmtree(d, ignore_errors=True)
    return L.viol, L.counts, L.desc


def run(ck):
    chain.many(ck, __name__, 'templates', [()])
    n = 2500 if ck.thorough else 160
    chain.many(ck, __name__, 'history', [(ck.seed * 10000 + i,) for i in range(n)])
    chain.many(ck, __name__, 'defective', [(ck.seed * 1000 + 500 + i, i) for i in range(len(DEFECTS))])
