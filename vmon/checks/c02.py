"""Burst accounting: which L1A records take part in a run, gap isolation, insufficient input."""
import os, copy, shutil, contextlib
import numpy as np
from .. import chain, scen, synth, ref, harness, compare

RULE = ('one case = one L1A file run through L1BProcessor with the bursts entering the azimuth processing traced '
        '(order, multiplicity, set), the bursts of every stack compared with the reference, or a pair of runs on '
        'related files (records inserted that must be ignored; data of the other side of a gap replaced) whose '
        'products are compared bit by bit, or an input without enough records that must be refused')
ASSUMPTIONS = ['bursts at the end of a segment that see no surface need not reach the azimuth processing']


@contextlib.contextmanager
def trace_azimuth(log):
    from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm as A
    orig = A.__call__

    def hook(self, *a, **k):
        packet = a[0] if a else k.get('packet')
        log.append(float(packet.time_sar_ku))
        return orig(self, *a, **k)
    A.__call__ = hook
    try:
        yield log
    finally:
        A.__call__ = orig


def traced(seed, theme):
    s = scen.solid(seed, theme, min_rec=2)
    if s is None:
        return [], {}, dict(seed=seed, drawn=False)
    L = compare.Log(s.desc)
    log = []
    with trace_azimuth(log):
        r = harness.run(s.aux, s.l1a, s.out)
    L.n('runs')
    if r.error is not None:
        L.bad('processing failed with %s: %s' % (type(r.error).__name__, r.error))
        return chain.done(s, L)
    W = s.info.W
    t = np.array(log)
    if len(t):
        if np.any(np.diff(t) <= 0):
            k = int(np.flatnonzero(np.diff(t) <= 0)[0])
            L.bad('bursts processed out of order or twice: %r after %r' % (t[k + 1], t[k]))
        used = set(W.time[s.info.used].tolist())
        extra = [x for x in t if x not in used]
        if extra:
            L.bad('%d unusable records processed, first at time %r' % (len(extra), extra[0]))
        must = [W.time[b.i] for si in s.info.seginfo for b in si.BS if b.n > 0]
        miss = set(must) - set(t.tolist())
        if miss:
            L.bad('%d usable bursts never processed, first at time %r' % (len(miss), min(miss)))
        L.n('bursts traced', len(t))
        L.n('unusable records', len(W.time) - len(used))
        L.n('gaps', len(s.info.segs) - 1)
    else:
        L.n('not observable: azimuth trace')
    pr = compare.Product(r.l1b) if r.l1b else None
    if pr is None:
        L.bad('no product')
    elif pr.n != len(s.recs):
        L.bad('%d records written, %d surfaces have enough looks' % (pr.n, len(s.recs)))
    else:
        compare.times(L, s, pr, compare.SFX)
    if len(r.surfaces) == len(s.recs):
        for i, (R, x) in enumerate(zip(s.recs, r.surfaces)):
            if R.amb_cut < 4 * compare.ANG:
                continue
            try:
                got = np.array([b.time_sar_ku for b in x.stack_bursts[:int(x.data_stack_size)]])
            except AttributeError:
                break
            L.close('times of the bursts in the stack', got, W.time[R.bi], 0, ' of record %d' % i)
            L.n('stacks')
    return chain.done(s, L)


SKIP_GLOB = ('creation_time', 'first_meas_time', 'last_meas_time', 'history')


def same(L, a, b, what, ra=slice(None), rb=slice(None), counters=False):
    """bitwise comparison of record ranges of two products"""
    A, B = compare.Product(a), compare.Product(b)
    if set(A.raw) != set(B.raw):
        L.bad('%s: different variables' % what)
        return
    for k in A.raw:
        x, y = A.raw[k], B.raw[k]
        if k == 'records_count' + compare.S2 and not counters:
            continue
        if A.dims[k] and x.ndim and A.dims[k][0].startswith('time'):
            x, y = x[ra], y[rb]
        if x.shape != y.shape:
            L.bad('%s: %s has shapes %s and %s' % (what, k, x.shape, y.shape))
            return
        if x.tobytes() != y.tobytes():
            d = np.flatnonzero((x != y).reshape(len(x), -1).any(1)) if x.ndim else [0]
            if len(d) == 0:
                continue
            L.bad('%s: %s differs in record %d of %d: %r / %r' % (what, k, d[0], len(x), x[d[0]], y[d[0]]))
            return
    L.n('products compared bitwise')
    L.n('records', A.n)


def inserted(seed):
    """records to be ignored do not change anything"""
    rng = np.random.default_rng([seed, 5])
    s = scen.solid(seed, (None, 'gaps', 'utc')[seed % 3], min_rec=2, min_lat=None, max_lat=None, min_lon=None,
                   max_lon=None)
    if s is None:
        return [], {}, dict(seed=seed, drawn=False)
    L = compare.Log(s.desc)
    n = len(s.D['time'])
    okk = ~((s.D['lat'] == 0) & (s.D['lon'] == 0))
    roi = seed % 2 == 0
    P = copy.copy(s.P)
    if roi:
        P.min_lat, P.max_lat = float(s.B['lat'][okk].min()), float(s.B['lat'][okk].max())
        s.aux = synth.write_aux(P, os.path.join(s.dir, 'aux_roi'))
    r0 = harness.run(s.aux, s.l1a, s.out)
    k = int(rng.choice([1, 2, 5, 40, 90, 130]))
    mode = int(rng.integers(4))
    if mode == 0: at = np.zeros(k, int)
    elif mode == 1: at = np.full(k, n)
    elif mode == 2: at = np.full(k, int(rng.integers(1, n)))
    else: at = np.sort(rng.integers(0, n + 1, k))
    D = {}
    mask = np.insert(np.zeros(n, bool), at, True)
    for key, v in s.D.items():
        v = np.asarray(v, float)
        if v.ndim and v.shape[0] == n:
            D[key] = np.insert(v, at, v[rng.integers(0, n, k)], axis=0)
        else:
            D[key] = v
    if roi and rng.random() < .7:
        new = rng.choice([P.min_lat - 5, P.max_lat + 5, P.max_lat + .3, P.min_lat - .3], mask.sum())
        new = np.clip(new, -89, 89)
        bad = (new >= P.min_lat) & (new <= P.max_lat)
        new[bad] = np.where(P.max_lat < 80, P.max_lat + 1, P.min_lat - 1)
        D['lat'][mask] = new
        kind = 'outside the region'
    else:
        D['lat'][mask] = 0.
        D['lon'][mask] = 0.
        kind = 'invalid'
    os.makedirs(s.dir + '/b')
    p2 = s.dir + '/b/L1A_a.nc'
    synth.write_l1a(p2, D, P)
    out2 = s.dir + '/out2'
    os.makedirs(out2)
    r1 = harness.run(s.aux, p2, out2)
    L.desc = dict(s.desc, inserted=k, mode=mode, kind=kind)
    for r in (r0, r1):
        if r.error is not None:
            L.bad('processing failed with %s: %s (%d records %s inserted, mode %d)' % (
                type(r.error).__name__, r.error, k, kind, mode))
    if not L.viol:
        same(L, r0.l1b, r1.l1b, '%d records %s inserted (mode %d)' % (k, kind, mode))
    L.n('insertions')
    return chain.done(s, L)


def sides(seed):
    """the records of each side of a gap do not depend on the data of the other side"""
    rng = np.random.default_rng([seed, 6])
    for q in range(10):
        s = scen.solid(seed * 10 + q, 'gaps', min_rec=4, focus=False, min_lat=None, max_lat=None, min_lon=None,
                       max_lon=None)
        if s is None:
            continue
        segs = s.info.segs
        rich = [j for j in range(len(segs)) if s.info.seginfo[j].n_rec > 0]
        if rich:
            break
        shutil.rmtree(s.dir)
    else:
        return [], {}, dict(seed=seed, drawn=False)
    L = compare.Log(s.desc)
    r0 = harness.run(s.aux, s.l1a, s.out, l1bs=seed % 4 == 0)
    if r0.error is not None:
        L.bad('processing failed with %s: %s' % (type(r0.error).__name__, r0.error))
        return chain.done(s, L)
    keep = int(rng.choice(rich))                # this segment stays as it is, all others get other data
    D = {k: np.array(v, float) for k, v in s.D.items()}
    n = len(D['time'])
    other = np.concatenate([g for j, g in enumerate(segs) if j != keep]) if len(segs) > 1 else np.array([], int)
    for k in ('i_meas', 'q_meas', 'gprw', 'burst_power', 'burst_phase', 'agc_ku', 'sig0_cal_ku'):
        D[k][other] = D[k][other[rng.permutation(len(other))]]
    D['range_ku'][other] += rng.normal(0, 3, len(other))
    for k in ('roll', 'pitch', 'yaw'):
        D[k + '_sral_mispointing'][other] += rng.normal(0, .05, len(other))
    if rng.random() < .5:
        D['i_meas'][other] *= 40
        D['q_meas'][other] *= 40
    os.makedirs(s.dir + '/b')
    p2 = s.dir + '/b/L1A_a.nc'
    B2 = synth.write_l1a(p2, D, s.P)
    recs2, info2 = ref.chain(B2, s.P)
    if any(getattr(info2.amb, q) < v for q, v in scen.AMB.items()):
        return chain.done(s, L)
    out2 = s.dir + '/out2'
    os.makedirs(out2)
    r1 = harness.run(s.aux, p2, out2, l1bs=seed % 4 == 0)
    if r1.error is not None:
        L.bad('processing failed with %s: %s' % (type(r1.error).__name__, r1.error))
        return chain.done(s, L)

    def rng_of(info):
        a = sum(si.n_rec for si in info.seginfo[:keep])
        return slice(a, a + info.seginfo[keep].n_rec)
    L.desc = dict(s.desc, kept=keep)
    for a, b in ((r0.l1b, r1.l1b), (r0.l1bs, r1.l1bs)):
        if a and b:
            pa, pb = compare.Product(a), compare.Product(b)
            if pa.n != len(s.recs) or pb.n != len(recs2):
                L.bad('%d/%d records written, expected %d/%d' % (pa.n, pb.n, len(s.recs), len(recs2)))
            else:
                same(L, a, b, 'segment %d after other segments changed' % keep, rng_of(s.info), rng_of(info2))
    L.n('isolations')
    return chain.done(s, L)


def refused(seed):
    rng = np.random.default_rng([seed, 7])
    s = scen.draw(seed, 'long', min_lat=None, max_lat=None, min_lon=None, max_lon=None)
    n = len(s.D['time'])
    kind = seed % 4
    if kind == 0:       # too few surfaces
        m = int(rng.integers(1, n // 3))
        D = {k: (np.asarray(v)[:m] if np.ndim(v) and len(v) == n else v) for k, v in s.D.items()}
    elif kind == 1:     # no valid record
        D = dict(s.D, lat=np.zeros(n), lon=np.zeros(n))
    elif kind == 2:     # none in the region
        D = s.D
        s.P.min_lat = float(np.max(s.D['lat'])) + 1.
    else:               # too few in the region
        D = s.D
        v = np.sort(D['lat'][~((D['lat'] == 0) & (D['lon'] == 0))])
        m = int(rng.integers(1, n // 4))
        s.P.max_lat = float(v[m])
        s.P.min_lat = float(v[0]) - 1.
    s.dir = harness.scratch('rf')
    s.l1a = s.dir + '/L1A_a.nc'
    s.B = synth.write_l1a(s.l1a, D, s.P)
    s.recs, s.info = ref.chain(s.B, s.P)
    L = compare.Log(dict(s.desc, kind=kind, n=len(s.B['time'])))
    if len(s.info.segs) > 1 or (s.info.seginfo and s.info.seginfo[0].n_surf > 70):
        shutil.rmtree(s.dir)
        return [], {}, L.desc
    s.aux = synth.write_aux(s.P, s.dir + '/aux')
    r = harness.run(s.aux, s.l1a, s.dir)
    if r.error is None:
        L.bad('input with %d usable records was accepted without an error (status %r)' % (len(s.info.used), r.status))
    L.n('refused inputs')
    return chain.done(s, L)


def run(ck):
    f = 12 if ck.thorough else 1
    p = chain.plan(ck, 27 * f, themes=('gaps', 'invalid', 'roi'), off=2)
    chain.many(ck, __name__, 'traced', p)
    chain.many(ck, __name__, 'inserted', [(ck.seed * 1000 + i,) for i in range(16 * f)])
    chain.many(ck, __name__, 'sides', [(ck.seed * 1000 + i,) for i in range(16 * f)])
    chain.many(ck, __name__, 'refused', [(ck.seed * 1000 + i,) for i in range(12 * f)])
