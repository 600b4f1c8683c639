"""Driver: many scenarios through the real processor in parallel, compared by the given comparers."""
import multiprocessing as mp, os, shutil, sys, traceback
import numpy as np
from . import scen, harness, compare, report


class _Proc(mp.get_context('fork').Process):
    """workers may have children of their own"""
    daemon = property(lambda self: False, lambda self, v: None)


class _Ctx(type(mp.get_context('fork'))):
    Process = _Proc


def Pool(n, fresh=False):
    import multiprocessing.pool
    return multiprocessing.pool.Pool(n, context=_Ctx(), maxtasksperchild=1 if fresh else None)


def one(job):
    """job: (module, function, args) -> (viol, counts, desc)"""
    modname, fn, args = job
    import importlib
    try:
        mod = importlib.import_module(modname)
        report.watchdog(report.CASE_LIMIT)
        try:
            return getattr(mod, fn)(*args)
        finally:
            report.watchdog(0)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(report.REPO + '/dedop') for f in tb):
            f = [f for f in tb if f.filename.startswith(report.REPO + '/dedop')][-1]
            return (['unexpected %s: %s (at %s:%d)' % (type(e).__name__, e, f.filename, f.lineno)], {},
                    dict(args=repr(args)[:200]))
        if isinstance(e, (ValueError, IndexError, KeyError, ArithmeticError, OSError)):
            # the observed data could not even be interpreted (never happens on a tree where the property holds)
            return (['observed data malformed: %s: %s' % (type(e).__name__, e)], {}, dict(
                args=repr(args)[:200], trace=traceback.format_exc().splitlines()[-8:]))
        return ('HARNESS', traceback.format_exc(), dict(args=repr(args)[:200]))


def many(ck, modname, fn, argslist, procs=8, fresh=False):
    """run fn(*args) for all args in worker processes (fresh: one per case) and merge the results into ck"""
    jobs = [(modname, fn, a) for a in argslist]
    broken = None
    if any('does not end' in w for w, _ in ck.violations):
        return
    procs = int(os.environ.get('VMON_PROCS', procs))
    with Pool(min(procs, max(1, len(jobs))), fresh) as pool:
        for res in pool.imap_unordered(one, jobs, 1):
            if res[0] == 'HARNESS':
                broken = res[1]
                continue
            viol, counts, desc = res
            for k, v in counts.items():
                ck.count(k, v)
            ck.case(desc, nontrivial=bool(counts))
            for w in viol:
                ck.violation(w, desc)
            if ck.full or any('does not end' in w for w in viol):
                pool.terminate()
                break
    if broken and not ck.violations:
        raise RuntimeError('harness failure:\n' + broken)


def setup(seed, theme, l1bs=False, min_rec=3, **force):
    """scenario + run of the real chain -> (s, r, L); L None if no scenario could be drawn"""
    s = scen.solid(seed, theme, min_rec=min_rec, **force)
    if s is None:
        return None, None, compare.Log(dict(seed=seed, theme=theme, drawn=False))
    L = compare.Log(s.desc)
    r = harness.run(s.aux, s.l1a, s.out, l1bs=l1bs)
    if r.error is not None:
        L.bad('processing failed with %s: %s' % (type(r.error).__name__, r.error))
    L.n('runs')
    L.n('segments', len(s.info.segs))
    return s, r, L


def done(s, L):
    if s is not None:
        shutil.rmtree(s.dir, ignore_errors=True)
    return L.viol, L.counts, L.desc


THEMES = (None, 'gaps', 'mask', 'roi', 'invalid', 'utc', 'focus', 'long', 'antenna', 'narrow')


def plan(ck, n, themes=THEMES, off=0, **force):
    """n scenario seeds cycling through the themes"""
    base = ck.seed * 1000 + off
    return [(base + k, themes[k % len(themes)]) for k in range(n)]


def stage(seed, theme, names, force=None):
    """one scenario through the real chain; names: comparers to apply"""
    force = dict(force or {})
    l1bs = force.pop('l1bs', 'l1bs' in names)
    s, r, L = setup(seed, theme, l1bs, **force)
    if s is None or r.error is not None:
        return done(s, L)
    P, W = s.P, s.info.W
    surfs = r.surfaces
    per = [n for n in names if n in PER]
    if per and compare.aligned(L, s.recs, surfs):
        for i, (R, x) in enumerate(zip(s.recs, surfs)):
            w = ' (record %d)' % i
            for n in per:
                try:
                    PER[n](L, R, x, P, W, w)
                except AttributeError as e:
                    L.n('not observable: %s' % str(e)[-60:])
            if L.viol:
                break
    whole = [n for n in names if n in WHOLE]
    if whole:
        if r.l1b is None:
            L.bad('no L1B product written')
        else:
            pr = compare.Product(r.l1b)
            for n in whole:
                WHOLE[n](L, s, r, pr, surfs)
    return done(s, L)


PER = dict(surface=lambda L, R, x, P, W, w: compare.surface(L, R, x, P, w),
           beams=lambda L, R, x, P, W, w: compare.stack(L, R, x, P, W, w, beams=True, meta=False),
           stack=lambda L, R, x, P, W, w: compare.stack(L, R, x, P, W, w),
           geometry=compare.geometry,
           multilook=lambda L, R, x, P, W, w: compare.multilook(L, R, x, P, w),
           sigma0=lambda L, R, x, P, W, w: compare.sigma0(L, R, x, P, w))


def _l1b_ref(L, s, r, pr, surfs):
    if pr.n != len(s.recs):
        L.bad('L1B product has %d records, the algorithm defines %d' % (pr.n, len(s.recs)))
        return
    L.n('records', pr.n)
    compare.check_cols(L, pr, compare.l1b_columns_ref(s, pr, L), compare.SFX)
    compare.lon360(pr, compare.SFX, L, [np.degrees(R.surface.lon) for R in s.recs], tol=1e-8)
    compare.fits_e2e(L, s, pr)


GROUP = dict(geo=('time', 'lat', 'alt', 'orb_alt_rate', 'x_pos', 'y_pos', 'z_pos', 'x_vel', 'y_vel', 'z_vel',
                  'range_ku', 'roll_sat_pointing', 'pitch_sat_pointing', 'yaw_sat_pointing'),
             stack=('nb_stack', 'beam_ang', 'look_ang'),
             sigma0=('scale_factor_ku', 'stack_scale_factor_ku'),
             wf=('i2q2_meas_ku', 'stack_mask_vector', 'start_look_angle_stack', 'stop_look_angle_stack',
                 'start_beam_ang_stack', 'stop_beam_ang_stack'))


def _cols(L, s, r, pr, group):
    """a group of product variables against the reference"""
    if pr.n != len(s.recs):
        L.bad('L1B product has %d records, the algorithm defines %d' % (pr.n, len(s.recs)))
        return
    L.n('records', pr.n)
    L2 = L if group == 'wf' else compare.Log({})
    C = compare.l1b_columns_ref(s, pr, L2)
    C.c = {k: v for k, v in C.c.items() if k in GROUP[group]}
    if group == 'stack' and s.P.fmt != 'sentinel-3':
        C.c.pop('nb_stack')         # counts the contributing beams, i.e. depends on the mask
    compare.check_cols(L, pr, C, compare.SFX)
    if group == 'geo':
        compare.lon360(pr, compare.SFX, L, [np.degrees(R.surface.lon) for R in s.recs], tol=1e-8)


def _l1b_obs(L, s, r, pr, surfs):
    if pr.n != len(surfs):
        L.bad('L1B product has %d records, %d were computed' % (pr.n, len(surfs)))
        return
    if not compare.aligned(L, s.recs, surfs):
        return
    compare.check_cols(L, pr, compare.l1b_columns_obs(s, surfs, pr, L), compare.SFX)
    compare.lon360(pr, compare.SFX, L, [np.degrees(x.lon_surf) for x in surfs])


def _l1bs(L, s, r, pr, surfs):
    if r.l1bs is None:
        L.bad('no L1BS product written')
        return
    p2 = compare.Product(r.l1bs)
    if not (p2.n == pr.n == len(surfs)):
        L.bad('L1BS product has %d records, L1B %d, computed %d' % (p2.n, pr.n, len(surfs)))
        return
    if compare.aligned(L, s.recs, surfs):
        compare.l1bs(L, s, surfs, p2)


def _times(L, s, r, pr, surfs):
    compare.times(L, s, pr, compare.SFX)
    if r.l1bs is not None:
        compare.times(L, s, compare.Product(r.l1bs), compare.S2)


WHOLE = dict(l1b_ref=_l1b_ref, l1b_obs=_l1b_obs, l1bs=_l1bs, times=_times, **{
    'cols:' + k: (lambda L, s, r, pr, surfs, _k=k: _cols(L, s, r, pr, _k)) for k in ('geo', 'stack', 'sigma0', 'wf')})
