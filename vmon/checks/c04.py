"""Independence of runs: histories of finished, failed, cancelled and nested runs on the same processor objects."""
import copy, os, hashlib, multiprocessing as mp, shutil
from types import SimpleNamespace as NS
import numpy as np
from .. import chain, scen, synth, ref, harness, compare, report
from . import c02

RULE = ('one case = a random history of runs (finishing, failing in several ways, cancelled, nested inside each '
        'other, with and without L1BS, with configurations that differ in one respect) on several processor objects; every finished product is compared bit by bit '
        'with the product of a fresh process, and all other files are checksummed before and after every step')


class Mon:
    """progress monitor acting at the k-th progress call"""
    def __new__(cls, at, action):
        from dedop.util.monitor import Monitor

        class M(Monitor):
            def __init__(self):
                self.k, self.c = 0, False

            def start(self, label, total_work=None): pass

            def progress(self, work=None, msg=None):
                self.k += 1
                if self.k == at:
                    action(self)

            def done(self): pass

            def cancel(self): self.c = True

            def is_cancelled(self): return self.c
        return M()


class Boom(Exception):
    pass


def boom(m):
    raise Boom('injected')


def tree(*dirs):
    out = {}
    for d in dirs:
        for root, _, files in os.walk(d):
            for f in files:
                p = os.path.join(root, f)
                with open(p, 'rb') as fp:
                    out[p] = hashlib.sha1(fp.read()).hexdigest()
    return out


def baseline(s, out, l1bs):
    """in a process of its own"""
    def go():
        os.makedirs(out)
        report.watchdog(report.CASE_LIMIT)
        r = harness.run(s.aux, s.l1a, out, l1bs=l1bs, hook=False)
        os._exit(0 if r.error is None else 3)
    p = mp.get_context('fork').Process(target=go)
    p.start()
    p.join()
    return p.exitcode == 0


def limited(s, out, limit):
    """a run in a process whose files cannot grow beyond limit bytes (a full disk); -> it reported success"""
    import resource, signal

    def go():
        os.makedirs(out)
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 1)
        os.dup2(null, 2)
        report.watchdog(report.CASE_LIMIT)
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
        r = harness.run(s.aux, s.l1a, out, l1bs=True, hook=False)
        os._exit(0 if r.error is None else 3)
    p = mp.get_context('fork').Process(target=go)
    p.start()
    p.join()
    return p.exitcode == 0


def same(*a):
    c02.same(*a, counters=True)


KINDS = ['win', 'win_width', 'azimuth', 'cal1', 'cal2', 'cal2_index', 'doppler', 'slant', 'masking', 'zeros', 'zp',
         'looks', 'mask', 'antenna', 'focus', 'instrument', 'earth', 'roi', 'format']


def variant(P, rng, k):
    """a configuration that differs from P in one respect only"""
    Q = copy.copy(P)
    u = rng.uniform
    two = lambda v, *o: [x for x in o if x != v][int(rng.integers(len([x for x in o if x != v])))]
    if k == 'win': Q.win = two(P.win, 'none', 'hamming', 'hanning', 'boxcar')
    elif k == 'win_width':
        if P.win == 'none': Q.win = 'boxcar'
        Q.win_width = int(two(P.win_width, P.npul, P.npul - 2, P.npul // 2))
    elif k == 'azimuth': Q.azimuth = two(P.azimuth, 'approx', 'exact')
    elif k == 'cal1': Q.flag_cal1 = not P.flag_cal1
    elif k == 'cal2': Q.flag_cal2 = not P.flag_cal2
    elif k == 'cal2_index': Q.flag_cal2, Q.cal2_index = True, two(P.cal2_index, 0, 1, 2)
    elif k == 'doppler': Q.flag_doppler = not P.flag_doppler
    elif k == 'slant': Q.flag_slant = not P.flag_slant
    elif k == 'masking': Q.flag_masking = not P.flag_masking
    elif k == 'zeros': Q.flag_avoid_zeros = not P.flag_avoid_zeros
    elif k == 'zp': Q.zp = two(P.zp, 1, 2, 4)
    elif k == 'looks': Q.n_looks = max(2, int(P.n_looks * u(.6, 1.5)))
    elif k == 'mask': Q.flag_masking, Q.mask_min, Q.mask_max = True, u(-.9, -.1), u(.1, .9)
    elif k == 'antenna':
        Q.flag_antenna = True
        Q.ant_spacing = float(P.ant_spacing or 1e-4) * (1 if rng.random() < .5 else u(.5, 2))
        Q.ant_angles = (np.arange(250) - 125) * Q.ant_spacing
        Q.ant_weights = rng.uniform(.2, 1, 250)
    elif k == 'focus': Q.focus, Q.focus_lat, Q.focus_alt = True, P.focus_lat + u(-.3, .3), u(0, 50)
    elif k == 'instrument':
        f = ('freq', 'pulse_length', 'bw', 'ptx', 'gain', 'ptr_width', 'prf', 'uso')[int(rng.integers(8))]
        setattr(Q, f, getattr(P, f) * u(.98, 1.02))
    elif k == 'earth':
        f = ('earth_radius', 'mean_sat_alt', 'semi_major_axis', 'c')[int(rng.integers(4))]
        setattr(Q, f, getattr(P, f) * u(.9999, 1.0001))
    elif k == 'roi': Q.min_lat, Q.max_lat = -89., 89.
    else: Q.fmt = two(P.fmt, 'extended', 'sentinel-3')
    return str(k), Q


def history(seed):
    rng = np.random.default_rng([seed, 4])
    S = []
    for j in range(2):
        s = scen.solid(seed * 2 + j, ('gaps', 'invalid', 'focus', 'roi', None)[int(rng.integers(5))], min_rec=2, layout='two')
        if s is None:
            return [], {}, dict(seed=seed, drawn=False)
        S.append(s)
    # a second input for the same configuration (same instrument)
    a = S[0]
    t = scen.draw(seed * 2 + 77, 'gaps', layout='two',
                  **{k: v for k, v in vars(a.P).items()})
    L = compare.Log(dict(seed=seed, a=a.desc, b=S[1].desc['seed']))
    files = {}          # name -> (scenario like object)
    files['a'] = a
    t.dir, t.aux = a.dir, a.aux
    os.makedirs(a.dir + '/two')
    t.l1a = a.dir + '/two/L1A_two.nc'
    t.P = a.P
    t.D = synth.make_bursts(a.P, rng, len(np.unique(t.D['time'])), dt=np.diff(np.unique(t.D['time'])), t0=3.9e8, lat0=float(
        np.clip(a.desc['lat0'] + rng.normal(0, 5), -80, 80)), lon0=a.desc['lon0'])
    t.B = synth.write_l1a(t.l1a, t.D, a.P)
    t.recs, t.info = ref.chain(t.B, t.P)
    if len(t.info.segs) and scen.expect_product(t):
        files['two'] = t
    base = {}
    for name, s in files.items():
        for f in (False, True):
            o = '%s/base_%s_%d' % (a.dir, name, f)
            if not baseline(s, o, f):
                L.bad('run of %s in a fresh process failed' % name)
                return chain.done(a, L)
            base[name, f] = o
    # configurations that differ from the first one in a single respect, on the same file
    var = []
    kinds = list(rng.permutation(KINDS))
    for k in range(5):
        what, Q = variant(a.P, rng, kinds[k])
        v = NS(what=what, dir='%s/var%d' % (a.dir, k), l1a=a.l1a)
        v.aux = synth.write_aux(Q, v.dir + '/aux')
        if baseline(v, v.dir + '/base', True):
            os.makedirs(v.dir + '/out')
            var.append(v)
    # files that make a run fail
    short = a.dir + '/L1A_short.nc'
    n = len(a.D['time'])
    g = max(a.info.segs, key=len)[:3]
    synth.write_l1a(short, {k: (np.asarray(v)[g] if np.ndim(v) and len(v) == n else v) for k, v in a.D.items()}, a.P)
    garbage = a.dir + '/L1A_garbage.nc'
    with open(garbage, 'wb') as fp:
        fp.write(b'this is not a netCDF file' * 100)
    outdir = a.dir + '/work'
    os.makedirs(outdir)
    with open(outdir + '/L1B_other.nc', 'wb') as fp:
        fp.write(b'foreign')
    proc = None
    hist = []

    def prod(name, f):
        b = {'a': '_a', 'two': '_two'}[name]
        return [outdir + '/L1B_%s_run.nc' % b] + ([outdir + '/L1BS_%s_run.nc' % b] if f else [])

    def check_run(r, name, f, what):
        if r.error is not None:
            L.bad('%s failed with %s: %s; history %s' % (what, type(r.error).__name__, r.error, hist))
            return
        for p in prod(name, f):
            if not os.path.exists(p):
                L.bad('%s: %s missing; history %s' % (what, os.path.basename(p), hist))
                return
            try:
                same(L, os.path.join(base[name, f], os.path.basename(p)), p, '%s after %s' % (what, hist))
                ga = compare.Product(os.path.join(base[name, f], os.path.basename(p))).glob
                gb = compare.Product(p).glob
            except OSError as e:
                L.bad('%s is not readable: %s; history %s' % (p, e, hist))
                return
            d = [k for k in set(ga) | set(gb) if str(ga.get(k)) != str(gb.get(k)) and k != 'creation_time']
            if d:
                L.bad('%s: global attributes %s differ; history %s' % (what, d, hist))
        # L1B does not depend on whether L1BS is requested
        p = prod(name, False)[0]
        same(L, os.path.join(base[name, not f], os.path.basename(p)), p, '%s vs other L1BS setting' % what)
        if 'produced' in r.text:
            for line in r.text.splitlines():
                if line.startswith('produced ') and not os.path.exists(line[9:].strip()):
                    L.bad('reported product %s does not exist' % line)

    # nothing may appear in the working directory or the home directory either (this process runs one case only)
    for sub in ('cwd', 'home'):
        os.makedirs(a.dir + '/' + sub)
    os.chdir(a.dir + '/cwd')
    os.environ['HOME'] = a.dir + '/home'
    names = list(files)
    ops = ['run', 'run', 'short', 'garbage', 'missing', 'boom', 'cancel', 'nested', 'other', 'l1bs', 'variant', 'variant', 'variant']
    f = bool(rng.integers(2))
    for step in range(int(rng.integers(4, 9))):
        op = 'run' if step == 0 and rng.random() < .5 else ops[int(rng.integers(len(ops)))]
        name = names[int(rng.integers(len(names)))]
        if proc is None or (op == 'l1bs'):
            if op == 'l1bs': f = not f
            with harness.quiet():
                proc = harness.processor(a.aux, outdir, l1bs=f)
            if op == 'l1bs':
                op = 'run'
        before = tree(a.dir)
        allowed = set()
        x = files[name]
        if op == 'run':
            r = harness.run(a.aux, x.l1a, outdir, proc=proc, hook=False)
            check_run(r, name, f, 'run of %s' % name)
            allowed = set(prod(name, f))
        elif op in ('short', 'garbage', 'missing'):
            p = dict(short=short, garbage=garbage, missing=a.dir + '/L1A_none.nc')[op]
            r = harness.run(a.aux, p, outdir, proc=proc, hook=False)
            if r.error is None:
                L.bad('run on %s input reported no error' % op)
            allowed = {outdir + '/L1B_%s_run.nc' % ('_' + {'short': 'short', 'garbage': 'garbage',
                                                             'missing': 'none'}[op]),
                       outdir + '/L1BS_%s_run.nc' % ('_' + op)}
        elif op == 'boom':
            r = harness.run(a.aux, x.l1a, outdir, proc=proc, hook=False,
                            monitor=Mon(int(rng.integers(1, len(x.D['time']))), boom))
            if not isinstance(r.error, Boom):
                L.bad('an error raised during the run was turned into %r' % r.error)
            allowed = set(prod(name, f))
        elif op == 'cancel':
            r = harness.run(a.aux, x.l1a, outdir, proc=proc, hook=False,
                            monitor=Mon(int(rng.integers(1, len(x.D['time']))), lambda m: m.cancel()))
            allowed = set(prod(name, f))
            if r.error is None:
                for p in prod(name, f):
                    try:
                        compare.Product(p)
                    except OSError as e:
                        L.bad('product of a cancelled run is not readable: %s' % e)
        elif op == 'other':     # another processor, other configuration
            o = a.dir + '/other'
            os.makedirs(o, exist_ok=True)
            r = harness.run(S[1].aux, S[1].l1a, o, hook=False)
            allowed = {o + '/L1B__a_run.nc', o + '/L1BS__a_run.nc'}
            if r.error is not None:
                L.bad('run of another processor failed: %r; history %s' % (r.error, hist))
        elif op == 'variant' and var:
            v = var[int(rng.integers(len(var)))]
            op = 'variant ' + v.what
            r = harness.run(v.aux, v.l1a, v.dir + '/out', l1bs=True, hook=False)
            allowed = {v.dir + '/out/L1B__a_run.nc', v.dir + '/out/L1BS__a_run.nc'}
            if r.error is not None:
                L.bad('run with another %s failed: %r; history %s' % (v.what, r.error, hist))
            else:
                for p in sorted(allowed):
                    same(L, v.dir + '/base/' + os.path.basename(p), p, 'run with another %s after %s' % (v.what, hist))
        elif op == 'nested':    # another processor runs to its end in the middle of this run
            o = a.dir + '/other'
            os.makedirs(o, exist_ok=True)

            def act(m):
                with harness.quiet():
                    harness.processor(S[1].aux, o).process(S[1].l1a)
            r = harness.run(a.aux, x.l1a, outdir, proc=proc, hook=False,
                            monitor=Mon(int(rng.integers(1, len(x.D['time']))), act))
            hist.append('(nested)')
            check_run(r, name, f, 'run of %s with another run inside' % name)
            allowed = set(prod(name, f)) | {o + '/L1B__a_run.nc', o + '/L1BS__a_run.nc'}
        hist.append('%s:%s:%d' % (op, name, f))
        after = tree(a.dir)
        ch = [k for k in set(before) | set(after) if before.get(k) != after.get(k) and k not in allowed]
        if ch:
            L.bad('%s changed files that are not its products: %s' % (hist[-1], [c[len(a.dir):] for c in ch]))
        L.n('steps')
        L.n('op ' + op)
        if L.viol:
            break
    for v in var:
        if L.viol: break
        r = harness.run(v.aux, v.l1a, v.dir + '/out', l1bs=True, hook=False)
        hist.append('variant ' + v.what)
        if r.error is not None:
            L.bad('run with another %s failed: %r; history %s' % (v.what, r.error, hist))
            break
        L.n('op variant')
        for p in ('L1B__a_run.nc', 'L1BS__a_run.nc'):
            same(L, v.dir + '/base/' + p, v.dir + '/out/' + p, 'run with another %s after %s' % (v.what, hist))
    if not L.viol:      # whatever happened, a clean run follows
        for name in names:
            r = harness.run(a.aux, files[name].l1a, outdir, proc=proc, hook=False)
            check_run(r, name, f, 'final run of %s' % name)
    # a disk that is full at some point: no product may be reported that is not complete
    b = base['a', True]
    size = max(os.path.getsize(p) for p in (b + '/L1B__a_run.nc', b + '/L1BS__a_run.nc'))
    for k in range(2):
        if L.viol: break
        lim = int(size * (rng.uniform(.9, 1.01) if rng.random() < .5 else rng.uniform(0, 1.02)))
        o = '%s/full%d' % (a.dir, k)
        done = limited(a, o, lim)
        L.n('runs on a full disk')
        L.n('runs on a full disk reported as failed', not done)
        if done:
            for p in ('/L1B__a_run.nc', '/L1BS__a_run.nc'):
                try:
                    same(L, b + p, o + p, 'product of a run that reported success when files could not exceed %d bytes' % lim)
                except (OSError, RuntimeError) as e:
                    L.bad('a run reported success when files could not exceed %d bytes, but its product is not readable: %s' % (lim, e))
    L.desc['history'] = hist
    os.chdir('/')
    shutil.rmtree(S[1].dir, ignore_errors=True)
    return chain.done(a, L)


def run(ck):
    n = 240 if ck.thorough else 20
    chain.many(ck, __name__, 'history', [(ck.seed * 1000 + i,) for i in range(n)], fresh=True)
