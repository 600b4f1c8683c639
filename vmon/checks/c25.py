"""Inspection and comparison of products: what the API exposes and every figure it draws, against the file contents."""
import contextlib, datetime, io, os, re, shutil, sys, types, unittest.mock as mock, warnings
import numpy as np
from .. import chain, compare, harness, report

RULE = ('one case = one product (written by the processor or random contents) or one pair of products, opened with the real '
        'inspector or comparator in notebook, directory or PDF mode; exposed arrays, ranges and names are compared with the '
        'independently decoded file, every figure drawn is captured and its data, limits and labels are compared with what was '
        'asked for, and the files written are compared with the figures drawn. Non-trivial = figures or arrays compared')
ASSUMPTIONS = ['the plotting libraries installed here are newer than those the project names: a few renamed arguments '
               '(hist(normed), gca(projection), tile names) are translated by the harness',
               'interactive widgets are driven by a stand-in for ipywidgets.interact; the map is captured, not rendered']


class V:
    """collects violations of one case"""
    def __init__(self, desc): self.L = compare.Log(desc)
    def __getattr__(self, n): return getattr(self.L, n)

    def eq(self, what, got, exp, tol=0.):
        self.L.n('values compared')
        try:
            g, e = (np.ma.filled(np.ma.asarray(a, dtype=float), np.nan) for a in (got, exp))
            ok = g.shape == e.shape and np.allclose(g, e, rtol=tol, atol=tol, equal_nan=True)
        except (TypeError, ValueError):
            ok = got == exp
        if not ok: self.L.bad('%s: %s, expected %s' % (what, short(got), short(exp)))
        return ok


def short(x): return re.sub(r'\s+', ' ', repr(x))[:160]


# ---- the file, decoded independently
def decode(path):
    import netCDF4
    d = types.SimpleNamespace(path=path)
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_maskandscale(False)
        d.dims = {k: len(v) for k, v in nc.dimensions.items()}
        d.attrs = {k: nc.getncattr(k) for k in nc.ncattrs()}
        d.vars = {}
        for n, v in nc.variables.items():
            raw = v[...]
            at = {k: v.getncattr(k) for k in v.ncattrs()}
            v.set_auto_mask(True); mask = np.ma.getmaskarray(np.ma.asarray(v[...])); v.set_auto_mask(False)
            x = np.asarray(raw, dtype=float)
            if 'scale_factor' in at: x = x * at['scale_factor']
            if 'add_offset' in at: x = x + at['add_offset']
            d.vars[n] = types.SimpleNamespace(data=np.ma.MaskedArray(x, mask), dims=v.dimensions, units=at.get('units'))
    S = '_l1b_echo_sar_ku'
    d.lat, d.lon = d.vars['lat' + S].data, d.vars['lon' + S].data
    d.time = d.vars['time' + S].data
    d.wf = d.vars['i2q2_meas_ku' + S].data * d.vars['scale_factor_ku' + S].data[:, None]
    return d


def product(rng, path, shape=None):
    """a product with random contents"""
    import netCDF4
    n, m = shape or (int(rng.integers(1, 12)), int(rng.integers(2, 24)))
    S = '_l1b_echo_sar_ku'
    with netCDF4.Dataset(path, 'w') as nc:
        nc.createDimension('time' + S, [None, n][rng.integers(2)]); nc.createDimension('echo_sample_ind', m); nc.createDimension('space_3d', 3)
        if rng.random() < .4: nc.createDimension('empty', None)
        for i in range(rng.integers(0, 4)): nc.setncattr('attr%d' % i, ['text', 5, 2.5][rng.integers(3)])
        T, E = ('time' + S,), ('time' + S, 'echo_sample_ind')
        v = nc.createVariable('time' + S, 'f8', T); v.units = 'seconds since 2000-01-01 00:00:00.0'; v.calendar = 'gregorian'
        v[:] = rng.uniform(0, 8e8) + np.sort(rng.uniform(0, 1e4, n))
        for k, lo, hi in (('lat', -85, 85), ('lon', -180, 180)):
            v = nc.createVariable(k + S, 'i4', T)
            if rng.random() < .8: v.scale_factor = 1e-6
            v.units = 'degrees'
            v[:] = rng.uniform(lo, hi, n) if 'scale_factor' in v.ncattrs() else rng.integers(lo, hi, n)
        v = nc.createVariable('scale_factor_ku' + S, ['f4', 'f8', 'i4'][rng.integers(3)], T)
        v[:] = rng.integers(1, 50, n) * float([1, -1, .5][rng.integers(3)])
        v = nc.createVariable('i2q2_meas_ku' + S, ['u4', 'i4', 'f8'][rng.integers(3)], E)
        if rng.random() < .3: v.units = 'count'
        v[:] = rng.integers(0, 60000, (n, m)) if rng.random() < .85 else np.full((n, m), 7)
        for i in range(rng.integers(1, 4)):
            v = nc.createVariable('one_%d' % i, ['f8', 'i2', 'i4'][rng.integers(3)], T, fill_value=[None, 77][rng.integers(2)])
            if rng.random() < .6: v.units = 'm/s'
            v[:] = rng.integers(-100, 100, n)
            if rng.random() < .3: v[0] = 77
        for i in range(rng.integers(1, 4)):
            dd = [E, ('time' + S, 'space_3d'), ('space_3d', 'echo_sample_ind')][rng.integers(3)]
            v = nc.createVariable('two_%d' % i, ['f8', 'i2', 'i4'][rng.integers(3)], dd, fill_value=[None, -5][rng.integers(2)])
            if rng.random() < .6: v.units = 'dB'
            v[:] = rng.integers(-100, 100, [dict({'time' + S: n, 'echo_sample_ind': m, 'space_3d': 3})[x] for x in dd]) * float(rng.integers(1, 5))
        if rng.random() < .4: nc.createVariable('scalar', 'f8', ())[...] = 4.
        if rng.random() < .3: nc.createVariable('three', 'f8', E + ('space_3d',))[:] = 1.
        if 'empty' in nc.dimensions:
            nc.createVariable('one_empty', 'f8', ('empty',)); nc.createVariable('two_empty', 'f8', ('empty', 'space_3d'))
    return path


# ---- observing figures
class Shot:
    def __init__(self, fig):
        import matplotlib.collections as mc
        self.axes = []
        for ax in fig.axes:
            if ax.get_label() == '<colorbar>': continue
            a = types.SimpleNamespace(xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), title=ax.get_title(), xlim=ax.get_xlim(), ylim=ax.get_ylim(),
                                      images=[(np.ma.array(i.get_array(), copy=True), i.get_clim()) for i in ax.images],
                                      lines=[np.array([np.ma.filled(np.ma.asarray(v, float), np.nan) for v in l.get_data()]) for l in ax.lines],
                                      bars=np.array([p.get_height() for p in ax.patches]), edges=[(p.get_x(), p.get_width()) for p in ax.patches],
                                      log=ax.get_yscale() == 'log', pos=ax.get_position().bounds)
            a.points = [np.ma.filled(c.get_offsets(), np.nan) for c in ax.collections if isinstance(c, mc.PathCollection)]
            a.counts = [np.array(c.get_array()) for c in ax.collections if type(c) is mc.PolyCollection and c.get_array() is not None]
            a.zlim = ax.get_zlim() if hasattr(ax, 'get_zlim') else None
            a.solids = len(ax.collections) if a.zlim is not None else None
            self.axes.append(a)

    @property
    def ax(self): return self.axes[0]


class Stage:
    """patched libraries: figures are captured when they are saved or shown"""
    def __init__(self, rng): self.rng, self.shots, self.maps, self.asked = rng, [], [], []

    def interact(self, f, **kw):
        import ipywidgets
        args, free = {}, {}
        for k, v in kw.items():
            if isinstance(v, ipywidgets.fixed): args[k] = v.value
            elif isinstance(v, ipywidgets.Dropdown): free[k] = list(v.options)
            elif isinstance(v, (ipywidgets.IntSlider,)): free[k] = v
            elif isinstance(v, tuple) and len(v) == 2: free[k] = list(range(v[0], v[1] + 1))
            elif isinstance(v, (list, tuple)): free[k] = list(v)
            else: args[k] = v
        for rep in range(3):
            a = dict(args)
            for k, v in free.items():
                if isinstance(v, list):
                    w = kw[k]
                    if isinstance(w, ipywidgets.Dropdown):
                        o = list(w.options)
                        a[k] = o[self.rng.integers(len(o))] if rep else w.value
                        w.value = a[k]
                    else: a[k] = v[self.rng.integers(len(v))]
            for k, w in kw.items():
                if isinstance(w, ipywidgets.Dropdown): a[k] = w.value
            for k, v in free.items():
                if not isinstance(v, list): a[k] = [v.min, v.max, int(self.rng.integers(v.min, v.max + 1))][rep]
            n = len(self.shots)
            f(**a)
            self.asked.append((a, {k: v for k, v in free.items() if isinstance(v, list)}, self.shots[n:]))

    @contextlib.contextmanager
    def __call__(self):
        import matplotlib.figure, matplotlib.axes, matplotlib.pyplot as plt
        if 'bokeh.util.platform' not in sys.modules: sys.modules['bokeh.util.platform'] = types.ModuleType('bokeh.util.platform')
        import bokeh.io, bokeh.plotting, bokeh.model, ipywidgets
        st = self
        F, A = matplotlib.figure.Figure, matplotlib.axes.Axes
        save, gca, hist = F.savefig, F.gca, A.hist

        def savefig(fig, *a, **k):
            st.shots.append(Shot(fig))
            return save(fig, *a, **k)

        def show(*a, **k):
            st.shots.extend(Shot(plt.figure(n)) for n in plt.get_fignums()[-1:])

        def gca_(fig, projection=None, **k):
            return fig.add_subplot(projection=projection) if projection else gca(fig)

        def hist_(ax, *a, **k):
            if 'normed' in k: k['density'] = k.pop('normed')
            return hist(ax, *a, **k)
        bfig = bokeh.plotting.figure
        bfig = bfig if isinstance(bfig, type) else type(bokeh.plotting.figure())
        tile = bfig.add_tile

        def add_tile(fig, *a, **k):
            if not isinstance(a[0], str): tile(fig, *a, **k)
        ps = [mock.patch.object(F, 'savefig', savefig), mock.patch.object(F, 'gca', gca_), mock.patch.object(A, 'hist', hist_),
              mock.patch.object(plt, 'show', show), mock.patch('bokeh.io.show', lambda f, *a, **k: st.maps.append((f, None))),
              mock.patch('bokeh.io.save', self.save_map), mock.patch('bokeh.io.output_notebook', lambda *a, **k: None),
              mock.patch.object(bfig, 'add_tile', add_tile), mock.patch('ipywidgets.interact', self.interact)]
        with contextlib.ExitStack() as es:
            for p in ps: es.enter_context(p)
            import dedop.ui.inspect as I, dedop.ui.compare as C
            for m in (I, C):
                for n in ('show', 'save', 'output_notebook'):
                    if hasattr(m, n): es.enter_context(mock.patch.object(m, n, getattr(bokeh.io, n)))
            if hasattr(I, 'interact'): es.enter_context(mock.patch.object(I, 'interact', self.interact))
            plt.rcParams['savefig.dpi'] = plt.rcParams['figure.dpi'] = 20
            yield I, C
            plt.close('all')

    def save_map(self, f, path, *a, **k):
        with open(path, 'w') as fp: fp.write('map')
        self.maps.append((f, path))


def lim(v, data):
    """default limits: the data range"""
    return (data.min() if v[0] is None else v[0], data.max() if v[1] is None else v[1])


def pick(rng, data):
    """requested limits, zero included"""
    lo, hi = float(np.ma.min(data)), float(np.ma.max(data))
    a = [None, None, 0, 0., lo - 1, lo / 2, -3.5][rng.integers(7)]
    b = [None, None, 0, hi + 2, hi / 2 + 5, 12.][rng.integers(6)]
    if a is not None and b is not None and a >= b: b = a + 1.5
    if a is not None and b is None and a >= hi: a = None
    if b is not None and a is None and b <= lo: b = None
    return a, b


def check_image(v, what, img, data, limits):
    if len(img) != 1: return v.bad('%s: %d images' % (what, len(img)))
    v.eq(what + ': image', img[0][0], data)
    e = lim(limits, data)
    if e[0] != e[1]: v.eq(what + ': colour limits', list(img[0][1]), list(e))


def named(v, what, text, *parts):
    for p in parts:
        if str(p) not in text: v.bad('%s: label %r does not name %r' % (what, text, p))


def bars(v, what, a, data, limits, n, parts=1):
    lo, hi = limits
    if lo == hi: hi = lo + 1
    b = a.bars.reshape(parts, -1) if len(a.bars) % parts == 0 else np.zeros((0, 0))
    for k, x in enumerate(data):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            h, e = np.histogram(np.ma.compressed(x.flatten()), bins=n, range=(lo, hi), density=True)
        if len(b) <= k or b[k].shape != h.shape: return v.bad('%s: %s bars, expected %d of %d' % (what, a.bars.shape, parts, n))
        if np.isfinite(h).all(): v.eq(what + ': bar heights', b[k], h, 1e-6 * max(1e-12, np.abs(h).max()))
        ed = np.array(a.edges).reshape(parts, n, 2)[k]
        v.eq(what + ': bar positions', ed[:, 0], e[:-1], 1e-6 * max(abs(lo), abs(hi), hi - lo))


def exposed(v, p, d):
    S = ' of ' + os.path.basename(d.path)
    v.eq('file_path', os.path.realpath(p.file_path), os.path.realpath(d.path))
    v.eq('dim_names' + S, list(p.dim_names), sorted(d.dims)); v.eq('var_names' + S, list(p.var_names), sorted(d.vars))
    v.eq('dim_name_to_size' + S, dict(p.dim_name_to_size), d.dims)
    by = {}
    for n, x in d.vars.items(): by.setdefault(tuple(x.dims), set()).add(n)
    v.eq('dim_names_to_var_names' + S, {tuple(k): set(x) for k, x in p.dim_names_to_var_names.items()}, by)
    if {k: str(x) for k, x in p.attributes.items()} != {k: str(x) for k, x in d.attrs.items()}: v.bad('attributes: %s, expected %s' % (short(p.attributes), short(d.attrs)))
    for n in ('lat', 'lon'):
        x = getattr(d, n)
        v.eq(n + S, getattr(p, n), x, 1e-9); v.eq(n + '_0' + S, getattr(p, n + '_0'), x.mean(), 1e-9)
        v.eq(n + '_range' + S, list(getattr(p, n + '_range')), [x.min(), x.max()], 1e-9)
    ref = datetime.datetime(2000, 1, 1)

    def secs(t): return (datetime.datetime(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond) - ref).total_seconds()
    v.eq('time' + S, [secs(t) for t in p.time], d.time, 1e-9 + 2e-6 / 1e8 + 1e-5)
    v.eq('time_0' + S, secs(p.time_0), d.time.mean(), 1e-5)
    v.eq('time_range' + S, [secs(t) for t in p.time_range], [d.time.min(), d.time.max()], 1e-5)
    v.eq('waveform' + S, p.waveform, d.wf, 1e-6); v.eq('waveform_range' + S, list(p.waveform_range), [d.wf.min(), d.wf.max()], 1e-6)
    v.eq('num_times' + S, p.num_times, d.wf.shape[0]); v.eq('num_samples' + S, p.num_samples, d.wf.shape[1])
    v.eq('echo_sample_ind' + S, p.echo_sample_ind, np.arange(d.wf.shape[1]))
    if not p.dataset.isopen(): v.bad('the dataset is not open')


def mercator(lon, lat):
    R = 6378137.
    return R * np.radians((np.ma.asarray(lon) + 180) % 360 - 180), R * np.log(np.tan(np.pi / 4 + np.radians(lat) / 2))


def check_map(v, st, ds, out):
    if len(st.maps) != 1: return v.bad('locations: %d maps' % len(st.maps))
    fig, path = st.maps.pop()
    glyphs = [r for r in fig.renderers if hasattr(r, 'data_source')]
    if len(glyphs) != len(ds): return v.bad('locations: %d sets of points' % len(glyphs))
    X = []
    for g, d in zip(glyphs, ds):
        src = g.data_source.data
        x, y = mercator(d.lon, d.lat)
        v.eq('locations: x', np.asarray(src[g.glyph.x if isinstance(g.glyph.x, str) else 'x'], float), x, 1e-8)
        v.eq('locations: y', np.asarray(src['y'], float), y, 1e-6)
        X.append((x, y))
    for r, k in ((fig.x_range, 0), (fig.y_range, 1)):
        v.eq('locations: map extent', [r.start, r.end], [min(x[k].min() for x in X), max(x[k].max() for x in X)], 1e-6)
    if (path is None) != (out is None) or path and os.path.realpath(path) != os.path.realpath(os.path.join(out, 'fig-locations.html')):
        v.bad('locations saved as %s' % path)
    v.n('maps')


def draw(v, st, rng, mode, out, fn, name, n=1):
    """calls fn, -> the figures it drew (checked to be n), remembering the file name"""
    import matplotlib.pyplot as plt
    k = len(st.shots)
    with harness.quiet(): fn()
    new = st.shots[k:]
    v.n('figures', len(new))
    if len(new) != n: v.bad('%s: %d figures, expected %d' % (name, len(new), n)); return None
    if mode == 'dir' and n:
        f = os.path.join(out, name)
        if not os.path.isfile(f): v.bad('figure file %s not written (there: %s)' % (name, sorted(os.listdir(out)) if os.path.isdir(out) else None))
        else: st.files.add(name)
    plt.close('all')
    return new[0] if n else None


def inspector_plots(v, st, rng, mode, out, p, d):
    """a random sequence of figures"""
    import dedop.ui.inspect  # noqa
    S = '_l1b_echo_sar_ku'
    inter = mode == 'notebook'
    two = sorted(n for n, x in d.vars.items() if len(x.dims) == 2 and all(d.dims[k] for k in x.dims))
    one = sorted(n for n, x in d.vars.items() if len(x.dims) == 1 and d.dims[x.dims[0]])
    P = p.plot
    for what in rng.permutation(['wim', 'im', 'im', 'im', 'hist', 'wline', 'wline', 'line', 'line', 'iml', 'iml', 'iml', '3d', 'map', 'bad', 'imi', 'wli', 'imli', 'lini', 'same'])[:11]:
        if v.viol: return
        if what == 'wim':
            z = pick(rng, d.wf)
            s = draw(v, st, rng, mode, out, lambda: P.waveform_im(vmin=z[0], vmax=z[1]), 'fig-waveform-im.png')
            if s: check_image(v, 'waveform_im%s' % (z,), s.ax.images, d.wf, z)
        elif what == 'im' and two:
            n = two[rng.integers(len(two))]; x = d.vars[n]; z = pick(rng, x.data)
            if x.data.mask.all(): continue
            s = draw(v, st, rng, mode, out, lambda: P.im(n, zmin=z[0], zmax=z[1]), 'fig-%s.png' % n)
            if s:
                check_image(v, 'im(%r, %s)' % (n, z), s.ax.images, x.data, z)
                named(v, 'im', s.ax.title, n, x.units or '?'); named(v, 'im', s.ax.xlabel, x.dims[1]); named(v, 'im', s.ax.ylabel, x.dims[0])
        elif what == 'hist':
            z = pick(rng, d.wf); nb = int(rng.choice([4, 16, 128])); lg = bool(rng.integers(2))
            s = draw(v, st, rng, mode, out, lambda: P.waveform_hist(vmin=z[0], vmax=z[1], bins=nb, log=lg), 'fig-waveform-hist.png')
            if s:
                bars(v, 'waveform_hist%s' % (z,), s.ax, [d.wf], lim(z, d.wf), nb)
                if s.ax.log != lg: v.bad('waveform_hist: log=%s' % lg)
        elif what == 'wline':
            i = [None, 0, int(rng.integers(d.wf.shape[0])), -1 if not inter else 0][rng.integers(4)]
            if inter and i is None: continue
            r = [None, 0, int(rng.integers(d.wf.shape[0]))][rng.integers(3)]
            s = draw(v, st, rng, mode, out, lambda: P.waveform_line(ind=i, ref_ind=r), 'fig-waveform-x-%d.png' % (i or 0))
            if s:
                e = [np.array([np.arange(d.wf.shape[1]), np.ma.filled(d.wf[i or 0], np.nan)])] + ([np.array([np.arange(d.wf.shape[1]), np.ma.filled(d.wf[r], np.nan)])] if r is not None else [])
                if len(s.ax.lines) != len(e): v.bad('waveform_line(%s, %s): %d lines' % (i, r, len(s.ax.lines)))
                else:
                    for a, b in zip(s.ax.lines, e): v.eq('waveform_line(%s, %s)' % (i, r), a, b, 1e-6)
        elif what == 'line':
            a, b = ['index'] + one if rng.random() < .3 else one, None
            xn, yn = a[rng.integers(len(a))], one[rng.integers(len(one))]
            if xn != 'index' and d.vars[xn].dims != d.vars[yn].dims: continue
            s = draw(v, st, rng, mode, out, lambda: P.line(x=xn, y=yn), 'fig-%s-over-%s.png' % (xn, yn))
            check_line(v, s, d, xn, yn)
        elif what == 'iml' and two:
            n = two[rng.integers(len(two))]; x = d.vars[n]; z = pick(rng, x.data)
            if x.data.mask.all(): continue
            xi, yi = [None, 0, int(rng.integers(x.data.shape[1]))][rng.integers(3)], [None, 0, int(rng.integers(x.data.shape[0]))][rng.integers(3)]
            if inter and (xi is None or yi is None): continue
            f = 'fig-%s%s%s.png' % (n, '' if xi is None else '-x-%s' % xi, '' if yi is None else '-y-%s' % yi)
            s = draw(v, st, rng, mode, out, lambda: P.im_line(n, zmin=z[0], zmax=z[1], xind=xi, yind=yi), f)
            check_imline(v, s, d, n, z, xi, yi)
        elif what == '3d':
            t = str(rng.choice(['surf', 'poly', 'line'])); zmin = [None, 0, -4.][rng.integers(3)]; zmax = [None, float(d.wf.max()) + 7][rng.integers(2)]
            if d.wf.shape[0] < 2 or d.wf.min() == d.wf.max() or zmin is not None and zmin >= (zmax if zmax is not None else d.wf.max()): continue
            s = draw(v, st, rng, mode, out, lambda: getattr(P, 'waveform_3d_' + t)(zmin=zmin, zmax=zmax), 'fig-waveform-3d-%s.png' % t)
            if s:
                v.eq('waveform_3d_%s limits' % t, [sorted(s.ax.xlim), sorted(s.ax.ylim), list(s.ax.zlim)],
                     [[0, d.wf.shape[1] - 1], [0, d.wf.shape[0] - 1], list(lim((zmin, zmax), d.wf))], 1e-6)
                if s.ax.solids != 1: v.bad('waveform_3d_%s draws %s objects' % (t, s.ax.solids))
        elif what == 'map':
            with harness.quiet() as o: P.locations()
            if mode == 'pdf':
                if st.maps: v.bad('locations: a map in PDF mode')
                if 'locations' not in o.getvalue(): v.bad('locations: not reported as impossible in PDF mode')
            else:
                check_map(v, st, [d], out if mode == 'dir' else None)
                if mode == 'dir': st.files.add('fig-locations.html')
        elif what == 'bad':
            for f in (lambda: P.im('no_such'), lambda: P.im(one[0]), lambda: P.im_line('no_such', xind=0, yind=0), lambda: P.im_line(one[0], xind=0, yind=0)):
                with harness.quiet() as o:
                    k = len(st.shots); f()
                if len(st.shots) != k or 'rror' not in o.getvalue(): v.bad('a figure of something that is no image: %r' % o.getvalue())
            if not inter:
                for f in (lambda: P.im(), lambda: P.line(), lambda: P.line(x=one[0]), lambda: P.im_line()):
                    try: f(); v.bad('a figure of nothing')
                    except ValueError: pass
        elif what == 'same' and mode == 'dir' and two:
            n = two[0]
            if d.vars[n].data.mask.all(): continue
            draw(v, st, rng, mode, out, lambda: P.im(n), 'fig-%s.png' % n)
        elif inter and what in ('imi', 'wli', 'imli', 'lini'):
            widgets(v, st, rng, p, d, what, one, two)


def check_line(v, s, d, xn, yn):
    if not s: return
    y = d.vars[yn]
    x = np.arange(len(y.data)) if xn == 'index' else d.vars[xn].data
    if len(s.ax.lines) != 1: return v.bad('line(%s, %s): %d lines' % (xn, yn, len(s.ax.lines)))
    v.eq('line(%s, %s)' % (xn, yn), s.ax.lines[0], np.array([np.ma.filled(np.ma.asarray(x, float), np.nan), np.ma.filled(y.data, np.nan)]), 1e-9)
    named(v, 'line', s.ax.xlabel, xn); named(v, 'line', s.ax.ylabel, yn, y.units or '?')


def check_imline(v, s, d, n, z, xi, yi):
    if not s: return
    x = d.vars[n]; w = 'im_line(%r, %s, %s, %s)' % (n, z, xi, yi)
    main = [a for a in s.axes if a.images]
    if len(main) != 1: return v.bad('%s: %d images' % (w, len(main)))
    check_image(v, w, main[0].images, x.data, z)
    named(v, w, main[0].xlabel, x.dims[1]); named(v, w, main[0].ylabel, x.dims[0])
    marks = {('v' if l[0][0] == l[0][-1] and list(l[1]) == [0, 1] else 'h', l[0][0] if list(l[1]) == [0, 1] else l[1][0]) for l in main[0].lines}
    e = ({('v', float(xi))} if xi is not None else set()) | ({('h', float(yi))} if yi is not None else set())
    if marks != e: v.bad('%s: marks %s, expected %s' % (w, marks, e))
    rest = [a for a in s.axes if a.lines and not a.images]
    f = lambda q: np.ma.filled(q, np.nan)
    exp = ([np.array([np.arange(x.data.shape[1]), f(x.data[yi])])] if yi is not None else []) + ([np.array([f(x.data[:, xi]), np.arange(x.data.shape[0])])] if xi is not None else [])
    if len(rest) != len(exp): return v.bad('%s: %d sections, expected %d' % (w, len(rest), len(exp)))
    for a, b in zip(rest, exp): v.eq(w + ': section', a.lines[0] if len(a.lines) == 1 else None, b, 1e-9)


def widgets(v, st, rng, p, d, what, one, two):
    """interactive selection in a notebook"""
    import matplotlib.pyplot as plt
    P = p.plot
    st.asked.clear()
    if any(d.vars[n].data.mask.all() for n in two): return
    big = max((abs(d.vars[n].data).max() for n in two), default=1.)
    z = [(None, None), (-2. * big - 1, 3. * big + 1), (None, 3. * big + 1), (-2. * big - 1, None)][rng.integers(4)]
    with harness.quiet():
        if what == 'imi' and two: P.im(zmin=z[0], zmax=z[1])
        elif what == 'wli':
            r = [None, 0][rng.integers(2)]; P.waveform_line(ref_ind=r)
        elif what == 'imli' and two:
            kw = dict(); n = None
            if rng.random() < .5: n = two[rng.integers(len(two))]; kw['z'] = n
            if rng.random() < .3: kw['xind'] = 0
            if rng.random() < .3: kw['yind'] = 0
            if len(kw) == 3: del kw['yind']
            P.im_line(zmin=z[0], zmax=z[1], **kw)
        elif what == 'lini': P.line()
        else: return
    for a, free, shots in st.asked:
        v.n('figures', len(shots)); v.n('widget settings')
        if len(shots) != 1: v.bad('%s with %s: %d figures' % (what, a, len(shots))); continue
        s = shots[0]
        if what == 'imi':
            n = a['z_name']
            check_image(v, 'im() showing %r' % n, s.ax.images, d.vars[n].data, z)
            if sorted(free.get('z_name', [])) != two: v.bad('im() offers %s, expected %s' % (free, two))
        elif what == 'wli':
            i = [x for k, x in a.items() if 'ref' not in k][0]
            v.eq('waveform_line() at %s' % i, s.ax.lines[0][1], np.ma.filled(d.wf[i], np.nan), 1e-6)
            opts = [x for x in free.values()]
            if opts != [list(range(d.wf.shape[0]))]: v.bad('waveform_line() offers %s' % opts)
        elif what == 'imli':
            check_imline(v, s, d, a['z_name'], z, a.get('xind'), a.get('yind'))
        else: check_line(v, s, d, a['x_name'], a['y_name'])
    plt.close('all')


def comparator_plots(v, st, rng, mode, out, c, d1, d2):
    P = c.plot
    delta = d1.wf - d2.wf
    both = np.ma.concatenate([d1.wf.flatten(), d2.wf.flatten()])
    for what in rng.permutation(['im', 'hist', 'dhist', 'scatter', 'hexbin', 'map'])[:5]:
        if v.viol: return
        data = delta if what in ('im', 'dhist') else both
        z = pick(rng, data); kw = dict(vmin=z[0], vmax=z[1]); l = lim(z, data)
        l = l if l[0] != l[1] else (l[0], l[0] + 1)
        if what == 'im':
            s = draw(v, st, rng, mode, out, lambda: P.waveforms_delta_im(**kw), 'fig-waveform_delta-im.png')
            if s: check_image(v, 'waveforms_delta_im%s' % (z,), s.ax.images, delta, z)
        elif what in ('hist', 'dhist'):
            nb = int(rng.choice([4, 16, 128])); lg = bool(rng.integers(2))
            s = draw(v, st, rng, mode, out, lambda: (P.waveforms_hist if what == 'hist' else P.waveforms_delta_hist)(bins=nb, log=lg, **kw),
                     'fig-waveforms-hist.png' if what == 'hist' else 'fig-waveforms_delta-hist.png')
            if s: bars(v, 'waveforms_%s%s' % (what, z), s.ax, [d1.wf, d2.wf] if what == 'hist' else [delta], l, nb, 2 if what == 'hist' else 1)
        elif what == 'scatter':
            s = draw(v, st, rng, mode, out, lambda: P.waveforms_scatter(**kw), 'fig-waveforms-scatter.png')
            if s and len(s.ax.points) == 1:
                v.eq('waveforms_scatter%s' % (z,), s.ax.points[0], np.array([d1.wf.flatten(), d2.wf.flatten()]).T, 1e-6)
                v.eq('waveforms_scatter%s axes' % (z,), list(s.ax.xlim) + list(s.ax.ylim), list(l) * 2, 1e-6)
            elif s: v.bad('waveforms_scatter: %d point sets' % len(s.ax.points))
        elif what == 'hexbin':
            if np.ptp(d1.wf) == 0 or np.ptp(d2.wf) == 0: continue
            lg = bool(rng.integers(2))
            s = draw(v, st, rng, mode, out, lambda: P.waveforms_hexbin(log=lg, **kw), 'fig-waveforms-hexbin.png')
            if s:
                v.eq('waveforms_hexbin%s axes' % (z,), list(s.ax.xlim) + list(s.ax.ylim), list(l) * 2, 1e-6)
                if len(s.ax.counts) == 1 and abs(np.nansum(s.ax.counts[0]) - d1.wf.size) > .5: v.bad('waveforms_hexbin counts %s of %s' % (np.nansum(s.ax.counts[0]), d1.wf.size))
        elif what == 'map':
            with harness.quiet(): P.locations()
            if mode == 'pdf':
                if st.maps: v.bad('locations: a map in PDF mode')
            else:
                check_map(v, st, [d1, d2], out if mode == 'dir' else None)
                if mode == 'dir': st.files.add('fig-locations.html')


def pages(path):
    with open(path, 'rb') as fp: t = fp.read()
    if not t.startswith(b'%PDF') or b'%%EOF' not in t[-64:]: return -1
    return len(re.findall(rb'/Type /Page\b(?!s)', t))


def case(seed, kind):
    """kind: 'chain' (product of the real processor), 'one', 'two', 'writer'"""
    rng = np.random.default_rng([25, seed])
    v = V(dict(seed=seed, kind=kind))
    base = os.path.join(report.SCRATCH, 'c25', '%s_%d' % (kind, seed))
    os.makedirs(base)
    warnings.simplefilter('ignore')
    import netCDF4  # noqa
    try:
        st = Stage(rng); st.files = set()
        with st() as (I, C):
            if kind == 'writer': writer(v, rng, base); return v.viol, v.counts, v.desc
            mode = str(rng.choice(['notebook', 'dir', 'pdf']))
            v.desc['mode'] = mode
            name, fmt = {'dir': [('figs', None), ('figs/sub', 'dir'), ('a.figs', 'DIR')], 'pdf': [('o.pdf', None), ('sub/o.PDF', None), ('o', 'pdf'), ('o.pdf', 'PDF')],
                         'notebook': [(None, None)] * 3}[mode][rng.integers(3)]
            if kind == 'chain':
                s, r, L = chain.setup(seed, [None, 'utc', 'narrow'][seed % 3])
                if s is None or r.error is not None or r.l1b is None: return L.viol, L.counts, L.desc
                paths = [r.l1b]
                v.desc.update(s.desc)
            else:
                shape = int(rng.integers(1, 12)), int(rng.integers(2, 24))
                paths = [product(rng, os.path.join(base, 'p1.nc'), shape)]
                if kind == 'two':
                    same = rng.random() < .15
                    paths.append(shutil.copy(paths[0], os.path.join(base, 'p2.nc')) if same else product(rng, os.path.join(base, 'p2.nc'), shape))
            keep = {p: open(p, 'rb').read() for p in paths}
            ds = [decode(p) for p in paths]
            path = os.path.join(base, name) if name else None
            out = path if mode != 'pdf' else (path if '.' in name else path + '.pdf')
            kw = {} if path is None else dict(output_path=path) if fmt is None else dict(output_path=path, output_format=fmt)
            with harness.quiet():
                o = I.inspect_l1b_product(paths[0], **kw) if kind != 'two' else C.compare_l1b_products(paths[0], paths[1], **kw)
            if kind != 'two':
                exposed(v, o, ds[0])
                inspector_plots(v, st, rng, mode, out, o, ds[0])
                insp = [o]
            else:
                insp = [o.p1, o.p2]
                for p, d in zip(insp, ds): exposed(v, p, d)
                v.eq('file_paths', [os.path.realpath(x) for x in o.file_paths], [os.path.realpath(x) for x in paths])
                if o.datasets != (o.p1.dataset, o.p2.dataset): v.bad('datasets are not those of the two products')
                for a, d in zip(o.waveforms, ds): v.eq('waveforms', a, d.wf, 1e-6)
                scale = max(1., float(np.abs(ds[0].wf).max()), float(np.abs(ds[1].wf).max()))
                v.eq('waveforms_delta', o.waveforms_delta / scale, (ds[0].wf - ds[1].wf) / scale, 1e-6)
                v.eq('waveforms_delta_range', [x / scale for x in o.waveforms_delta_range], [(ds[0].wf - ds[1].wf).min() / scale, (ds[0].wf - ds[1].wf).max() / scale], 1e-6)
                comparator_plots(v, st, rng, mode, out, o, *ds)
            o.close()
            if any(p.dataset.isopen() for p in insp): v.bad('close() leaves the product open')
            if not v.viol:
                if mode == 'pdf':
                    n = len(st.shots)
                    g = pages(out) if os.path.exists(out) else 0
                    if g != n: v.bad('%d pages in the PDF document, %d figures were drawn' % (g, n))
                    v.n('PDF pages', n)
                elif mode == 'dir':
                    have = set(os.listdir(out)) if os.path.isdir(out) else set()
                    if have != st.files: v.bad('figure files %s, expected %s' % (sorted(have), sorted(st.files)))
            if any(open(p, 'rb').read() != b for p, b in keep.items()): v.bad('the product was changed')
            if kind == 'chain': shutil.rmtree(s.dir, ignore_errors=True)
        return v.viol, v.counts, v.desc
    finally:
        shutil.rmtree(base, ignore_errors=True)


def writer(v, rng, base):
    """refusals and output formats"""
    import netCDF4, matplotlib.pyplot as plt
    import dedop.ui.inspect as I, dedop.ui.compare as C
    from dedop.ui.figurewriter import FigureWriter
    good = product(rng, os.path.join(base, 'good.nc'), (5, 7))
    other = product(rng, os.path.join(base, 'other.nc'), (5, 8)); other2 = product(rng, os.path.join(base, 'other2.nc'), (6, 7))
    none = os.path.join(base, 'none.nc')
    with netCDF4.Dataset(none, 'w') as nc: nc.createDimension('x', 2); nc.createVariable('y', 'f8', ('x',))

    def refused(what, f, kinds):
        v.n('refusals')
        with harness.quiet():
            try: f(); v.bad('%s is accepted' % what)
            except kinds: pass
    for bad in (None, ''):
        refused('product %r' % bad, lambda: I.inspect_l1b_product(bad), ValueError)
        refused('product %r' % bad, lambda: C.compare_l1b_products(bad, good), ValueError)
        refused('product %r' % bad, lambda: C.compare_l1b_products(good, bad), ValueError)
        refused('output path %r' % bad, lambda: FigureWriter(bad, 'pdf'), ValueError)
    refused('a file that is no product', lambda: I.inspect_l1b_product(none), ValueError)
    refused('a file that is no product', lambda: C.compare_l1b_products(good, none), ValueError)
    refused('a missing file', lambda: I.inspect_l1b_product(os.path.join(base, 'zz.nc')), OSError)
    for x in (other, other2): refused('a pair of different shapes', lambda: C.compare_l1b_products(good, x), ValueError)
    for p, f in (('a.png', None), ('a.txt', None), ('a', 'png'), ('a.pdf', 'x'), ('x.dat', 'pdf'), ('d/', 'pdf'), ('', 'dir')):
        refused('output %r %r' % (p, f), lambda: FigureWriter(os.path.join(base, p) if p else p, f), ValueError)
    for p, f, fm, q in (('a.pdf', None, 'pdf', 'a.pdf'), ('b.PDF', None, 'pdf', 'b.PDF'), ('c', 'pdf', 'pdf', 'c.pdf'), ('d', None, 'dir', 'd'),
                        ('e.pdf', 'dir', 'dir', 'e.pdf'), ('f.png', 'dir', 'dir', 'f.png'), ('g/h.pdf', 'Pdf', 'pdf', 'g/h.pdf'), ('i/j', 'DIR', 'dir', 'i/j')):
        w = FigureWriter(os.path.join(base, p), f)
        v.eq('format of %r %r' % (p, f), [w.output_format, w.output_path], [fm, os.path.join(base, q)])
        if os.path.exists(w.output_path): v.bad('output %r exists before a figure is saved' % p)
        n = int(rng.integers(0, 4)) if rng.random() < .8 else int(rng.integers(8, 25))
        for i in range(n):
            plt.figure(); plt.plot([1, i]); w.savefig('x%d.png' % (i % 2)); plt.close('all')
        w.close(); w.close()
        got = (pages(w.output_path) if fm == 'pdf' else len(os.listdir(w.output_path))) if os.path.exists(w.output_path) else 0
        v.eq('figures in %r' % p, got, n if fm == 'pdf' else min(n, 2))
        if fm == 'dir': refused('a figure without a name', lambda: w.savefig(), ValueError)


def run(ck):
    n = 400 if ck.thorough else 60
    b = ck.seed * 1000
    jobs = [(b + i, 'one') for i in range(n)] + [(b + i, 'two') for i in range(n // 2)] + [(b + i, 'chain') for i in range(n // 4)] + \
           [(b + i, 'writer') for i in range(4)]
    chain.many(ck, 'vmon.checks.c25', 'case', jobs)
