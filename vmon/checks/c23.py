"""Web service: random request histories on the real service object, every step compared with the model of the folder."""
import copy, json, os, shutil, unittest.mock as mock
from types import SimpleNamespace as NS
import numpy as np, netCDF4 as nc
from .. import fakeproc, chain, compare, harness, scen, synth, tree, wsops

RULE = ('one case = one history of about 70 requests (all workspace, configuration, input, output and notebook requests) on the '
        'service object, arguments passed through JSON; after every request the complete file tree, the JSON form of the result '
        'and errors are compared with the model. Also processing requests compared with direct runs, and the file information '
        'requests on random input files. Non-trivial = requests executed')
ASSUMPTIONS = ['the JSON-RPC transport (package cate, tornado) is not installed here: the service object is called as the transport '
               'would, with a stand-in monitor', 'notebooks are replaced by stand-ins that record the call']


def J(x):
    """what the client receives; refuses what JSON cannot express"""
    return json.loads(json.dumps(x))


class Service:
    """presents the service to the model-based driver under the manager's names"""
    def __init__(self, svc, sim):
        self.s, self.sim = svc, sim

    def ws(self, d):
        d = J(d)
        return NS(name=d['name'], workspace_dir=d['workspace_dir'], is_current=d['is_current'])

    def create_workspace(self, n): return self.ws(self.s.new_workspace(n))
    def copy_workspace(self, a, b): return self.ws(self.s.copy_workspace(a, b))
    def rename_workspace(self, a, b): return self.ws(self.s.rename_workspace(a, b))
    def delete_workspace(self, n): return J(self.s.delete_workspace(n))
    def set_current_workspace_name(self, n): return self.ws(self.s.set_current_workspace(n))
    def get_current_workspace(self): return self.ws(self.s.get_current_workspace())
    def get_workspaces(self): return J(self.s.get_all_workspaces())['workspaces']
    def get_workspace_names(self): return [w['name'] for w in self.get_workspaces()]
    def workspace_exists(self, n): return n in self.get_workspace_names()
    def create_config(self, w, c, cryosat): return J(self.s.add_new_config(w, c, cryosat))
    def delete_config(self, w, c): return J(self.s.delete_config(w, c))
    def copy_config(self, w, c, n): return J(self.s.copy_config(w, c, n))
    def rename_config(self, w, c, n): return J(self.s.rename_config(w, c, n))
    def set_current_config_name(self, w, c): return J(self.s.set_current_config(w, c))
    def get_current_config_name(self, w): return J(self.s.get_current_config(w))['name']
    def get_config_names(self, w): return J(self.s.get_config_names(w))
    def add_inputs(self, w, ps, mon): return J(self.s.add_input_files(w, J(ps)))
    def remove_inputs(self, w, ns, mon): return J(self.s.remove_input_files(w, J(ns)))
    def get_output_names(self, w, c, pat=None): return J(self.s.get_output_names(w, c))
    def get_notebook_names(self, w): return J(self.s.get_notebook_file_names(w))
    def remove_outputs(self, w, c): return J(self.s.remove_output_files(w, c))
    def inspect_l1b_product(self, w, p): return J(self.s.inspect_output(w, p))
    def compare_l1b_products(self, w, a, b): return J(self.s.compare_outputs(w, a, b))


class Web(wsops.Sim):
    strip = False

    def __init__(self, rng, L):
        from . import c21
        c21.stubs()
        from dedop.webapi.websocket import WebSocketService
        super().__init__(rng, L)
        self.manager = self.m
        self.svc = WebSocketService(self.manager)
        self.m = Service(self.svc, self)

    def first(self, have):
        return ('default' if 'default' in have else have[0] if have else '').encode()

    def delete_workspace(self):
        n = self.anyws()
        ok = self.has(n)
        new = tree.put(tree.remove(self.t, n), '.current', self.first([w for w in self.ws() if w != n])) if ok else None
        self.do('delete_workspace(%r)' % n, lambda: self.m.delete_workspace(n), ok, new)

    def delete_config(self):
        w = self.anyws(.95)
        c = self.anycfg(w)
        ok = self.cfg_ok(w, c)
        new = tree.put(tree.remove(self.t, '%s/configs/%s' % (w, c)), w + '/configs/.current',
                       self.first([x for x in self.cfgs(w) if x != c])) if ok else None
        self.do('delete_config(%r, %r)' % (w, c), lambda: self.m.delete_config(w, c), ok, new)

    # requests whose monitor is not visible here
    def add_inputs(self):
        with mock.patch.object(wsops.Mon, 'problem', lambda *a: None): super().add_inputs()

    def remove_inputs(self):
        with mock.patch.object(wsops.Mon, 'problem', lambda *a: None): super().remove_inputs()

    def list_inputs(self):
        w = self.anyws(.97)
        if not self.has(w): return
        with harness.quiet():
            for c in self.cfgs(w) + ['missing']:
                self.expect('get_output_names(%r, %r)' % (w, c), list(self.m.get_output_names(w, c)),
                            self.match(self.files('%s/configs/%s/outputs' % (w, c)), None))
            self.expect('get_notebook_file_names(%r)' % w, list(self.m.get_notebook_names(w)),
                        [n for n in self.files(w + '/notebooks') if n.endswith('.ipynb')])

    def launch(self):
        w = self.anyws(1)
        if not self.has(w): return
        n = self.ch(self.files(w + '/notebooks') + ['x.ipynb'])
        called = []
        with fakeproc.fake(called.append):
            self.do('launch_notebook(%r, %r)' % (w, n), lambda: J(self.svc.launch_notebook(w, n)), True)
        d = os.path.join(self.root, w, 'notebooks')
        t = wsops.started(called, d, os.path.join(d, n))
        if t: self.L.bad('launch_notebook(%r, %r): %s' % (w, n, t))

    def stored(self, w, c):
        """parameters of a configuration, None where not readable"""
        out = {}
        for k in ('CHD', 'CNF', 'CST'):
            try:
                out[k] = json.loads(self.t['%s/configs/%s/%s.json' % (w, c, k)].decode('utf-8'))
                assert isinstance(out[k], dict)
            except Exception:
                return None
        return out

    def as_json(self, w, c, t):
        return {k: json.dumps(json.loads(v if isinstance(v, str) else v.decode('utf-8')), sort_keys=True)
                if v is not None and k.startswith('%s/configs/%s/' % (w, c)) and k.endswith('.json') else v for k, v in t.items()}

    def do_json(self, w, c, *a, **k):
        with mock.patch.object(tree, 'diff', lambda x, y, _d=tree.diff: _d(self.as_json(w, c, x), self.as_json(w, c, y))):
            return self.do(*a, **k)

    def config_result(self, c, want):
        def f(r):
            r = J(r)
            exp = dict(name=c)
            for k, v in want.items():
                exp[k.lower()] = v
                exp[k.lower() + '_order'] = sorted(v, key=str.lower)
            return None if r == exp else 'returned %s' % {k: (r.get(k), exp.get(k)) for k in set(r) | set(exp) if r.get(k) != exp.get(k)}
        return f

    def get_configs(self):
        w = self.anyws(.97)
        c = self.anycfg(w, .9)
        if not w or not c: return
        have = self.stored(w, c)
        if have is None and self.cfg_ok(w, c): return
        self.do('get_configs(%r, %r)' % (w, c), lambda: self.svc.get_configs(w, c), have is not None, None,
                self.config_result(c, have) if have else None, error=None)

    def save(self):
        w = self.anyws(.97)
        c = self.anycfg(w, .95)
        if not w or not c: return
        old = self.stored(w, c)
        files = ['%s/configs/%s/%s.json' % (w, c, k) for k in ('CHD', 'CNF', 'CST')]
        ok = all(self.t.get(f) is not None for f in files)
        new = {}
        for k in ('CHD', 'CNF', 'CST'):
            d = copy.deepcopy(old[k]) if old and self.rng.random() < .7 else json.loads(wsops.template(bool(self.rng.integers(2)))[k + '.json'])
            for p in list(d):
                r = self.rng.random()
                if r < .08: d.pop(p)
                elif r < .3 and isinstance(d[p], dict): d[p]['value'] = self.ch((1, -2.5, 1e-9, 1 / 3, 'ü"\\', None, True, [1, 2.5], '', 12345678901234567890))
            if self.rng.random() < .3: d['extra%d_é' % self.n] = dict(value=self.ch((1, 'x' * 3000)))
            if self.rng.random() < .04: d = {}
            new[k] = d
        part = [k for k in new if self.rng.random() < .75] if self.rng.random() < .25 else list(new)
        t = self.t
        if ok:
            for k in part: t = tree.put(t, '%s/configs/%s/%s.json' % (w, c, k), json.dumps(new[k]).encode())
        if ok:
            try: self.as_json(w, c, self.t); self.as_json(w, c, t)
            except ValueError: return
            self.do_json(w, c, 'save_configs(%r, %r, %s)' % (w, c, part), lambda: J(self.svc.save_configs(w, c, J({k.lower(): new[k] for k in part}))), ok, t)
            self.L.n('configurations saved')
            got = self.stored(w, c)
            if got: self.do('get_configs(%r, %r) after saving' % (w, c), lambda: self.svc.get_configs(w, c), True, None,
                            self.config_result(c, {k: new[k] if k in part else got[k] for k in got}))
        else:
            self.do('save_configs(%r, %r) of a missing one' % (w, c), lambda: self.svc.save_configs(w, c, {k.lower(): v for k, v in new.items()}), None)

    def age(self):
        from . import c21
        c21.Cli.age(self)

    def upgrade(self):
        from . import c17
        w = self.anyws(.97)
        c = self.anycfg(w, .95)
        if not w or not c: return
        old = self.stored(w, c)
        if old is None: return
        try:
            new = {k: c17.model(v, json.loads(wsops.template(False)[k + '.json'])) for k, v in old.items()}
        except (KeyError, TypeError):
            return
        t = self.t
        for k, v in new.items(): t = tree.put(t, '%s/configs/%s/%s.json' % (w, c, k), json.dumps(v).encode())
        try: self.as_json(w, c, self.t)
        except ValueError: return
        self.do_json(w, c, 'upgrade_configs(%r, %r)' % (w, c), lambda: self.svc.upgrade_configs(w, c), True, t, self.config_result(c, new))
        self.L.n('upgrades')

    def versions(self):
        want = {k.lower() + '_version': json.loads(wsops.template(False)[k + '.json']).get('__metainf__', {}).get('version', -1) for k in ('CHD', 'CNF', 'CST')}
        self.expect('default versions', J(self.svc.get_default_config_versions()), want)

    def read_config(self):
        w = self.anyws(.97)
        if not self.has(w): return
        with harness.quiet():
            self.expect('get_config_names(%r)' % w, list(self.m.get_config_names(w)), self.cfgs(w))
            cur = (self.t.get(w + '/configs/.current') or b'').decode().split('\n')[0]
            self.expect('current configuration of %r' % w, self.m.get_current_config_name(w) or None, cur or None)


OPS = (['create_workspace'] * 3 + ['delete_workspace'] * 2 + ['copy_workspace'] * 2 + ['rename_workspace'] * 2 + ['select_workspace'] * 3 +
       ['list_workspaces'] * 4 + ['create_config'] * 6 + ['delete_config'] * 4 + ['copy_config'] * 3 + ['rename_config'] * 3 + ['select_config'] * 4 +
       ['read_config'] * 4 + ['get_configs'] * 3 + ['save'] * 5 + ['age', 'upgrade'] * 2 + ['versions'] + ['touch'] * 5 + ['add_inputs'] * 3 +
       ['remove_inputs'] * 2 + ['list_inputs'] * 3 + ['remove_outputs'] * 2 + ['notebook'] * 2 + ['launch'])


def history(seed):
    rng = np.random.default_rng([seed, 23])
    L = compare.Log(dict(kind='history', seed=seed))
    S = Web(rng, L)
    try:
        for op in ['list_workspaces'] + ['create_workspace', 'create_config', 'create_config'] * 2: getattr(S, op)()
        for _ in range(70):
            S.step(OPS)
            if L.viol: break
    finally:
        S.close()
    return L.viol, L.counts, L.desc


def process(seed):
    """a processing request = a direct run with the files of the named configuration"""
    from . import c21
    c21.stubs()
    from cate.util.monitor import Monitor
    from dedop.webapi.websocket import WebSocketService
    from dedop.ui.workspace_manager import WorkspaceManager
    s = scen.solid(seed, 'gaps', min_rec=2)
    if s is None: return [], {}, dict(seed=seed, drawn=False)
    L = compare.Log(dict(s.desc, kind='process'))
    m = WorkspaceManager(os.path.join(s.dir, 'ws'))
    svc = WebSocketService(m)
    ev = []

    class M(Monitor):
        def start(self, label, total_work=None): ev.append('start')
        def progress(self, work=None, msg=None): ev.append(work)
        def done(self): ev.append('done')
        def child(self, w): return Monitor.NONE
    with harness.quiet():
        svc.new_workspace('w')
        for c in ('other', 'c'): svc.add_new_config('w', c, False)
        cnf, cst, chd = s.aux
        svc.save_configs('w', 'c', dict(chd=json.load(open(chd)), cnf=json.load(open(cnf)), cst=json.load(open(cst))))
        svc.add_input_files('w', [s.l1a])
    out = os.path.join(s.dir, 'webout')
    os.makedirs(out)
    l1a = os.path.join(s.dir, 'ws', 'w', 'inputs', os.path.basename(s.l1a))
    r = harness.run(s.aux, s.l1a, s.out, l1bs=True)
    try:
        with harness.quiet(): res = svc.process('run', 'w', 'c', out, l1a, M())
        J(res)
        err = None
    except Exception as e:
        err = e
    if (err is None) != (r.error is None):
        L.bad('processing request: %r, direct run: %r' % (err, r.error))
        return chain.done(s, L)
    a, b = sorted(os.listdir(s.out)), sorted(os.listdir(out))
    if a != b: L.bad('processing request produced %s, a direct run %s' % (b, a))
    else:
        for f in a:
            x, y = compare.Product(os.path.join(s.out, f)), compare.Product(os.path.join(out, f))
            bad = [k for k in set(x.raw) | set(y.raw) if k not in x.raw or k not in y.raw or not np.array_equal(
                np.ma.getdata(x.raw[k]), np.ma.getdata(y.raw[k]), equal_nan=np.ma.getdata(x.raw[k]).dtype.kind == 'f')]
            if bad: L.bad('processing request: %s differs from a direct run in %s' % (f, sorted(bad)[:5]))
            L.n('records compared', x.n)
    if ev.count('start') != 1 or ev.count('done') != 1: L.bad('processing request: monitor saw %s' % ev[:10])
    L.n('processing requests')
    return chain.done(s, L)


def files(seed):
    """file information requests"""
    from . import c21
    c21.stubs()
    from dedop.webapi.websocket import WebSocketService
    from dedop.ui.workspace_manager import WorkspaceManager
    rng = np.random.default_rng([seed, 233])
    L = compare.Log(dict(kind='files', seed=seed))
    d = harness.scratch('wf')
    svc = WebSocketService(WorkspaceManager(os.path.join(d, 'ws')))
    for k in range(25):
        p = os.path.join(d, 'f%d.nc' % k)
        n = int(rng.integers(1, 60))
        lat, lon = np.round(rng.uniform(-90, 90, n), 6), np.round(rng.uniform(-180, 180, n), 6)
        has = rng.random() < .85
        att = {}
        for i in range(int(rng.integers(0, 8))):
            att['att_%d' % i] = (('text é"\\ %d' % i), float(rng.normal()), int(rng.integers(-9, 9)), np.float32(1.5), np.int16(3),
                                 np.array([1, 2, 3], 'i4'), np.array([.5, 1.5]), '', np.float64(2) ** 60)[int(rng.integers(9))]
        with nc.Dataset(p, 'w', format=('NETCDF4', 'NETCDF3_64BIT_OFFSET')[int(rng.integers(2))]) as ds:
            ds.createDimension('t', None if rng.random() < .5 else n)
            for name, v in (('lat_l1a_echo_sar_ku', lat), ('lon_l1a_echo_sar_ku', lon)) if has else (('x', lat),):
                if rng.random() < .6:
                    x = ds.createVariable(name, 'i4', ('t',)); x.scale_factor = 1e-6
                else:
                    x = ds.createVariable(name, 'f8', ('t',))
                x[:] = v
            for a, v in att.items(): ds.setncattr(a, v)
        with open(p, 'rb') as fp: before = fp.read()
        try:
            got = J(svc.get_lat_lon(p))
            if has:
                L.close('latitudes', np.array(got['lat']), lat, 1e-9); L.close('longitudes', np.array(got['lon']), lon, 1e-9)
                g = J(svc.get_max_min_coordinates(p))
                L.close('end latitudes', np.array(g['lat']), lat[[0, -1]], 1e-9)
                L.close('end longitudes', np.array(g['lon']), lon[[0, -1]], 1e-9)
            elif got != dict(lat=[], lon=[]): L.bad('positions %s of a file without any' % got)
            g = J(svc.get_global_attributes(p))
        except Exception as e:
            L.bad('file information: %s: %s (attributes %s)' % (type(e).__name__, e, att))
            break
        want = {a: v.tolist() if hasattr(v, 'tolist') else v for a, v in att.items()}
        if set(g) != set(want) or any(not np.array_equal(np.ravel(g[a]), np.ravel(want[a])) for a in want):
            L.bad('global attributes %s, the file has %s' % (g, want))
        if open(p, 'rb').read() != before: L.bad('the input file was changed')
        L.n('files described')
        os.remove(p)
    shutil.rmtree(d, ignore_errors=True)
    return L.viol, L.counts, L.desc


def dispatch(fn, *a):
    return globals()[fn](*a)


def run(ck):
    b, t = ck.seed * 100000, ck.thorough
    jobs = [('process', ck.seed * 1000 + 700 + k) for k in range(4 if not t else 60)]
    jobs += [('files', b + k) for k in range(6 if not t else 200)]
    jobs += [('history', b + k) for k in range(240 if not t else 5000)]
    chain.many(ck, __name__, 'dispatch', jobs)
