"""Model of the workspace folder; random operations on the real manager, each compared with the model."""
import errno, fnmatch, json, os, pkgutil, re, shutil, unittest.mock as mock
import numpy as np
from . import fakeproc, tree, harness

NAMES = ['a', 'ab', 'abc', 'default', 'A', 'my ws', 'x.nc', 'é-ü', 'a_1', 'a_copy', 'b', '-v', "o'k", '%d', '.hidden']
TPL = {}


def template(cryo):
    if cryo not in TPL:
        pkg = 'dedop.ui.data.' + ('cryosat_config' if cryo else 'config')
        TPL[cryo] = {k + '.json': pkgutil.get_data(pkg, k + '.json') for k in ('CHD', 'CNF', 'CST')}
    return TPL[cryo]


class Mon:
    """recording progress monitor"""
    def __init__(self):
        from dedop.util.monitor import Monitor
        rec = self.rec = []

        class M(Monitor):
            def start(self, label, total_work=None): rec.append(('start', label, total_work))
            def progress(self, work=None, msg=None): rec.append(('progress', work, msg))
            def done(self): rec.append(('done',))
        self.real = M()

    def problem(self, failed):
        r = self.rec
        if not r or r[0][0] != 'start' or r[-1][0] != 'done' or sum(x[0] in ('start', 'done') for x in r) != 2:
            return 'task not started once and ended once: %s' % r
        w = sum(x[1] or 0 for x in r if x[0] == 'progress')
        if r[0][2] is not None and (w > r[0][2] + 1e-9 or (not failed and abs(w - r[0][2]) > 1e-9)):
            return 'work reported %s of %s' % (w, r[0][2])


def started(cmds, folder, path):
    """what is wrong with the programs started to open a notebook"""
    if len(cmds) != 1: return 'notebook started by %s' % (cmds,)
    if set('"$`\\\'') & set(folder + path): return None      # quoting for the shell is not specified
    w = re.sub(r'[\'"]', ' ', cmds[0])
    for x in (folder, path):
        if x not in w: return '%r not in the command %r' % (x, cmds[0])
    if not re.search(r'--notebook-dir[ =]*' + re.escape(folder) + r'(?![\w./-])', w): return 'not started for the folder %r: %r' % (folder, cmds[0])


class Sim:
    def __init__(self, rng, L, names=None):
        from dedop.ui.workspace_manager import WorkspaceManager
        self.rng, self.L = rng, L
        self.dir = harness.scratch('ws')
        self.root = os.path.join(self.dir, 'workspaces')
        self.ext = os.path.join(self.dir, 'outside')
        os.makedirs(self.ext)
        self.m = WorkspaceManager(self.root)
        self.t = {}
        self.names = names or NAMES
        self.n = 0
        self.log = []
        for i, x in enumerate(('in1.nc', 'in2.nc', 'L1A_a.nc', 'notes.txt', 'IN1.NC', 'a[1].nc', 'deep')):
            if x == 'deep': os.makedirs(os.path.join(self.ext, x))
            else:
                with open(os.path.join(self.ext, x), 'wb') as fp: fp.write(self.bytes())
        with open(os.path.join(self.ext, 'deep', 'in1.nc'), 'wb') as fp: fp.write(self.bytes())
        os.symlink(os.path.join(self.ext, 'in1.nc'), os.path.join(self.ext, 'link.nc'))
        self.ext0 = tree.snap(self.ext)

    # ---- drawing
    def ch(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def bytes(self):
        return self.rng.bytes(int(self.ch((0, 1, 30, 5000))))

    def ws(self):
        return sorted(p for p, c in self.t.items() if c is None and '/' not in p)

    def cfgs(self, w):
        return sorted(p.split('/')[2] for p, c in self.t.items()
                      if c is None and p.startswith(w + '/configs/') and p.count('/') == 2)

    def has(self, w, *rest):
        return bool(w) and '/'.join((w,) + rest) in self.t and self.t['/'.join((w,) + rest)] is None

    def anyws(self, p=.8):
        return self.ch(self.ws()) if self.ws() and self.rng.random() < p else self.ch(self.names + [''])

    def anycfg(self, w, p=.8):
        c = self.cfgs(w) if w else []
        return self.ch(c) if c and self.rng.random() < p else self.ch(self.names + [''])

    def newname(self):
        return self.ch(self.names + ['new%d' % self.n]) if self.rng.random() < .93 else ''

    # ---- execution
    def do(self, desc, call, ok, new=None, result=None, alt=(), error='WorkspaceError'):
        """ok: the operation must succeed; new: expected tree; result: checks the returned value -> text or None;
        alt: further acceptable trees"""
        L = self.L
        self.n += 1
        self.log.append(desc)
        err = ret = None
        with harness.quiet():
            try:
                ret = call()
            except Exception as e:
                err = e
        want = self.t if new is None else new
        now = tree.snap(self.root) or {}
        what = '%s after %s' % (desc, self.log[-6:-1])
        L.n('operations')
        if ok is not None:
            if ok and err is not None:
                L.bad('%s failed: %s: %s' % (what, type(err).__name__, err))
            elif not ok and err is None:
                L.bad('%s is invalid but was not refused' % what)
            elif not ok and error and type(err).__name__ != error:
                L.bad('%s: %s expected, got %s: %s' % (what, error, type(err).__name__, err))
            L.n('operations refused', not ok)
        t = tree.diff(now, want)
        if t and not any(tree.diff(now, a) is None for a in alt):
            L.bad('%s: %s' % (what, t))
        if err is None and ok and result is not None:
            t = result(ret)
            if t: L.bad('%s: %s' % (what, t))
            L.n('results compared')
        if tree.snap(self.ext) != self.ext0:
            L.bad('%s changed files outside the workspaces' % what)
        L.n('files compared', sum(c is not None for c in now.values()))
        self.t = now
        return ret, err

    def expect(self, desc, got, want):
        self.L.n('results compared')
        if got != want:
            self.L.bad('%s: got %r, expected %r (after %s)' % (desc, got, want, self.log[-6:]))

    # ---- external edits
    strip = True

    def touch(self):
        """the user or the processor changes some file of a workspace"""
        if not self.ws(): return
        w = self.ch(self.ws())
        c = self.ch(self.cfgs(w)) if self.cfgs(w) else None
        p = self.ch(['inputs/%s' % self.ch(('in1.nc', 'z.nc', 'readme.txt', 'x.NC', 'in2.nc.bak')), 'notebooks/%s.ipynb' % self.ch('pq'),
                     'deep/er/x', 'configs/%s/outputs/%s' % (c, self.ch(('L1B_a.nc', 'L1BS_a.nc', 'b.nc', 'log.txt', 'c.nc.part'))) if c else 'inputs/q.nc',
                     'configs/%s/CNF.json' % c if c else 'x', 'configs/%s/extra.txt' % c if c else 'y', 'inputs/dir.nc/file',
                     'notebooks/%s-1.ipynb/x' % self.ch(('inspect-p.nc', 'compare-p.nc-p.nc'))])
        path = os.path.join(self.root, w, p)
        if c and self.strip and self.rng.random() < .12:
            # a parameter file goes missing: the configuration is still there
            p = 'configs/%s/%s.json' % (c, self.ch(('CNF', 'CNF', 'CHD', 'CST')))
            path = os.path.join(self.root, w, p)
            if os.path.isfile(path): os.remove(path)
            self.t = tree.snap(self.root)
            self.log.append('remove %s/%s' % (w, p))
            return
        try:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if p.startswith('inputs') and not os.path.lexists(path) and self.rng.random() < .2:
                os.symlink(os.path.join(self.ext, self.ch(('in1.nc', 'in2.nc'))), path)
            elif not os.path.islink(path):
                with open(path, 'wb') as fp: fp.write(self.bytes())
        except (IsADirectoryError, NotADirectoryError, FileExistsError):
            pass
        self.t = tree.snap(self.root)
        self.log.append('edit %s/%s' % (w, p))

    # ---- workspaces
    def current(self):
        c = (self.t.get('.current') or b'').decode().split('\n')[0]
        return c or None

    def create_workspace(self):
        n = self.newname() if self.rng.random() < .8 else self.anyws()
        ok = bool(n) and not any(p.startswith(n + '/') for p in self.t)
        self.do('create_workspace(%r)' % n, lambda: self.m.create_workspace(n), ok, tree.put(self.t, n, None) if ok else None,
                lambda r: None if r.name == n and os.path.samefile(r.workspace_dir, os.path.join(self.root, n)) else 'returned %s' % r)

    def delete_workspace(self):
        n = self.anyws()
        ok = self.has(n)
        self.do('delete_workspace(%r)' % n, lambda: self.m.delete_workspace(n), ok, tree.remove(self.t, n) if ok else None)

    def copy_workspace(self):
        a, b = self.anyws(.9), self.newname()
        ok = self.has(a) and bool(b) and not self.has(b)
        self.do('copy_workspace(%r, %r)' % (a, b), lambda: self.m.copy_workspace(a, b), ok, tree.copy(self.t, a, b) if ok else None)

    def rename_workspace(self):
        a, b = self.anyws(.9), self.newname()
        ok = self.has(a) and bool(b) and not self.has(b)
        self.do('rename_workspace(%r, %r)' % (a, b), lambda: self.m.rename_workspace(a, b), ok, tree.rename(self.t, a, b) if ok else None)

    def select_workspace(self):
        n = self.anyws(.8)
        ok = (self.has(n) or not n) and os.path.isdir(self.root)
        self.do('set_current_workspace_name(%r)' % n, lambda: self.m.set_current_workspace_name(n), ok,
                tree.put(self.t, '.current', n.encode()) if ok else None)

    def list_workspaces(self):
        q = lambda r: None
        self.do('list', lambda: None, True)
        with harness.quiet():
            self.expect('get_workspace_names', list(self.m.get_workspace_names()), self.ws())
            cur = self.m.get_current_workspace()
            self.expect('current workspace', cur.name or None, self.current())
            if cur.name and self.has(cur.name):
                self.expect('path of the current workspace', os.path.realpath(cur.workspace_dir), os.path.realpath(os.path.join(self.root, cur.name)))
                self.expect('current workspace is current', cur.is_current, True)
            got = [(x['name'], bool(x['is_current']), os.path.realpath(x['workspace_dir'])) for x in self.m.get_workspaces()]
            self.expect('get_workspaces', got, [(w, w == self.current(), os.path.realpath(os.path.join(self.root, w))) for w in self.ws()])
            for n in (self.anyws(), self.ch(self.names)):
                if n: self.expect('workspace_exists(%r)' % n, bool(self.m.workspace_exists(n)), self.has(n))

    def delete_all(self):
        if self.rng.random() < .1:
            self.do('delete_all_workspaces()', lambda: self.m.delete_all_workspaces(), True, {})

    def inject(self, desc, call, own, target, nth, want, after=None):
        """an operating system error at some point of an operation: reported, and nothing else is lost.
        own: paths the operation may change; want: expected tree of a success; after: further check -> text"""
        calls, hit = [0], []
        undo = []

        def wrap(name, nth):
            import importlib
            mod, f = name.split('.') if '.' in name else ('builtins', name)
            mod = importlib.import_module(mod)
            orig = getattr(mod, f)

            def bad(*x, **k):
                if name == 'open' and (not str(x[0]).startswith(self.root) or len(x) < 2 or not set('wxa+') & set(x[1])):
                    return orig(*x, **k)
                calls[0] += 1
                if calls[0] > nth:
                    hit.append(1)
                    raise OSError(errno.EXDEV if name == 'os.rename' else errno.ENOSPC, 'injected fault')
                return orig(*x, **k)
            setattr(mod, f, bad)
            undo.append((mod, f, orig))
        err = None
        try:
            for x in target.split('+'): wrap(x, 0 if x == 'os.rename' else nth)
            with harness.quiet():
                try:
                    call()
                except Exception as e:
                    err = e
        finally:
            for mod, f, orig in undo: setattr(mod, f, orig)
        desc = '%s with a failing %s' % (desc, target)
        self.log.append(desc)
        now = tree.snap(self.root) or {}
        L = self.L
        L.n('faults injected', bool(hit))
        if err is not None and type(err).__name__ != 'WorkspaceError':
            L.bad('%s: %s: %s' % (desc, type(err).__name__, err))
        drop = lambda t: {k: v for k, v in t.items() if not any(k == p or k.startswith(p + '/') for p in own)}
        t = tree.diff(drop(now), drop(self.t))
        if t: L.bad('%s: %s' % (desc, t))
        if after:
            t = after(now)
            if t: L.bad('%s %s' % (desc, t))
        if err is None and hit:
            t = tree.diff(now, want())
            if t: L.bad('%s reported success: %s' % (desc, t))
        if tree.snap(self.ext) != self.ext0: L.bad('%s changed files outside the workspaces' % desc)
        return err

    def moved(self, a, b):
        """nothing of a is lost: it is there or at b"""
        def f(now):
            for k, v in tree.under(self.t, a).items():
                if v is not None and now.get(k) != v and now.get(b + k[len(a):]) != v: return 'lost %s' % k
        return f

    def fault(self):
        a, b = self.anyws(.95), 'new%d' % self.n
        if not self.has(a): return
        op = self.ch(('copy', 'rename', 'delete', 'select', 'create', 'all'))
        if op == 'all' and self.rng.random() < .7: return
        target = self.ch(dict(copy=('shutil.copyfile', 'os.mkdir'), rename=('os.rename', 'os.rename+shutil.copyfile'),
                              delete=('os.unlink', 'os.rmdir'), all=('os.unlink', 'os.rmdir'), select=('open',), create=('os.mkdir',))[op])
        nth = 0 if op in ('select', 'create') else int(self.rng.integers(0, 4))
        call = dict(copy=lambda: self.m.copy_workspace(a, b), rename=lambda: self.m.rename_workspace(a, b),
                    delete=lambda: self.m.delete_workspace(a), select=lambda: self.m.set_current_workspace_name(a),
                    create=lambda: self.m.create_workspace(b), all=lambda: self.m.delete_all_workspaces())[op]
        want = dict(copy=lambda: tree.copy(self.t, a, b), rename=lambda: tree.rename(self.t, a, b), delete=lambda: tree.remove(self.t, a),
                    select=lambda: tree.put(self.t, '.current', a.encode()), create=lambda: tree.put(self.t, b, None), all=lambda: {})[op]
        own = dict(copy=(b,), rename=(a, b), delete=(a,), select=('.current',), create=(b,), all=tuple(x.split('/')[0] for x in self.t))[op]
        err = self.inject('%s of %r' % (op, a), call, own, target, nth, want, self.moved(a, b) if op == 'rename' else None)
        # tidy up what an interrupted operation left of the named workspaces
        if err is not None:
            if op in ('copy', 'rename', 'create') and os.path.isdir(os.path.join(self.root, b)):
                shutil.rmtree(os.path.join(self.root, b))
        self.t = tree.snap(self.root) or {}

    def fault_config(self):
        w = self.anyws(1)
        if not self.has(w) or not self.cfgs(w): return
        c, n = self.ch(self.cfgs(w)), 'new%d' % self.n
        a, b = '%s/configs/%s' % (w, c), '%s/configs/%s' % (w, n)
        op = self.ch(('copy', 'rename', 'delete', 'select', 'create'))
        target = self.ch(dict(copy=('shutil.copyfile', 'os.mkdir'), rename=('os.rename', 'os.rename+shutil.copyfile'), delete=('os.unlink', 'os.rmdir'),
                              select=('open',), create=('open', 'os.mkdir'))[op])
        nth = int(self.rng.integers(0, 3)) if target != 'os.mkdir' and op != 'select' else 0
        cryo = bool(self.rng.integers(2))

        def made():
            t = self.t
            for k, v in template(cryo).items(): t = tree.put(t, b + '/' + k, v)
            return t
        call = dict(copy=lambda: self.m.copy_config(w, c, n), rename=lambda: self.m.rename_config(w, c, n), delete=lambda: self.m.delete_config(w, c),
                    select=lambda: self.m.set_current_config_name(w, c), create=lambda: self.m.create_config(w, n, cryosat=cryo))[op]
        want = dict(copy=lambda: tree.copy(self.t, a, b), rename=lambda: tree.rename(self.t, a, b), delete=lambda: tree.remove(self.t, a),
                    select=lambda: tree.put(self.t, w + '/configs/.current', c.encode()), create=made)[op]
        own = dict(copy=(b,), rename=(a, b), delete=(a,), select=(w + '/configs/.current',), create=(b,))[op]
        err = self.inject('%s of configuration %r of %r' % (op, c, w), call, own, target, nth, want, self.moved(a, b) if op == 'rename' else None)
        if err is not None and op in ('copy', 'rename', 'create') and os.path.isdir(os.path.join(self.root, b)):
            shutil.rmtree(os.path.join(self.root, b))
        self.t = tree.snap(self.root) or {}

    def fault_files(self):
        w = self.anyws(1)
        if not self.has(w): return
        op = self.ch(('add', 'remove', 'outputs'))
        nth = int(self.rng.integers(0, 3))
        inp = w + '/inputs'
        isplain = lambda n: not os.path.islink(os.path.join(self.root, inp, n)) and not os.path.isdir(os.path.join(self.root, inp, n))
        if op == 'add':
            ns = [n for n in sorted({str(self.ch(('in1.nc', 'in2.nc', 'L1A_a.nc', 'IN1.NC', 'a[1].nc'))) for _ in range(3)}) if isplain(n)]
            data = {n: open(os.path.join(self.ext, n), 'rb').read() for n in ns}
            own = tuple('%s/%s' % (inp, n) for n in ns)
            call, target = (lambda mon: self.m.add_inputs(w, [os.path.join(self.ext, n) for n in ns], mon.real)), 'shutil.copyfile'

            def want():
                t = self.t
                for n in ns: t = tree.put(t, '%s/%s' % (inp, n), data[n])
                return t

            def after(now):
                for n in ns:
                    if now.get('%s/%s' % (inp, n)) not in (None, data[n], self.t.get('%s/%s' % (inp, n))): return 'left a wrong %s' % n
        else:
            base = inp if op == 'remove' else '%s/configs/%s/outputs' % (w, self.ch(self.cfgs(w) or ['x']))
            have = self.files(base)
            if not have or (op == 'outputs' and any(v is None and k.startswith(base + '/') for k, v in self.t.items())): return
            ns = have[:3] if op == 'remove' else have
            own = tuple('%s/%s' % (base, n) for n in ns)
            call = (lambda mon: self.m.remove_inputs(w, list(ns), mon.real)) if op == 'remove' else \
                (lambda mon: self.m.remove_outputs(w, base.split('/')[2]))
            target = 'os.remove'
            want = lambda: {k: v for k, v in self.t.items() if k not in own}

            def after(now):
                for k in own:
                    if k in now and now[k] != self.t[k]: return 'changed %s' % k
        mon = Mon()
        err = self.inject('%s %s of %r' % (op, ns, w), lambda: call(mon), own, target, nth, want, after)
        if mon.rec:
            x = mon.problem(err is not None)
            if x: self.L.bad('%s: %s' % (op, x))
        self.t = tree.snap(self.root) or {}

    # ---- configurations
    def cfg_ok(self, w, c):
        return self.has(w) and bool(c) and self.has(w, 'configs', c)

    def create_config(self):
        w = self.anyws(.95)
        c = self.newname() if self.rng.random() < .7 else self.anycfg(w)
        cryo = bool(self.rng.random() < .3)
        base = '%s/configs/%s' % (w, c)
        ok = self.has(w) and bool(c) and not any(p.startswith(base + '/') for p in self.t)
        new = None
        if ok:
            new = self.t
            for k, v in template(cryo).items(): new = tree.put(new, base + '/' + k, v)
        self.do('create_config(%r, %r, %r)' % (w, c, cryo), lambda: self.m.create_config(w, c, cryosat=cryo), ok, new)

    def delete_config(self):
        w = self.anyws(.95)
        c = self.anycfg(w)
        ok = self.cfg_ok(w, c)
        self.do('delete_config(%r, %r)' % (w, c), lambda: self.m.delete_config(w, c), ok,
                tree.remove(self.t, '%s/configs/%s' % (w, c)) if ok else None)

    def _two(self, name, fn, f):
        w = self.anyws(.95)
        c = self.anycfg(w, .9)
        n = self.newname() if self.rng.random() < .8 else self.anycfg(w)
        ok = self.cfg_ok(w, c) and bool(n) and not self.has(w, 'configs', n)
        self.do('%s(%r, %r, %r)' % (name, w, c, n), lambda: fn(w, c, n), ok,
                f(self.t, '%s/configs/%s' % (w, c), '%s/configs/%s' % (w, n)) if ok else None)

    def copy_config(self):
        self._two('copy_config', self.m.copy_config, tree.copy)

    def rename_config(self):
        self._two('rename_config', self.m.rename_config, tree.rename)

    def select_config(self):
        w = self.anyws(.95)
        c = self.anycfg(w)
        ok = (self.cfg_ok(w, c) or (self.has(w) and not c)) and self.has(w, 'configs')
        self.do('set_current_config_name(%r, %r)' % (w, c), lambda: self.m.set_current_config_name(w, c), ok,
                tree.put(self.t, w + '/configs/.current', c.encode()) if ok else None)

    def write_config(self):
        w = self.anyws(.97)
        c = self.anycfg(w, .95)
        k = self.ch(('CNF', 'CHD', 'CST'))
        base = '%s/configs/%s/%s.json' % (w, c, k)
        ok = bool(w) and bool(c) and self.t.get(base) is not None
        text = self.ch(['{}', json.dumps({'p%d' % i: dict(value='v' * i) for i in range(int(self.rng.integers(0, 40)))}),
                        json.dumps(dict(__metainf__=dict(version=int(self.rng.integers(0, 9))), Zz=dict(value=1), b=dict(value='é'))),
                        json.dumps(dict(b=dict(value='é€ Ж', description='ß' * int(self.rng.integers(1, 9)))), ensure_ascii=False)])
        self.do('write_config_file(%r, %r, %s)' % (w, c, k), lambda: self.m.write_config_file(w, c, k, text), ok,
                tree.put(self.t, base, text.encode()) if ok else None, error=None)

    def read_config(self):
        w = self.anyws(.97)
        if not self.has(w): return
        with harness.quiet():
            self.expect('get_config_names(%r)' % w, list(self.m.get_config_names(w)), self.cfgs(w))
            cur = (self.t.get(w + '/configs/.current') or b'').decode().split('\n')[0]
            self.expect('current configuration of %r' % w, self.m.get_current_config_name(w) or None, cur or None)
            for c in self.cfgs(w):
                self.expect('config_exists(%r, %r)' % (w, c), bool(self.m.config_exists(w, c)), any(p.startswith('%s/configs/%s/' % (w, c)) for p in self.t))
                for k in ('CNF', 'CHD', 'CST'):
                    b = self.t.get('%s/configs/%s/%s.json' % (w, c, k))
                    try:
                        want = json.loads(b.decode('utf-8'))
                        assert isinstance(want, dict)
                    except Exception:
                        continue
                    got, order = self.m.get_config_json(w, c, k)
                    self.expect('contents of %s/%s/%s' % (w, c, k), dict(got), want)
                    self.expect('parameter names of %s/%s/%s' % (w, c, k), list(order), sorted(want, key=str.lower))
                    self.expect('version of %s/%s/%s' % (w, c, k), self.m.get_config_version(w, c, k),
                                want['__metainf__']['version'] if '__metainf__' in want else -1)
                    self.expect('path of %s' % k, os.path.realpath(self.m.get_config_file(w, c, k)),
                                os.path.realpath(os.path.join(self.root, w, 'configs', c, k + '.json')))
            x = self.ch(self.names)
            if not self.has(w, 'configs', x):
                self.expect('config_exists(%r, %r)' % (w, x), bool(self.m.config_exists(w, x)), False)

    # ---- inputs, outputs, notebooks
    def add_inputs(self):
        w = self.anyws(.97)
        if not w: return
        pool = [os.path.join(self.ext, x) for x in ('in1.nc', 'in2.nc', 'L1A_a.nc', 'notes.txt', 'IN1.NC', 'a[1].nc', 'deep/in1.nc', 'link.nc')]
        ps = [self.ch(pool) for _ in range(int(self.rng.integers(0, 4)))]
        if self.rng.random() < .15: ps.insert(int(self.rng.integers(0, len(ps) + 1)), os.path.join(self.ext, 'missing.nc'))
        # never through a link (the link's target is the user's file)
        ps = [p for p in ps if not os.path.islink(os.path.join(self.root, w, 'inputs', os.path.basename(p)))
              and not os.path.isdir(os.path.join(self.root, w, 'inputs', os.path.basename(p)))]
        t, alt, ok = self.t, [self.t], True
        for p in ps:
            if p.endswith('missing.nc'):
                ok = False
                break
            t = tree.put(t, '%s/inputs/%s' % (w, os.path.basename(p)), open(p, 'rb').read())
            alt.append(t)
        if not self.has(w):         # the folder is made
            t = tree.put(t, w + '/inputs', None)
            alt = [tree.put(x, w + '/inputs', None) for x in alt] + [self.t]
        mon = Mon()
        _, e = self.do('add_inputs(%r, %s)' % (w, [os.path.basename(p) for p in ps]), lambda: self.m.add_inputs(w, list(ps), mon.real), ok, t,
                       alt=[] if ok else alt)
        if mon.rec or ok:
            x = mon.problem(not ok)
            if x: self.L.bad('add_inputs: ' + x)
        for p in ps if ok else ():
            if os.path.islink(os.path.join(self.root, w, 'inputs', os.path.basename(p))): self.L.bad('add_inputs: %s is a link, not a copy' % os.path.basename(p))

    def files(self, base):
        return sorted(p[len(base) + 1:] for p, c in self.t.items() if c is not None and p.startswith(base + '/') and p.count('/') == base.count('/') + 1)

    def pattern(self, names):
        n = self.ch(names + ['in1.nc', 'x'])
        r = lambda: self.ch([n, '*', '*.nc', n[:1] + '*', '?' * len(n), '*' + n[-4:], n.upper(), '', 'in*', '*1*', '[ai]*', 'a[[]1].nc', '*.txt', '.*'])
        k = self.rng.random()
        if k < .2: return None
        if k < .6: return r()
        p = [r() for _ in range(int(self.rng.integers(0, 4)))]
        return p if self.rng.random() < .7 else tuple(p)

    def match(self, names, pat):
        nc = [n for n in names if n.endswith('.nc')]
        if isinstance(pat, str): return [n for n in nc if fnmatch.fnmatchcase(n, pat)]
        if not pat: return nc
        return [n for n in nc if any(fnmatch.fnmatchcase(n, p) for p in pat)]

    def remove_inputs(self):
        w = self.anyws(.97)
        if not w: return
        have = self.files(w + '/inputs')
        ns = sorted({str(self.ch(have + ['missing.nc'])) for _ in range(int(self.rng.integers(0, 3)))})
        ns = [n for n in ns if n != 'missing.nc' or self.rng.random() < .5]
        t = self.t
        for n in ns: t = tree.remove(t, '%s/inputs/%s' % (w, n))
        mon = Mon()
        self.do('remove_inputs(%r, %s)' % (w, ns), lambda: self.m.remove_inputs(w, list(ns), mon.real), True, t)
        x = mon.problem(False)
        if x: self.L.bad('remove_inputs: ' + x)

    def list_inputs(self):
        w = self.anyws(.97)
        if not w: return
        have = self.files(w + '/inputs')
        pat = self.pattern(have)
        with harness.quiet():
            self.expect('get_input_names(%r, %r)' % (w, pat), list(self.m.get_input_names(w, pat)), self.match(have, pat))
            self.expect('get_input_paths(%r)' % w, [os.path.realpath(p) for p in self.m.get_input_paths(w)],
                        [os.path.realpath(os.path.join(self.root, w, 'inputs', n)) for n in self.match(have, None)])
            for c in self.cfgs(w) + ['missing']:
                o = self.files('%s/configs/%s/outputs' % (w, c))
                pat = self.pattern(o)
                self.expect('get_output_names(%r, %r, %r)' % (w, c, pat), list(self.m.get_output_names(w, c, pat)), self.match(o, pat))
            if self.has(w):
                self.expect('get_notebook_names(%r)' % w, list(self.m.get_notebook_names(w)), [n for n in self.files(w + '/notebooks') if n.endswith('.ipynb')])

    def remove_outputs(self):
        w = self.anyws(.97)
        if not w: return
        c = self.anycfg(w, .95)
        if not c: return
        base = '%s/configs/%s/outputs' % (w, c)
        ok = self.t.get(base, 1) is None
        t = {k: v for k, v in self.t.items() if not k.startswith(base + '/')}
        self.do('remove_outputs(%r, %r)' % (w, c), lambda: self.m.remove_outputs(w, c), ok, t if ok else None)

    def notebook(self):
        w = self.anyws(1)
        if not self.has(w): return
        odd = ['/data/p.nc', "/data/it's \"x\".nc", '/d\\e/f.nc', os.path.join(self.root, w, 'out', 'L1B_é.nc'), 'p.nc', '/x/' + 'y' * 90 + '.nc']
        p1, p2 = self.ch(odd), self.ch(odd)
        two = self.rng.random() < .5
        called = []
        with fakeproc.fake(lambda c: called.append(c)):
            old = self.t
            with harness.quiet():
                if two: self.m.compare_l1b_products(w, p1, p2)
                else: self.m.inspect_l1b_product(w, p1)
        self.log.append('notebook(%r, %r)' % (w, (p1, p2) if two else p1))
        now = tree.snap(self.root)
        base = w + '/notebooks/'
        new = [k for k in now if now[k] is not None and k not in old]
        if len(new) != 1 or not new[0].startswith(base) or not new[0].endswith('.ipynb'):
            self.L.bad('%s: new files %s' % (self.log[-1], new))
        else:
            t = tree.diff({k: v for k, v in now.items() if k != new[0]}, old) or \
                started(called, os.path.join(self.root, base[:-1]), os.path.join(self.root, new[0]))
            if t: self.L.bad('%s: %s' % (self.log[-1], t))
            try:
                nb = json.loads(now[new[0]].decode('utf-8'))
                src = '\n'.join(''.join(c['source']) for c in nb['cells'] if c['cell_type'] == 'code')
                import ast
                consts = [n.value for n in ast.walk(ast.parse('\n'.join(l for l in src.split('\n') if not l.lstrip().startswith(('%', '!')))))
                          if isinstance(n, ast.Constant) and isinstance(n.value, str)]
                for p in (p1, p2) if two else (p1,):
                    if p not in consts: self.L.bad('%s: the notebook does not refer to %r: %s' % (self.log[-1], p, [c for c in consts if '.nc' in c]))
                if two and p1 != p2 and consts.index(p1) > consts.index(p2):
                    self.L.bad('%s: products swapped' % self.log[-1])
            except (ValueError, SyntaxError, KeyError) as e:
                self.L.bad('%s: not a usable notebook: %s' % (self.log[-1], e))
            self.L.n('notebooks')
        self.t = now

    def step(self, ops):
        getattr(self, self.ch(ops))()

    def close(self):
        self.L.desc['last operations'] = [str(x)[:80] for x in self.log[-4:]]
        shutil.rmtree(self.dir, ignore_errors=True)


def history(seed, salt, ops, start, steps):
    from . import compare
    rng = np.random.default_rng([seed, salt])
    L = compare.Log(dict(seed=seed))
    S = Sim(rng, L)
    try:
        for op in start: getattr(S, op)()
        for _ in range(steps):
            S.step(ops)
            if L.viol: break
    finally:
        S.close()
    return L.viol, L.counts, L.desc
