"""Command line: random command histories on the real entry point, every step compared with a model."""
import glob as _glob, io, os, re, shutil, sys, contextlib, unittest.mock as mock
import numpy as np
from .. import chain, compare, fakeproc, harness, tree, wsops, synth, scen

RULE = ('one case = one history of about 50 commands (all workspace, config, input, output, run, status commands with and '
        'without names and options, confirmations answered yes or no, selections gone stale, failing processors) through '
        'the real entry point; exit code, messages, lists, complete file tree and what the processor was given are compared '
        'with the model. Also runs of the real processor through the command line. Non-trivial = commands executed')
ASSUMPTIONS = ['the command line framework (package cate) is not installed here: a stand-in with the same interface and error '
               'handling is used', 'editors, notebooks and terminals are replaced by stand-ins that record the call']

NAMES = [n for n in wsops.NAMES if not n.startswith('-')]


def stubs():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
    if p not in sys.path: sys.path.append(p)


class Cli(wsops.Sim):
    def __init__(self, rng, L):
        stubs()
        super().__init__(rng, L, NAMES)
        self.alt_out = os.path.join(self.dir, 'other')
        self.runs, self.opened, self.shell = [], [], []
        self.fail_at = None

    def curcfg(self, w):
        return (self.t.get(w + '/configs/.current') or b'').decode().split('\n')[0] or None if w else None

    def factory(self):
        sim = self

        class P:
            def __init__(self, name, chd_file=None, cnf_file=None, cst_file=None, output_dir=None, skip_l1bs=False):
                self.rec = dict(name=name, out=os.path.realpath(output_dir), skip=bool(skip_l1bs), inputs=[],
                                files=[open(f, 'rb').read() for f in (chd_file, cnf_file, cst_file)])
                self.dir = output_dir
                sim.runs.append(self.rec)

            def process(self, l1a_file, monitor=None):
                from dedop.model.exception import ProcessorException
                if sim.fail_at is not None and sum(len(r['inputs']) for r in sim.runs) == sim.fail_at:
                    raise ProcessorException('injected failure')
                with monitor.starting('x', 1):
                    monitor.progress(1)
                self.rec['inputs'].append(os.path.realpath(l1a_file))
                os.makedirs(self.dir, exist_ok=True)
                with open(os.path.join(self.dir, 'L1B_%s_%s.nc' % (os.path.basename(l1a_file)[:-3], self.rec['name'])), 'wb') as fp:
                    fp.write(b'x')
        return P

    def cmd(self, args, ok, new=None, alt=(), answer='yes', out=None, real=False):
        """args: command line; ok: expected success (None: either, with the tree unchanged or as given)"""
        from dedop.cli import main
        self.opened, self.shell = [], []
        box = {}

        def sh(cmd):
            self.shell.append(cmd)
            m = re.match(r'(?:ls|dir /A-D) "(.*)"$', cmd)
            return 2 if m and not os.path.isdir(m.group(1)) else 0

        def call():
            o, e = io.StringIO(), io.StringIO()
            asked = []
            cls = type(self.m)
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), \
                    mock.patch('builtins.input', lambda *p: asked.append(p) or answer), \
                    mock.patch.object(cls, 'open_file', classmethod(lambda c, p: self.opened.append(p))), \
                    fakeproc.fake(sh):
                st = main.main(args=list(args), workspace_manager=self.m, processor_factory=None if real else self.factory())
            box.update(st=st, out=o.getvalue(), err=e.getvalue(), asked=asked)
            if st:
                if not e.getvalue().strip(): self.L.bad('%s failed without a message' % args)
                raise RuntimeError(e.getvalue())
        self.do('dedop ' + ' '.join(repr(a) if not re.match(r'^[\w./*-]+$', a) else a for a in args), call, ok, new,
                (lambda r: out(box['out'])) if out else None, alt=alt, error=None)
        return box

    # ---- helpers
    def given(self, flag, p=.5):
        """optional -w; -> (args, name or None)"""
        if self.rng.random() < p: return [], None
        w = self.anyws(.9) or 'a'
        return [self.ch((flag, '--workspace') if flag == '-w' else (flag,)), w], w

    def resolve(self, w, c=None, cfg=False):
        """-> (workspace, config, error)"""
        w = w or self.current()
        if cfg and w and not c:
            if not self.has(w): return w, None, True
            c = self.curcfg(w)
        return w, c, False

    def unique(self, n, have):
        i, x = 2, n
        while x in have:
            x, i = '%s_%d' % (n, i), i + 1
        return x

    def default_ws(self, t):
        if t.get('default', 1) is None: return t
        return tree.put(tree.put(t, 'default', None), '.current', b'default')

    @staticmethod
    def listed(names):
        def f(text):
            got = [m.group(2) for m in re.finditer(r'^ *(\d+): (.*)$', text, re.M)]
            return None if got == names else 'listed %s, expected %s' % (got, names)
        return f

    # ---- workspace commands
    def ws_add(self):
        n = self.newname()
        ok = bool(n) and not any(p.startswith(n + '/') for p in self.t)
        self.cmd([self.ch(('workspace', 'w')), 'add', n], ok, tree.put(tree.put(self.t, n, None), '.current', n.encode()) if ok else None)

    def reselect(self, t, key, have, removed, cur):
        if cur != removed: return t
        return tree.put(t, key, ('default' if 'default' in have else have[0] if have else '').encode())

    def confirm(self):
        r = self.rng.random()
        if r < .4: return ['-y'], 'no', True
        a = self.ch(('yes', 'YES', '', 'no', 'n', 'x', 'y', ' yes '))
        return [], a, a.strip().lower() in ('yes', '')

    def ws_rm(self):
        n = None if self.rng.random() < .4 else (self.anyws() or 'a')
        w = n or self.current()
        y, a, sure = self.confirm()
        ok = self.has(w or '')
        new = None
        if ok and sure:
            new = tree.remove(self.t, w)
            new = self.reselect(new, '.current', sorted(p for p, c in new.items() if c is None and '/' not in p), w, self.current())
        self.cmd(['w', self.ch(('rm', 'remove'))] + ([n] if n else []) + y, ok or (bool(w) and not sure), new, answer=a)

    def ws_cp(self):
        n = None if self.rng.random() < .3 else (self.anyws(.9) or 'a')
        b = self.newname() or None if n and self.rng.random() < .7 else None
        w = n or self.current()
        ok = self.has(w or '')
        new = tree.copy(self.t, w, self.unique(b or w + '_1', self.ws())) if ok else None
        self.cmd(['w', self.ch(('cp', 'copy'))] + ([n] if n else []) + ([b] if b else []), ok, new)

    def ws_rn(self):
        n = None if self.rng.random() < .4 else (self.anyws(.9) or 'a')
        b = self.newname() or 'q'
        w = n or self.current()
        ok = self.has(w or '')
        new = None
        if ok:
            u = self.unique(b, self.ws())
            new = tree.rename(self.t, w, u)
            if self.current() == w: new = tree.put(new, '.current', u.encode())
        self.cmd(['w', self.ch(('rn', 'rename'))] + ([n] if n else []) + [b], ok, new)

    def ws_cur(self):
        n = None if self.rng.random() < .3 else (self.anyws() or 'a')
        if n is None:
            c = self.current()
            self.cmd(['w', 'cur'], True, out=lambda t: None if (('"%s"' % c) in t if c else 'no current' in t) else 'printed %r' % t)
        else:
            ok = self.has(n)
            self.cmd(['w', self.ch(('cur', 'current')), n], ok, tree.put(self.t, '.current', n.encode()) if ok else None)

    def ws_ls(self):
        self.cmd(['w', self.ch(('ls', 'list'))], True, out=self.listed(self.ws()))

    # ---- configuration commands
    def cf_add(self):
        a, g = self.given('-w')
        c = self.newname()
        cryo = self.rng.random() < .3
        w, _, _ = self.resolve(g)
        t0 = self.t if w else self.default_ws(self.t)
        w = w or 'default'
        base = '%s/configs/%s' % (w, c)
        ok = w in t0 and t0[w] is None and bool(c) and not any(p.startswith(base + '/') for p in t0)
        if not c and self.t is not t0: ok = False
        new = t0
        if ok:
            for k, v in wsops.template(cryo).items(): new = tree.put(new, base + '/' + k, v)
            new = tree.put(new, w + '/configs/.current', c.encode())
        # an empty name means the current configuration's name, which exists
        if not c:
            w2, c2, err = self.resolve(g, None, True)
            if c2 and not err:
                base = '%s/configs/%s' % (w2, c2)
                ok = self.has(w2) and not any(p.startswith(base + '/') for p in self.t)
                if ok: return           # stale selection: would be made anew
        self.cmd(['c', 'add'] + a + [c] + ['--cryosat-adapted'] * cryo, ok, new if ok else self.t, alt=[t0] if not ok else ())

    def cfarg(self, w, p=.5):
        if self.rng.random() < p: return [], None
        c = self.anycfg(w or self.current() or '', .85) or 'a'
        return [c], c

    def cf_rm(self):
        a, g = self.given('-w')
        ca, gc = self.cfarg(g)
        w, c, err = self.resolve(g, gc, True)
        y, ans, sure = self.confirm()
        ok = not err and bool(w) and bool(c) and (self.cfg_ok(w, c) or not sure)
        new = None
        if ok and sure:
            new = tree.remove(self.t, '%s/configs/%s' % (w, c))
            have = [x for x in self.cfgs(w) if x != c]
            new = self.reselect(new, w + '/configs/.current', have, c, self.curcfg(w))
        self.cmd(['c', self.ch(('rm', 'remove'))] + a + ca + y, ok, new, answer=ans)

    def cf_cp(self):
        a, g = self.given('-w')
        ca, gc = self.cfarg(g)
        n = self.newname() or None if gc and self.rng.random() < .7 else None
        w, c, err = self.resolve(g, gc, True)
        ok = not err and bool(w) and bool(c) and self.cfg_ok(w, c)
        new = None
        if ok: new = tree.copy(self.t, '%s/configs/%s' % (w, c), '%s/configs/%s' % (w, self.unique(n or c + '_copy', self.cfgs(w))))
        self.cmd(['c', self.ch(('cp', 'copy'))] + a + ca + ([n] if n else []), ok, new)

    def cf_rn(self):
        a, g = self.given('-w')
        ca, gc = self.cfarg(g)
        n = self.newname() or 'q'
        w, c, err = self.resolve(g, gc, True)
        ok = not err and bool(w) and bool(c) and self.cfg_ok(w, c)
        new = None
        if ok:
            u = self.unique(n, self.cfgs(w))
            new = tree.rename(self.t, '%s/configs/%s' % (w, c), '%s/configs/%s' % (w, u))
            if self.curcfg(w) == c: new = tree.put(new, w + '/configs/.current', u.encode())
        self.cmd(['c', self.ch(('rn', 'rename'))] + a + ca + [n], ok, new)

    def cf_cur(self):
        a, g = self.given('-w')
        ca, gc = self.cfarg(g, .3)
        w, c, err = self.resolve(g, gc, True)
        w = w or 'default'
        if gc:
            ok = self.cfg_ok(w, gc)
            self.cmd(['c', self.ch(('cur', 'current'))] + a + ca, ok, tree.put(self.t, w + '/configs/.current', gc.encode()) if ok else None)
        else:
            c = self.curcfg(w)
            if c and not self.cfg_ok(w, c): return self.cmd(['c', 'cur'] + a, None)
            self.cmd(['c', 'cur'] + a, self.has(w), out=lambda t: None if (('"%s"' % c) in t if c else 'no current' in t) else 'printed %r' % t)

    def cf_ls(self):
        a, g = self.given('-w')
        w, _, _ = self.resolve(g)
        self.cmd(['c', self.ch(('ls', 'list'))] + a, self.has(w or ''), out=self.listed(self.cfgs(w)) if w else None)

    def cf_info(self):
        a, g = self.given('-w')
        ca, gc = self.cfarg(g)
        w, c, err = self.resolve(g, gc, True)
        ok = not err and bool(w) and bool(c) and (self.cfg_ok(w, c) or (not os.path.isdir(os.path.join(self.root, w, 'configs', c)) and None))
        if ok is None: return
        self.cmd(['c', self.ch(('info', 'i'))] + a + ca, ok,
                 out=(lambda t: None if w in t and c in t and os.path.join('configs', c) in t else 'printed %r' % t) if ok else None)

    def cf_edit(self):
        a, g = self.given('-w')
        ca, gc = self.cfarg(g)
        w, c, err = self.resolve(g, gc, True)
        if not w or not c or err or not self.has(w): return
        self.cmd(['c', self.ch(('edit', 'ed'))] + a + ca, True)
        want = {os.path.realpath(os.path.join(self.root, w, 'configs', c, k + '.json')) for k in ('CHD', 'CNF', 'CST')}
        if {os.path.realpath(str(p)) for p in self.opened} != want:
            self.L.bad('config edit opened %s' % self.opened)

    def cf_up(self):
        from . import c17
        a, g = self.given('-w')
        ca, gc = self.cfarg(g)
        w, c, err = self.resolve(g, gc, True)
        if err or not w or not c or not self.cfg_ok(w, c): return self.cmd(['c', 'up'] + a + ca, False)
        if self.rng.random() < .6: self.age(w, c)
        import json
        new, tpl = self.t, wsops.template(False)
        try:
            for k in ('CHD', 'CNF', 'CST'):
                p = '%s/configs/%s/%s.json' % (w, c, k)
                old, d = json.loads(self.t[p].decode()), json.loads(tpl[k + '.json'].decode())
                new = tree.put(new, p, json.dumps(c17.model(old, d), sort_keys=True))
                assert isinstance(old, dict)
        except Exception:
            return
        norm = lambda t: {k: json.dumps(json.loads(v if isinstance(v, str) else v.decode()), sort_keys=True)
                          if v is not None and k.startswith('%s/configs/%s/' % (w, c)) and k.endswith('.json') else v for k, v in t.items()}
        snap = tree.snap
        try:        # compare these files as JSON
            with mock.patch.object(tree, 'diff', lambda x, y, _d=tree.diff: _d(norm(x), norm(y))):
                self.cmd(['c', self.ch(('up', 'upgrade'))] + a + ca, True, new)
        finally:
            tree.snap = snap
        self.L.n('upgrades')

    def cf_ver(self):
        a, g = self.given('-w')
        ca, gc = self.cfarg(g)
        w, c, err = self.resolve(g, gc, True)
        ok = not err and bool(w) and bool(c) and self.cfg_ok(w, c)
        if ok:
            import json
            try:
                v = [json.loads(self.t['%s/configs/%s/%s.json' % (w, c, k)].decode())['__metainf__']['version'] for k in ('CHD', 'CNF', 'CST')]
            except Exception:
                return
            f = lambda t: None if re.findall(r'version (\d+)', t) == [str(x) for x in v] else 'printed %r, versions are %s' % (t, v)
        self.cmd(['c', self.ch(('version', 'v'))] + a + ca, ok, out=f if ok else None)

    def age(self, w=None, c=None):
        """sets a configuration back to older versions (or forward)"""
        from . import c17
        import json
        if not self.ws(): return
        w = w or self.ch(self.ws())
        if not self.cfgs(w): return
        c = c or self.ch(self.cfgs(w))
        for k in ('CHD', 'CNF', 'CST'):
            d = json.loads(wsops.template(False)[k + '.json'].decode())
            p = os.path.join(self.root, w, 'configs', c, k + '.json')
            if os.path.exists(p):
                with open(p, 'w') as fp: json.dump(c17.older(self.rng, d, int(self.rng.integers(-1, c17.version(d) + 2))), fp)
        self.t = tree.snap(self.root)
        self.log.append('age %s/%s' % (w, c))

    # ---- inputs and outputs
    def in_add(self):
        a, g = self.given('-w')
        pats = [os.path.join(self.ext, x) for x in [self.ch(('in1.nc', 'in2.nc', 'in?.nc', '*.nc', 'notes.txt', 'missing.nc', 'L1A*', 'nope*', 'deep/*.nc'))
                                                     for _ in range(int(self.rng.integers(1, 3)))]]
        w, _, _ = self.resolve(g)
        t0 = self.t if w else self.default_ws(self.t)
        w = w or 'default'
        files = [f for p in pats for f in _glob.glob(p)]
        inp = os.path.join(self.root, w, 'inputs')
        if any(os.path.islink(os.path.join(inp, os.path.basename(f))) or os.path.isdir(os.path.join(inp, os.path.basename(f))) for f in files): return
        ok = bool(files)
        new = t0
        for f in files: new = tree.put(new, '%s/inputs/%s' % (w, os.path.basename(f)), open(f, 'rb').read())
        if ok and len({os.path.basename(f) for f in files}) < len(set(files)): return      # same name twice: order is the shell's
        self.cmd(['i', 'add'] + a + ['-q'] * int(self.rng.integers(2)) + pats, ok, new if ok else None, out=self.number(len(files)))

    @staticmethod
    def number(n):
        def f(text):
            l = [x for x in text.splitlines() if re.search(r'(added|removed)', x)]
            if l and not re.search(r'\b%s\b' % ({0: '(0|no)', 1: '(1|one)'}.get(n, n)), l[-1]): return 'said %r of %d files' % (l[-1], n)
        return f

    def helps(self):
        """commands without an action explain themselves"""
        a = self.ch((['w'], ['c'], ['i'], ['o'], [], ['-h'], ['run', '--help'], ['w', 'add', '-h'], ['--version']))
        from dedop.cli import main
        with harness.quiet() as o, fakeproc.fake(lambda c: 0):
            try: st = main.main(args=list(a), workspace_manager=self.m, processor_factory=self.factory())
            except SystemExit as e: st = e.code
        self.log.append('dedop %s' % a)
        if st: self.L.bad('dedop %s: exit code %s' % (' '.join(a), st))
        d = tree.diff(tree.snap(self.root) or {}, self.t)
        if d: self.L.bad('dedop %s: %s' % (' '.join(a), d))
        self.L.n('operations')

    def in_rm(self):
        a, g = self.given('-w')
        w, _, _ = self.resolve(g)
        have = self.files(w + '/inputs') if w else []
        ps = [self.ch(have + ['*.nc', 'in*', 'missing.nc', 'z*']) for _ in range(int(self.rng.integers(0, 3)))]
        hit = self.match(have, ps or None)
        q = self.rng.random() < .4
        ans = self.ch(('yes', '', 'no', 'YES', 'y', 'n'))
        ok = bool(w) and bool(hit)
        new = None
        if ok and (q or ans.lower() in ('yes', '')):
            new = self.t
            for n in hit: new = tree.remove(new, '%s/inputs/%s' % (w, n))
        self.cmd(['i', self.ch(('rm', 'remove'))] + a + ['-q'] * q + ps, ok, new, answer=ans, out=self.number(len(hit)) if new is not None else None)

    def in_ls(self):
        a, g = self.given('-w')
        w, _, _ = self.resolve(g)
        have = self.files(w + '/inputs') if w else []
        p = self.pattern(have)
        p = p if isinstance(p, str) and p else None
        self.cmd(['i', self.ch(('ls', 'list'))] + a + ([p] if p else []), bool(w), out=self.listed(self.match(have, p)))

    def cfopt(self, w, p=.5):
        ca, c = self.cfarg(w, p)
        return (['-c'] + ca if ca else []), c

    def out_ls(self):
        a, g = self.given('-w')
        ca, gc = self.cfopt(g)
        w, c, err = self.resolve(g, gc, True)
        ok = not err and bool(w) and bool(c)
        have = self.files('%s/configs/%s/outputs' % (w, c)) if ok else []
        p = self.pattern(have)
        p = p if isinstance(p, str) and p else None
        self.cmd(['o', self.ch(('ls', 'list'))] + a + ca + ([p] if p else []), ok, out=self.listed(self.match(have, p)))

    def out_clean(self):
        a, g = self.given('-w')
        ca, gc = self.cfopt(g)
        w, c, err = self.resolve(g, gc, True)
        base = '%s/configs/%s/outputs' % (w, c)
        ok = not err and bool(w) and bool(c) and bool(self.match(self.files(base), None))
        q = self.rng.random() < .4
        ans = self.ch(('yes', '', 'no', 'YES', 'y', 'n'))
        new = None
        if ok and (q or ans.lower() in ('yes', '')): new = {k: v for k, v in self.t.items() if not k.startswith(base + '/')}
        self.cmd(['o', self.ch(('clean', 'cl'))] + a + ca + ['-q'] * q, ok, new, answer=ans)

    def out_open(self):
        a, g = self.given('-w')
        ca, gc = self.cfopt(g)
        w, c, err = self.resolve(g, gc, True)
        ok = not err and bool(w) and bool(c)
        self.cmd(['o', self.ch(('open', 'op'))] + a + ca, ok)
        d = os.path.join(self.root, w, 'configs', c, 'outputs') if ok else ''
        want = [os.path.realpath(d)] if ok and os.path.isdir(d) else []
        if [os.path.realpath(str(p)) for p in self.opened] != want: self.L.bad('output open opened %s, expected %s' % (self.opened, want))

    def out_notebook(self):
        from ast import walk, parse, Constant
        import json
        two = self.rng.random() < .6
        a, g = self.given('-w')
        ca, gc = self.cfopt(g)
        w, c, err = self.resolve(g, gc, True)
        if err or not w or not c or not self.has(w): return
        a2, g2 = self.given('-w', .6)
        c2 = self.anycfg(g2 or w, .95) or 'a' if self.rng.random() < .4 else None
        w2, k2 = g2 or w, c2 or c

        def prod(w, c):
            if self.rng.random() < .2:
                p = os.path.join(self.ext, self.ch(('in1.nc', 'in2.nc')))
                return p, p
            n = self.ch(self.files('%s/configs/%s/outputs' % (w, c)) + ['nope.nc'] * (self.rng.random() < .2) or ['nope.nc'])
            return n, os.path.join(self.root, w, 'configs', c, 'outputs', n)
        f1, p1 = prod(w, c)
        args = ['o', 'cmp' if two else 'ins'] + a + ca
        want = [p1]
        if two:
            if a2: args += ['-W', g2]
            if c2: args += ['-C', c2]
            f2, p2 = prod(w2, k2)
            if self.rng.random() < .25:
                f2, p2 = None, p1 if os.path.dirname(f1) else os.path.join(self.root, w2, 'configs', k2, 'outputs', f1)
            want.append(p2)
            args += [f1] + ([f2] if f2 else [])
        else:
            args += [f1]
        ok = all(os.path.exists(p) for p in want)
        old = self.t
        if not ok: return self.cmd(args, False)
        from dedop.cli import main
        self.opened = []
        cls = type(self.m)
        self.log.append(str(args))
        with harness.quiet() as o, fakeproc.fake(self.opened.append):
            st = main.main(args=args, workspace_manager=self.m, processor_factory=self.factory())
        now = tree.snap(self.root)
        self.L.n('operations')
        new = [k for k in now if k not in old and now[k] is not None]
        if st: self.L.bad('%s failed: %s' % (args, o.getvalue()))
        elif len(new) != 1 or not new[0].startswith(w + '/notebooks/'): self.L.bad('%s: new files %s' % (args, new))
        else:
            t = tree.diff({k: v for k, v in now.items() if k != new[0]}, old)
            if t: self.L.bad('%s: %s' % (args, t))
            nb = json.loads(now[new[0]].decode('utf-8'))
            src = '\n'.join(''.join(x['source']) for x in nb['cells'] if x['cell_type'] == 'code')
            consts = [os.path.realpath(n.value) for n in walk(parse('\n'.join(l for l in src.split('\n') if not l.lstrip().startswith(('%', '!')))))
                      if isinstance(n, Constant) and isinstance(n.value, str) and n.value.startswith('/')]
            if consts != [os.path.realpath(p) for p in want]: self.L.bad('%s: the notebook refers to %s, expected %s' % (args, consts, want))
            t = wsops.started(self.opened, os.path.join(self.root, w, 'notebooks'), os.path.join(self.root, new[0]))
            if t: self.L.bad('%s: %s' % (args, t))
            self.L.n('notebooks')
        self.t = now

    # ---- running
    def run(self):
        a, g = self.given('-w')
        all_ = self.rng.random() < .25
        ca, gc = self.cfopt(g, .9 if all_ else .5)
        skip, quiet = bool(self.rng.integers(2)), bool(self.rng.integers(2))
        o = self.alt_out if self.rng.random() < .2 else None
        w, c, err = self.resolve(g, gc, True)
        inputs = None
        if self.rng.random() < .3: inputs = sorted({os.path.join(self.ext, self.ch(('in1.nc', 'in2.nc', 'L1A_a.nc'))) for _ in range(2)})
        new = self.t
        ok = not err and not (all_ and gc)
        wanted = []
        cfg = []
        if ok:
            if not w:
                new, w = self.default_ws(new), 'default'
            if all_:
                cfg = self.cfgs(w)
                ok = self.has(w) and bool(cfg)
            elif not c:
                if self.has(w, 'configs', 'default') and any(p.startswith(w + '/configs/default/') for p in self.t): cfg = ['default']
                else:
                    for k, v in wsops.template(False).items(): new = tree.put(new, w + '/configs/default/' + k, v)
                    new = tree.put(new, w + '/configs/.current', b'default')
                    cfg = ['default']
            else: cfg = [c]
        made = new
        ins = inputs
        if ok and ins is None:
            ins = [os.path.join(self.root, w, 'inputs', n) for n in self.match(self.files(w + '/inputs'), None)]
            ok = bool(ins)
        if ok:
            for c in cfg:
                fs = [new.get('%s/configs/%s/%s.json' % (w, c, k)) for k in ('CHD', 'CNF', 'CST')]
                if None in fs:
                    ok = False
                    break
                wanted.append(dict(name=c, out=os.path.realpath(o or os.path.join(self.root, w, 'configs', c, 'outputs')), skip=skip,
                                   inputs=[os.path.realpath(i) for i in ins], files=fs))
        self.fail_at = None
        n = sum(len(r['inputs']) for r in wanted)
        if ok and self.rng.random() < .15: self.fail_at = int(self.rng.integers(0, n))
        trees, k = [self.t, made], 0
        t = made
        for r in wanted:
            for i in ins:
                if o is None: t = tree.put(t, '%s/configs/%s/outputs/L1B_%s_%s.nc' % (w, r['name'], os.path.basename(i)[:-3], r['name']), b'x')
                k += 1
                trees.append(t)
        if self.fail_at is not None:
            trees = [trees[2 + self.fail_at - 1] if self.fail_at else made]
        good = ok and self.fail_at is None
        self.runs = []
        args = [self.ch(('run', 'r'))] + a + ca + ['-a'] * all_ + ['-s'] * skip + ['-q'] * quiet + (['-o', o] if o else []) + \
            (['-i'] + inputs if inputs else [])
        self.cmd(args, good, t if good else trees[-1], alt=trees)
        self.L.n('processing runs', len(self.runs))
        if good:
            if self.runs != wanted:
                brief = lambda x: [(r['name'], r['out'], r['skip'], r['inputs'], [hash(f) for f in r['files']]) for r in x]
                self.L.bad('%s: the processor was given %s, expected %s' % (args, brief(self.runs), brief(wanted)))
            else: self.L.n('processor arguments compared', len(wanted))
        elif self.fail_at is not None:
            done = [i for r in self.runs for i in r['inputs']]
            if done != [i for r in wanted for i in r['inputs']][:self.fail_at]: self.L.bad('%s: inputs processed before the failure: %s' % (args, done))
        self.fail_at = None

    def status(self):
        c = self.current()
        def f(t):
            m = dict(l.split(':', 1) for l in t.splitlines() if ':' in l)
            if c and self.has(c):
                if m.get('current workspace', '').strip() != c: return 'current workspace %r' % m.get('current workspace')
                k = self.curcfg(c)
                if k and m.get('current DDP configuration', '').strip() != k: return 'current configuration %r' % m.get('current DDP configuration')
            if self.ws() and m.get('workspace names', '').strip() != ', '.join(self.ws()).strip(): return 'workspaces %r' % m.get('workspace names')
        self.cmd([self.ch(('status', 's'))], (not c or self.has(c)) if os.path.isdir(self.root) else True, out=f)

    def fault(self):
        """an operating system error in the middle of a command: exit code, message, and nothing else is lost"""
        from dedop.cli import main
        ws = self.ws()
        if not ws: return
        w, b = self.ch(ws), 'new%d' % self.rng.integers(9)
        cs = self.cfgs(w)
        c = self.ch(cs) if cs else None
        T = self.t
        under = lambda p: [k for k, v in T.items() if v is not None and k.startswith(p + '/')]
        cur, ccur = '.current', w + '/configs/.current'
        base, nb = '%s/configs/%s' % (w, c), '%s/configs/%s' % (w, b)
        def reselected(t, ws_):
            t = tree.remove(t, w)
            return self.reselect(t, cur, sorted(p for p, x in t.items() if x is None and '/' not in p), w, self.current())
        def renamed():
            t = tree.rename(T, w, b)
            return tree.put(t, cur, b.encode()) if self.current() == w else t
        def crenamed():
            t = tree.rename(T, base, nb)
            return tree.put(t, ccur, b.encode()) if self.curcfg(w) == c else t
        def added():
            t = T
            for k, v in wsops.template(False).items(): t = tree.put(t, nb + '/' + k, v)
            return tree.put(t, ccur, b.encode())
        def inputs():
            t = T
            for n in ('in1.nc', 'in2.nc'): t = tree.put(t, '%s/inputs/%s' % (w, n), open(os.path.join(self.ext, n), 'rb').read())
            return t
        ws_free, cf_free = b not in ws, b not in cs
        ops = [(['w', 'rm', '-y', w], ('os.unlink', 'os.rmdir'), (w, cur), lambda: reselected(T, w), None),
               (['w', 'cur', w], ('open',), (cur,), lambda: tree.put(T, cur, w.encode()), None)]
        if ws_free:
            ops += [(['w', 'add', b], ('os.mkdir', 'open'), (b, cur), lambda: tree.put(tree.put(T, b, None), cur, b.encode()), None),
                    (['w', 'cp', w, b], ('shutil.copyfile', 'os.mkdir'), (b,), lambda: tree.copy(T, w, b), None),
                    (['w', 'rn', w, b], ('os.rename', 'os.rename+shutil.copyfile'), (w, b, cur), renamed, self.moved(w, b))]
        if cf_free: ops.append((['c', 'add', '-w', w, b], ('open', 'os.mkdir'), (nb, ccur), added, None))
        if c and self.cfg_ok(w, c):
            ops += [(['c', 'cur', '-w', w, c], ('open',), (ccur,), lambda: tree.put(T, ccur, c.encode()), None),
                    (['c', 'rm', '-y', '-w', w, c], ('os.unlink', 'os.rmdir'), (base, ccur),
                     lambda: self.reselect(tree.remove(T, base), ccur, [x for x in cs if x != c], c, self.curcfg(w)), None)]
            if cf_free:
                ops += [(['c', 'cp', '-w', w, c, b], ('shutil.copyfile', 'os.mkdir'), (nb,), lambda: tree.copy(T, base, nb), None),
                        (['c', 'rn', '-w', w, c, b], ('os.rename', 'os.rename+shutil.copyfile'), (base, nb, ccur), crenamed, self.moved(base, nb))]
            out = base + '/outputs'
            if self.match(self.files(out), None) and not any(v is None and k.startswith(out + '/') for k, v in T.items()):
                ops += [(['o', 'clean', '-q', '-w', w, '-c', c], ('os.remove',), (out,),
                         lambda: {k: v for k, v in T.items() if not k.startswith(out + '/')}, None)] * 2
        have = self.match(self.files(w + '/inputs'), None)
        if have:
            ops += [(['i', 'rm', '-q', '-w', w, have[0]], ('os.remove',), ('%s/inputs/%s' % (w, have[0]),),
                     lambda: tree.remove(T, '%s/inputs/%s' % (w, have[0])), None)] * 2
        if not any(os.path.islink(os.path.join(self.root, w, 'inputs', n)) or os.path.isdir(os.path.join(self.root, w, 'inputs', n)) for n in ('in1.nc', 'in2.nc')):
            ops.append((['i', 'add', '-q', '-w', w] + [os.path.join(self.ext, n) for n in ('in1.nc', 'in2.nc')], ('shutil.copyfile',),
                        ('%s/inputs/in1.nc' % w, '%s/inputs/in2.nc' % w), inputs, None))
        args, targets, own, want, after = self.ch(ops)
        target = self.ch(targets)
        if any(x.startswith('-') or '*' in x or '[' in x or '?' in x for x in (w, c or 'c', (have or ['c'])[0])): return
        nth = 0 if 'os.mkdir' in target or 'open' in target else int(self.rng.integers(0, 3))

        class WorkspaceError(Exception): pass

        def call():
            o, e = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e), fakeproc.fake(lambda c: 0):
                st = main.main(args=list(args), workspace_manager=self.m, processor_factory=self.factory())
            if not st: return
            if not e.getvalue().strip(): self.L.bad('%s with a failing %s failed without a message' % (args, target))
            raise WorkspaceError(e.getvalue())
        self.inject('dedop ' + ' '.join(args), call, own, target, nth, want, after)
        self.t = tree.snap(self.root) or {}
        for p in (b, nb):      # tidy up what an interrupted command left
            if not (ws_free if p == b else cf_free): continue
            if p in self.t and args[1] in ('add', 'cp') and args[0] == ('w' if p == b else 'c'):
                shutil.rmtree(os.path.join(self.root, p))
        self.t = tree.snap(self.root) or {}

    def bad(self):
        self.cmd(self.ch((['nonsense'], ['w', 'nonsense'], ['c', 'add'], ['run', '--nope'], ['i', 'add'], ['w', 'add'])), False)

    def break_current(self):
        """the selected workspace or configuration disappears behind the tool's back"""
        c = self.current()
        if c and self.has(c) and self.rng.random() < .3:
            k = self.curcfg(c)
            if k and self.has(c, 'configs', k) and self.rng.random() < .6: shutil.rmtree(os.path.join(self.root, c, 'configs', k))
            else: shutil.rmtree(os.path.join(self.root, c))
            self.t = tree.snap(self.root)
            self.log.append('(current removed)')


OPS = (['ws_add'] * 4 + ['ws_rm'] * 2 + ['ws_cp', 'ws_rn'] * 2 + ['ws_cur', 'ws_ls'] * 2 + ['cf_add'] * 5 + ['cf_rm'] * 2 + ['cf_cp', 'cf_rn'] * 3 +
       ['cf_cur'] * 3 + ['cf_ls', 'cf_info', 'cf_edit', 'cf_ver', 'cf_up', 'cf_up', 'age'] + ['in_add'] * 4 + ['helps'] + ['in_rm', 'in_ls', 'out_ls', 'out_open'] * 2 +
       ['out_clean'] * 2 + ['out_notebook'] * 3 + ['run'] * 8 + ['fault'] * 5 + ['status', 'bad', 'break_current'] + ['touch'] * 6)


def history(seed):
    rng = np.random.default_rng([seed, 21])
    L = compare.Log(dict(seed=seed))
    S = Cli(rng, L)
    old = os.getcwd()
    try:
        os.chdir(S.dir)
        if seed % 4 == 1: S.run()
        elif seed % 4 == 2: S.in_add(); S.run()
        elif seed % 4 == 3: S.ws_add(); S.cf_add(); S.in_add(); S.run()
        for _ in range(50):
            S.step(OPS)
            if L.viol: break
    finally:
        os.chdir(old)
        S.close()
    return L.viol, L.counts, L.desc


def real_run(seed):
    """the real processor through the command line: the products of the configuration that was selected"""
    stubs()
    from dedop.cli import main
    from dedop.ui.workspace_manager import WorkspaceManager
    s = scen.solid(seed, None, min_rec=1)
    L = compare.Log(dict(seed=seed, part='real run'))
    if s is None: return [], {}, L.desc
    ref = harness.run(s.aux, s.l1a, s.out, l1bs=True)
    d = harness.scratch('cli')
    m = WorkspaceManager(os.path.join(d, 'ws'))
    with harness.quiet() as o:
        go = lambda *a: main.main(args=list(a), workspace_manager=m, processor_factory=None)
        st = [go('w', 'add', 'w1'), go('c', 'add', 'other'), go('c', 'add', 'mine'), go('c', 'cur', 'other'), go('i', 'add', '-q', s.l1a)]
        for k, p in zip(('CNF', 'CST', 'CHD'), s.aux): shutil.copy(p, m.get_config_file('w1', 'mine', k))
        skip = bool(seed % 2)
        st.append(go('run', '-q', '-c', 'mine', *(['-s'] if skip else [])))
    if any(st): L.bad('commands failed: %s %s' % (st, o.getvalue()[-300:]))
    else:
        got = sorted(x for x in os.listdir(m.get_outputs_path('w1', 'mine')) if x.endswith('.nc'))
        if len(got) != (1 if skip else 2): L.bad('products %s (skip L1BS: %s)' % (got, skip))
        for n in got:
            r = ref.l1bs if n.startswith('L1BS') else ref.l1b
            a, b = compare.Product(os.path.join(m.get_outputs_path('w1', 'mine'), n)), compare.Product(r)
            if not os.path.splitext(n)[0].endswith('_mine'): L.bad('product %s is not named after the configuration' % n)
            for v in b.raw:
                x, y = a.raw[v], b.raw[v]
                if x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
                    L.bad('%s of %s differs from the processor run with the same files' % (v, n))
            L.n('products compared')
        if os.path.isdir(m.get_outputs_path('w1', 'other')): L.bad('outputs in another configuration')
        with harness.quiet():
            bad = os.path.join(d, 'broken.nc')
            open(bad, 'wb').write(b'nothing')
            for f in (bad, os.path.join(d, 'missing.nc')):
                if go('run', '-q', '-c', 'mine', '-i', f) == 0: L.bad('processing %s reported success' % f)
                L.n('failing runs')
    shutil.rmtree(d, ignore_errors=True)
    return chain.done(s, L)


def run(ck):
    chain.many(ck, __name__, 'history', [(ck.seed * 100000 + i,) for i in range(5000 if ck.thorough else 260)])
    chain.many(ck, __name__, 'real_run', [(ck.seed * 1000 + 700 + i,) for i in range(40 if ck.thorough else 6)])
