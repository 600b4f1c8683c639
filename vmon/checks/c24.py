"""Tool configuration: every way the two configuration files can be, observed in a fresh process per case."""
import ast, contextlib, io, json, os, shutil, stat, sys, traceback, unittest.mock as mock
import numpy as np
from .. import fakeproc, report
from .c21 import stubs

RULE = ('one case = one fresh process started with a random state of the user configuration file (~/.dedop/config.py) and the '
        'local one (dedop-config.py): missing, empty, literal settings, computed settings, broken in several ways, not a '
        'file; values, paths, files left behind, the workspace folder, processor and launched commands are compared with '
        'the model. Non-trivial = settings looked up in the case')
ASSUMPTIONS = ['programs are not started: the command handed to the operating system is recorded',
               'the command line framework (package cate) is replaced by a stand-in']

NAMES = ['workspaces_dir', 'a', 'B', 'some_dir', 'launch_x', '_p', 'x1', 'default', 'name', 'config', 'fp', 'file', 'code']
VALS = [0, 1, -3, 2.5, '', 'text', '~', '~/w', 'a/~/b', '~/a b/c', '/tmp/x', '{title}', None, True, False, [1, 2], {'k': 'v'}, 'ümläut',
        ('t', 1), 'x' * 200]
BROKEN = ['syntax', 'raise', 'name', 'binary', 'indent', 'zero', 'importerr']


def gen(rng, forced=None):
    """-> (kind, text bytes or None, settings it defines when it is not broken)"""
    if forced is not None:
        return 'literal', ''.join('%s = %r\n' % kv for kv in forced.items()).encode('utf-8'), dict(forced)
    kind = str(rng.choice(['missing', 'empty', 'literal', 'literal', 'literal', 'computed', 'computed', 'dir'] + BROKEN))
    if kind in ('missing', 'dir'): return kind, None, {}
    if kind == 'empty': return kind, [b'', b'# nothing\n', b'\n\n'][rng.integers(3)], {}
    lines, vals = [], {}
    for n in rng.permutation(NAMES)[:rng.integers(1, 7)]:
        v = VALS[rng.integers(len(VALS))]
        n = str(n)
        vals[n] = v
        lines.append('%s = %r' % (n, v))
    if kind == 'computed':
        extra = [
            ("import re\ndef f_(s): return re.sub('x', 'y', s)\nq1 = f_('axb')", {'q1': 'ayb'}),
            ("base_ = '~/data'\nq2 = base_ + '/ws'", {'q2': '~/data/ws'}),
            ("k_ = 3\nq3 = [k_ * i for i in range(4)]", {'q3': [0, 3, 6, 9]}),
            ("k2_ = 2\nq4 = (lambda z: z * k2_)(21)", {'q4': 42}),
            ("if True:\n    q5 = 'yes'\nelse:\n    q5 = 'no'", {'q5': 'yes'}),
            ("q6 = 1\nq6 = q6 + 1\nq6 += 1", {'q6': 3}),
            ("import os.path\nq7 = os.path.join('user', 'home')", {'q7': os.path.join('user', 'home')}),
            ("lim_ = 2\nq8 = sum(i * lim_ for i in range(lim_, 4))", {'q8': 10}),
            ("def fact_(n): return 1 if n < 2 else n * fact_(n - 1)\nq9 = fact_(5)", {'q9': 120}),
            ("class C_:\n    v = 5\ndef g_(): return C_.v\nqa = g_()", {'qa': 5}),
            ("for i_ in range(3): qb = i_", {'qb': 2}),
            ("try:\n    qc = undefined_name\nexcept NameError:\n    qc = 'none'", {'qc': 'none'}),
        ]
        for i in rng.permutation(len(extra))[:rng.integers(1, 5)]:
            lines.append(extra[i][0]); vals.update(extra[i][1])
    text = '\n'.join(lines) + '\n'
    if kind in BROKEN:
        bad = dict(syntax='this is not python', **{'raise': "raise RuntimeError('bad')"}, name='zz = no_such_name', indent='  a = 1',
                   zero='zz = 1 / 0', importerr='import no_such_module_zz').get(kind)
        if kind == 'binary':
            return kind, text.encode('utf-8') + b'\xff\xfe\x00\x80 = 1\n', {}
        i = rng.integers(0, len(lines) + 1)
        text = '\n'.join(lines[:i] + [bad] + lines[i:]) + '\n'
        return kind, text.encode('utf-8'), {}
    return kind, text.encode('utf-8'), vals


def in_child(fn):
    """runs fn() in a forked process, -> ('ok', json value) or ('error', trace)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                report.watchdog(120)
                out = ('ok', fn())
            except BaseException as e:
                tb = traceback.format_exc()
                out = ('error', '%s: %s' % (type(e).__name__, e), tb.splitlines()[-6:])
            with os.fdopen(w, 'w') as fp: json.dump(out, fp, default=repr)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fp: data = fp.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def J(x): return json.loads(json.dumps(x, default=repr))


def write(path, kind, text):
    if kind == 'dir': os.makedirs(path)
    elif kind != 'missing':
        os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
        with open(path, 'wb') as fp: fp.write(text)


class Run:
    def __init__(self, ck, rng, i, forced=None):
        self.ck, self.rng = ck, rng
        self.dir = os.path.join(report.SCRATCH, 'c24', 'r%d' % i)
        self.home, self.cwd = os.path.join(self.dir, 'home'), os.path.join(self.dir, 'work')
        self.homestate = str(rng.choice(['full', 'full', 'full', 'nodot', 'nohome', 'dotfile'])) if forced is None else 'full'
        # started anywhere, even next to the user's own file
        if self.homestate == 'full' and rng.random() < .25:
            self.cwd = [self.home, os.path.join(self.home, '.dedop'), os.path.join(self.home, 'p ü', 'q')][rng.integers(3)]
        self.user = gen(rng, forced[0] if forced else None)
        self.local = gen(rng, forced[1] if forced else None)
        if forced and forced[1] is None: self.local = ('missing', None, {})
        if forced and forced[0] is None: self.user = ('missing', None, {})
        self.dot = os.path.join(self.home, '.dedop')
        self.upath, self.lpath = os.path.join(self.dot, 'config.py'), os.path.join(self.cwd, 'dedop-config.py')
        if self.homestate != 'nohome': os.makedirs(self.home)
        if self.homestate == 'dotfile':
            with open(self.dot, 'w') as fp: fp.write('x')
        if self.homestate != 'full': self.user = ('missing', None, {})
        if self.homestate == 'full': os.makedirs(self.dot); write(self.upath, *self.user[:2])
        os.makedirs(self.cwd, exist_ok=True)
        write(self.lpath, *self.local[:2])
        self.want = dict(self.user[2]); self.want.update(self.local[2])
        self.desc = dict(home=self.homestate, user=self.user[0], local=self.local[0],
                         names=sorted(self.want))

    def bad(self, what):
        self.ck.violation('%s (home %s, user file %s %r, local file %s %r)' % (
            what, self.homestate, self.user[0], (self.user[1] or b'')[:300].decode('utf-8', 'replace'), self.local[0],
            (self.local[1] or b'')[:300].decode('utf-8', 'replace')), dict(self.desc))

    def child(self, body):
        def fn():
            os.environ['HOME'] = self.home
            os.chdir(self.cwd)
            o, e = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
                r = body()
            return [J(r), o.getvalue() + e.getvalue()]
        return in_child(fn)

    def files(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, 'rb') as fp: out[os.path.relpath(p, self.dir)] = fp.read()
        return out

    def finish(self):
        self.ck.case(self.desc, bool(self.want))
        shutil.rmtree(self.dir, ignore_errors=True)


def lookups(ck, rng, i, forced=None):
    r = Run(ck, rng, i, forced)
    names = sorted(set(NAMES) | set(r.want) | {'q%s' % c for c in '123456789abc'} | {'no_such', 'zz'})
    defaults = {n: VALS[rng.integers(len(VALS))] for n in names}
    first = str(rng.choice(['value', 'path', 'config']))
    before = r.files()
    ltext2 = b'a = "changed later"\n'
    change = bool(rng.random() < .3)

    def body():
        from dedop.util import config as C
        out = {}
        if first == 'path': C.get_config_path('some_dir')
        cfg = C.get_config()
        out['has'] = {n: n in cfg for n in names}
        out['value'] = {n: C.get_config_value(n, defaults[n]) for n in names}
        out['value_kw'] = {n: C.get_config_value(n, default=defaults[n]) for n in names}
        out['none'] = {n: C.get_config_value(n) for n in names}
        out['path'] = {n: C.get_config_path(n, defaults[n]) for n in names}
        out['pathnone'] = {n: C.get_config_path(n) for n in names}
        out['typestr'] = [type(v).__name__ for n in names for v in [C.get_config_path(n)] if v is not None]
        for bad in (None, ''):
            for f in (C.get_config_value, C.get_config_path):
                try: f(bad); out.setdefault('noerror', []).append([f.__name__, bad])
                except ValueError: pass
        if change:
            with open('dedop-config.py' if not os.path.isdir('dedop-config.py') else 'other.py', 'wb') as fp: fp.write(ltext2)
        cfg['_set_by_program'] = 17
        out['same'] = C.get_config() is cfg
        out['mut'] = C.get_config_value('_set_by_program')
        out['again'] = {n: C.get_config_value(n, defaults[n]) for n in names}
        return out
    st = r.child(body)
    if st[0] != 'ok':
        r.bad('reading the configuration failed: %s %s' % (st[1], st[2])); return r.finish()
    got, text = st[1]
    exp_home = r.home

    def path(v):
        return None if v is None else os.path.join(exp_home, str(v)[2:]) if str(v).startswith('~/') else exp_home if str(v) == '~' else str(v)
    w = r.want
    for n in names:
        v = w.get(n, defaults[n]); x = w.get(n)
        for key, e in (('has', n in w), ('value', v), ('value_kw', v), ('none', x), ('path', path(v)), ('pathnone', path(x)), ('again', v)):
            ck.count('lookups')
            if got[key][n] != J(e):
                r.bad('%s of %r is %r, expected %r' % (key, n, got[key][n], J(e)))
                break
    if 'noerror' in got: r.bad('an empty name is accepted: %s' % got['noerror'])
    if not got['same'] or got['mut'] != 17: r.bad('the configuration is not one mutable object: same=%s value=%s' % (got['same'], got['mut']))
    if any(t != 'str' for t in got['typestr']): r.bad('a path is not a string: %s' % got['typestr'])
    # broken files are reported
    for (kind, t, _), p in ((r.user, '.dedop/config.py'), (r.local, 'dedop-config.py')):
        ck.count('file ' + kind)
        told = p in text.replace(os.sep, '/')
        if kind in BROKEN and not told: r.bad('the broken file %s is not reported (output %r)' % (p, text))
        if kind not in BROKEN and kind not in ('missing', 'dir') and told and 'warning' in text.lower() and p == 'dedop-config.py': r.bad('a good file is reported: %r' % text)
    # files
    after = r.files()
    tpl = open(os.path.join(report.REPO, 'dedop', 'util', 'config-template.py'), 'rb').read().replace(b'\r\n', b'\n')
    exp = dict(before)
    if r.user[0] == 'missing' and r.homestate in ('full', 'nodot'):
        exp['home/.dedop/config.py'] = tpl
        ck.count('file created')
    elif r.user[0] == 'missing':
        ck.count('cannot be created')
        if r.homestate == 'nohome' and 'home/.dedop/config.py' in after: exp['home/.dedop/config.py'] = tpl
        elif 'config.py' not in text: r.bad('the failure to create the file is not reported: %r' % text)
    if change: exp[os.path.relpath(os.path.join(r.cwd, 'other.py' if r.local[0] == 'dir' else 'dedop-config.py'), r.dir)] = ltext2
    if {k: v.replace(b'\r\n', b'\n') for k, v in after.items()} != {k: v.replace(b'\r\n', b'\n') for k, v in exp.items()}:
        r.bad('files after: %s, expected %s' % ({k: v[:60] for k, v in after.items()}, {k: v[:60] for k, v in exp.items()}))
    r.finish()


def effects(ck, rng, i):
    """what the settings do: workspace folder, processor, launched programs"""
    where = [None, '~/w s', '~/.dedop/other', os.path.join(report.SCRATCH, 'c24', 'r%d' % i, 'abs'), 'relative/ws', ''][rng.integers(6)]
    base = {}
    if where is not None: base['workspaces_dir'] = where
    tpls = [None, None, '{command}', '  term -t "{title}" {command} ', 'x {command_file}', '{prefix}/bin/x "{title}"', 'fixed', '   ', 5, ['a'], 'term  -t "{title}"\t{command}  &', '"my  tool" {command} {{x}}']
    nb = tpls[rng.integers(len(tpls))]
    ed = [None, None, 'edit {file}', ' "{file}" ', 'fixed', '\t', 7, '"my  editor" {file}', 'e {{1}} {file}  {file}'][rng.integers(9)]
    newterm = [None, True, False][rng.integers(3)]
    if nb is not None: base['launch_notebook_command'] = nb
    if ed is not None: base['launch_editor_command'] = ed
    if newterm is not None: base['launch_notebook_in_new_terminal'] = newterm
    user, local = {}, {}
    for k, v in base.items():
        m = rng.integers(3)
        if m == 0: user[k] = v
        elif m == 1: local[k] = v
        else: user[k] = [None, 'shadowed', '/nonexistent/zz'][rng.integers(3)]; local[k] = v
    r = Run(ck, rng, i, (user or None, local or None))
    which = str(rng.choice(['none', 'konsole', 'gnome-terminal', 'xterm', 'xdg-open', 'open']))
    rc = int(rng.choice([0, 0, 0, 1]))
    proc = bool(rng.random() < .4)
    if proc:
        with open(r.upath, 'ab') as fp:
            fp.write(b'''
import os
from dedop.model.processor import DummyProcessor
class Mine(DummyProcessor):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        with open(os.path.join(os.environ['HOME'], 'used'), 'a') as fp: fp.write('used ')
def processor_factory(*a, **k):
    return Mine(*a, **k)
''')
    title = str(rng.choice(['t', 'compare - [a] [b]', 'x' * 50]))
    nbdir = os.path.join(r.dir, 'note books'); nbpath = [None, os.path.join(nbdir, 'a b-1.ipynb')][rng.integers(2)]
    os.makedirs(nbdir)
    edited = os.path.join(r.dir, 'some file.json')

    def body():
        stubs()
        cmds = []
        def h(c):
            cmds.append(c)
            return rc
        out = {}
        with fakeproc.fake(h), mock.patch('shutil.which', lambda n, *a, **k: '/usr/bin/' + n if n == which else None):
            from dedop.cli import main
            from dedop.ui.workspace_manager import WorkspaceManager
            from dedop.ui.exception import WorkspaceError
            from dedop.ui.workspace import WorkspaceError as W2
            out['add'] = main.main(['workspace', 'add', 'wsx'])
            if proc:
                out['cfg'] = main.main(['config', 'add', 'cc'])
                with open('in.nc', 'w') as fp: fp.write('x')
                out['inp'] = main.main(['input', 'add', 'in.nc'])
                out['run'] = main.main(['run'])
            del cmds[:]
            for key, f in (('nb', lambda: WorkspaceManager.launch_notebook(title, nbdir, notebook_path=nbpath)),
                           ('ed', lambda: WorkspaceManager.open_file(edited))):
                try: f(); out[key] = ['ok']
                except (WorkspaceError, W2) as e: out[key] = ['error', str(e)]
                out[key].append(list(cmds)); del cmds[:]
            out['prefix'] = sys.prefix
        return out
    st = r.child(body)
    if st[0] != 'ok':
        r.bad('%s %s (settings %s, terminal %s)' % (st[1], st[2], base, which)); return r.finish()
    got, text = st[1]
    eff = dict(user); eff.update(local)

    def path(v):
        v = str(v)
        return os.path.join(r.home, v[2:]) if v.startswith('~/') else v
    wdir = path(eff['workspaces_dir']) if eff.get('workspaces_dir') else os.path.join(r.home, '.dedop', 'workspaces')
    wdir = os.path.normpath(os.path.join(r.cwd, wdir))
    ck.count('command line starts')
    found = [d for d, ds, fs in os.walk(r.dir) if os.path.basename(d) == 'wsx']
    if got['add'] != 0 or found != [os.path.join(wdir, 'wsx')]:
        r.bad('workspaces_dir %r: workspace created at %s (status %s), expected below %s' % (eff.get('workspaces_dir'), found, got['add'], wdir))
    if proc:
        used = os.path.exists(os.path.join(r.home, 'used')) and open(os.path.join(r.home, 'used')).read()
        if got['run'] != 0 or used != 'used ':
            r.bad('configured processor_factory: created %r, status %s: %s' % (used, [got[k] for k in ('cfg', 'inp', 'run')], text[-300:]))
        ck.count('configured processors')
    # notebook
    plain = 'jupyter notebook --notebook-dir "%s"' % nbdir + (' "%s"' % nbpath if nbpath else '')
    status, cmds = got['nb'][0], got['nb'][-1]
    nbv = eff.get('launch_notebook_command')
    valid = not nbv or isinstance(nbv, str) and nbv.strip()
    ck.count('notebooks launched')
    if not valid:
        if status != 'error' or cmds: r.bad('launch_notebook_command %r: %s' % (nbv, got['nb']))
    else:
        if (status == 'ok') != (rc == 0): r.bad('notebook program exits %d: %s' % (rc, got['nb']))
        full = '%s/bin/%s' % (got['prefix'], plain)
        if len(cmds) != 1: r.bad('notebook started by %s' % cmds)
        elif nbv:
            cf = os.path.join(r.home, '.dedop', 'temp', 'dedop-notebook-server')
            if cmds[0].startswith('x ') and '{command_file}' in nbv:
                cf = cmds[0][2:]
                try:
                    t = open(cf).read()
                    if not os.stat(cf).st_mode & stat.S_IEXEC or plain not in t: r.bad('command file %r' % t)
                    if not cf.startswith(r.home): r.bad('command file at %s' % cf)
                except OSError as e: r.bad('command file: %s' % e)
            e = nbv.strip().format(title='DeDop - ' + title, command=full, command_file=cf, prefix=got['prefix'])
            if cmds[0] != e: r.bad('launch_notebook_command %r starts %r, expected %r' % (nbv, cmds[0], e))
        else:
            if plain not in cmds[0]: r.bad('notebook started by %r, expected %r in it' % (cmds[0], plain))
            if which in ('konsole', 'gnome-terminal', 'xterm') and not cmds[0].startswith(which): r.bad('terminal %s not used: %r' % (which, cmds[0]))
    # editor
    status, cmds = got['ed'][0], got['ed'][-1]
    edv = eff.get('launch_editor_command')
    ck.count('editors launched')
    if edv and not (isinstance(edv, str) and edv.strip()):
        if status != 'error' or cmds: r.bad('launch_editor_command %r: %s' % (edv, got['ed']))
    elif edv:
        if cmds != [edv.strip().format(file=edited)]: r.bad('launch_editor_command %r starts %s' % (edv, cmds))
    elif which in ('xdg-open', 'open'):
        if cmds != ['%s "%s"' % (which, edited)]: r.bad('editor %s starts %s' % (which, cmds))
    elif cmds or status != 'ok': r.bad('no editor available: %s' % got['ed'])
    r.desc.update(kind='effects', dir=where, nb=nb, ed=ed, which=which, rc=rc, proc=proc)
    r.want = {'x': 1}
    r.finish()


def reader(ck, rng, n):
    """read_python_config on paths and on open files"""
    d = os.path.join(report.SCRATCH, 'c24', 'reader')
    os.makedirs(d)
    cases = []
    for i in range(n):
        kind, text, vals = gen(rng)
        if text is None: continue
        p = os.path.join(d, 'f%d.py' % i)
        with open(p, 'wb') as fp: fp.write(text)
        cases.append((kind, p, vals, i % 2 == 1))

    def body():
        from dedop.util.config import read_python_config
        out = []
        for kind, p, vals, asfile in cases:
            try:
                if asfile:
                    with open(p, encoding='utf-8') as fp:
                        c = read_python_config(fp)
                        if fp.closed: out.append(['closed']); continue
                else: c = read_python_config(p)
                out.append(['ok', {k: v for k, v in c.items() if k in vals}, '__builtins__' in c])
            except Exception as e: out.append(['error', repr(e)])
        return out
    st = in_child(body)
    if st[0] != 'ok': ck.violation('read_python_config: %s' % st[1:]); return
    for (kind, p, vals, asfile), g in zip(cases, st[1]):
        ck.count('files read')
        if kind in BROKEN: ok = g[0] == 'error'
        else: ok = g[0] == 'ok' and g[1] == J(vals) and not g[2]
        if not ok: ck.violation('read_python_config of a %s file (%s) gives %s, expected %s: %r' % (kind, 'open file' if asfile else 'path', g, vals, open(p, 'rb').read()[:300]))


def run(ck):
    # loaded here so that every forked case starts quickly; nothing of the code under test
    import netCDF4, scipy.interpolate, scipy.optimize, numexpr  # noqa
    os.environ['LC_ALL'] = 'C.UTF-8'
    rng = np.random.default_rng([24, ck.seed])
    n = 1500 if ck.thorough else 250
    reader(ck, rng, n)
    # every kind of value in one file where the other file gives the same setting an ordinary one
    k = len(NAMES)
    for j in range(0, len(VALS), k):
        odd = dict(zip(NAMES, VALS[j:j + k])); plain = {m: 'plain ' + m for m in odd}
        for f, forced in enumerate(((plain, odd), (odd, plain))):
            if not ck.full:
                lookups(ck, rng, n + 2 * j + f, forced)
                ck.count('shadowed settings', len(odd))
    for i in range(n):
        if ck.full: break
        (effects if i % 3 == 2 else lookups)(ck, rng, i)
