"""Progress and cancellation: event logs of recording monitors, real signals, cancellation at every point of real runs."""
import io, os, re, shutil, signal, contextlib, unittest.mock as mock
import numpy as np
from .. import chain, compare, harness, scen

RULE = ('one case = (a) one real processing run observed by a recording monitor and repeated with a cancellation request or '
        'keyboard interrupt at many points of its event sequence (before the first record, inside gaps, at the end), every '
        'product compared with the complete one; (b) one random tree of nested tasks with failures and cancellations on the '
        'real monitors; (c) interrupt handling around console tasks, with real signals. Non-trivial = monitor events observed')
ASSUMPTIONS = ['promptly = at most three further records are read and written after the request']
LATE = 3


def recorder(at=None, act=None):
    """monitor that records; at event number `at` the action is performed"""
    from dedop.util.monitor import Monitor

    class M(Monitor):
        def __init__(self):
            self.ev, self.flag, self.asked, self.polled = [], False, None, False

        def note(self, *e):
            self.ev.append(e)
            if at is not None and len(self.ev) == at + 1:
                self.asked = len(self.ev)
                (act or self.cancel)()

        def start(self, label, total_work=None): self.note('start', label, total_work)
        def progress(self, work=None, msg=None): self.note('progress', work, msg)
        def done(self): self.note('done')
        def cancel(self): self.flag = True

        def is_cancelled(self):
            self.note('poll')
            self.polled = self.flag
            return self.flag
    return M()


def trace(ev, complete, total=None):
    """-> problem of an event log"""
    kinds = [e[0] for e in ev]
    if kinds.count('start') != 1 or kinds.count('done') != 1:
        return 'task started %d times and ended %d times' % (kinds.count('start'), kinds.count('done'))
    i, j = kinds.index('start'), kinds.index('done')
    if any(k == 'progress' and not i < n < j for n, k in enumerate(kinds)):
        return 'progress reported outside the task'
    tot = ev[i][2]
    if tot is None: return None
    if total is not None and not 0 < tot <= total:
        return 'total work %s announced for %s records' % (tot, total)
    w = 0.
    for e in ev:
        if e[0] == 'progress' and e[1] is not None:
            if e[1] < 0: return 'negative progress %s' % e[1]
            w += e[1]
            if w > tot * (1 + 1e-9): return 'progress %s of %s' % (w, tot)
    if complete and abs(w - tot) > 1e-9 * max(tot, 1): return 'a complete task reported %s of %s' % (w, tot)


def contents(path):
    return compare.Product(path)


def prefix(L, what, part, full, sfx):
    a, b = part, full
    if a.n > b.n:
        L.bad('%s: %d records, the complete product has %d' % (what, a.n, b.n))
        return
    if set(a.raw) != set(b.raw):
        L.bad('%s: variables %s' % (what, sorted(set(a.raw) ^ set(b.raw))[:5]))
        return
    for k in b.raw:
        x, y = np.ma.getdata(a.raw[k]), np.ma.getdata(b.raw[k])
        y = y[:len(x)] if y.ndim and len(y) == b.n and len(x) == a.n else y
        if x.shape != y.shape or not np.array_equal(x, y, equal_nan=x.dtype.kind == 'f'):
            L.bad('%s: %s differs from the complete product' % (what, k))
            return
    L.n('records compared', a.n)
    ga = {k: v for k, v in a.glob.items() if k != 'creation_time'}
    miss = [k for k in b.glob if k not in a.glob]
    if miss: L.bad('%s: global attributes %s missing' % (what, miss[:5]))
    for k in ga:
        if k not in ('first_meas_time', 'last_meas_time', 'history') and str(ga[k]) != str(b.glob.get(k)):
            L.bad('%s: global attribute %s is %r, %r in the complete product' % (what, k, ga[k], b.glob.get(k)))


def _sigint():
    os.kill(os.getpid(), signal.SIGINT)


def cancelled(seed, theme, npoints):
    s = scen.solid(seed, theme, min_rec=3)
    if s is None: return [], {}, dict(seed=seed, drawn=False)
    L = compare.Log(s.desc)
    l1bs = bool(seed % 2)
    mon = recorder()
    r = harness.run(s.aux, s.l1a, s.out, l1bs=l1bs, monitor=mon, on_record=lambda c: mon.note('write', c))
    if r.error is not None:
        L.bad('processing failed with %s: %s' % (type(r.error).__name__, r.error))
        return chain.done(s, L)
    total = len(s.B['time'])
    p = trace(mon.ev, True, total)
    if p: L.bad('complete run: ' + p)
    L.n('runs'); L.n('events', len(mon.ev))
    full = {f: contents(x) for f, x in (('L1B', r.l1b), ('L1BS', r.l1bs)) if x}
    complete_status = r.status
    n = len(mon.ev)
    reads = [i for i, e in enumerate(mon.ev) if e[0] == 'progress' and e[1]]
    polls = [i for i, e in enumerate(mon.ev) if e[0] == 'poll']
    if not polls:
        L.bad('a processing run never looks for a cancellation request')
        return chain.done(s, L)
    rng = np.random.default_rng([seed, 22])
    if npoints is None: pts = list(range(n))
    else:
        pts = [-1, 0, polls[0], polls[-1], n - 2, n - 1] + [int(x) for x in rng.integers(0, n, npoints)]
        other = [i for i, e in enumerate(mon.ev) if e[0] == 'progress' and not e[1]]
        wr = [i for i, e in enumerate(mon.ev) if e[0] == 'write']
        pts += [int(rng.choice(wr)) for _ in range(min(len(wr), 3))]
        pts += [int(rng.choice(other)) for _ in range(min(len(other), 4))]
    for at in pts:
        mode = str(rng.choice(['api', 'api', 'console', 'sigint']))
        if at < 0 and seed % 2: mode = 'console'
        out = os.path.join(s.dir, 'c%d' % at)
        os.makedirs(out, exist_ok=True)
        seen = []
        old = signal.signal(signal.SIGINT, lambda *a: seen.append(1))
        try:
            if mode == 'api':
                m = recorder(at)
                if at < 0: m.cancel(); m.asked = 0
                obs = m
            else:
                # the real console monitor under a real interrupt; events observed on the way in
                from dedop.util.monitor import ConsoleMonitor
                obs = recorder(max(at, 1), _sigint) if mode == 'sigint' else recorder(at, lambda: m.cancel())

                class C(ConsoleMonitor):
                    def start(self, *a, **k): super().start(*a, **k); obs.start(*a, **k)
                    def progress(self, *a, **k): super().progress(*a, **k); obs.progress(*a, **k)
                    def done(self): obs.done(); super().done()
                    def is_cancelled(self): obs.note('poll'); return super().is_cancelled()
                m = C(stay_in_line=bool(rng.integers(2)))
                if mode == 'console' and at < 0: m.cancel(); obs.asked = 0
            h0 = signal.getsignal(signal.SIGINT)
            q = harness.run(s.aux, s.l1a, out, l1bs=l1bs, monitor=m, on_record=lambda c: obs.note('write', c))
            if signal.getsignal(signal.SIGINT) is not h0:
                L.bad('%s: interrupt handling not restored after the run' % mode)
        finally:
            signal.signal(signal.SIGINT, old)
        w = '%s cancellation at event %d of %d' % (mode, at, n)
        L.n('cancellations ' + mode)
        if mode == 'sigint' and seen: L.bad(w + ': the interrupt reached the previous handler')
        if q.error is not None:
            L.bad('%s: %s: %s' % (w, type(q.error).__name__, q.error))
            break
        p = trace(obs.ev, False, total)
        if p: L.bad('%s: %s' % (w, p))
        asked = obs.asked
        if asked is not None:
            late = sum(e[0] == 'progress' and bool(e[1]) for e in obs.ev[asked:])
            more = sum(e[0] == 'poll' for e in obs.ev[asked:])
            rec = max([sum(e[0] == 'write' and e[1] == c for e in obs.ev[asked:]) for c in ('L1BWriter', 'L1BWriterExtended', 'L1BSWriter')])
            if late > LATE or more > LATE + 1 or rec > LATE:
                L.bad('%s: %d further records read, %d written, %d further steps' % (w, late, rec, more))
            if len(obs.ev) > n + 2: L.bad('%s: %d events, %d in a complete run' % (w, len(obs.ev), n))
        prods = {f: x for f, x in (('L1B', q.l1b), ('L1BS', q.l1bs)) if x}
        if set(prods) != set(full):
            L.bad('%s: products %s, complete run: %s' % (w, sorted(prods), sorted(full)))
            break
        try:
            parts = {f: contents(x) for f, x in prods.items()}
        except Exception as e:
            L.bad('%s: product not readable: %s' % (w, e))
            break
        for f in parts: prefix(L, '%s: %s' % (w, f), parts[f], full[f], None)
        if len({p.n for p in parts.values()}) > 1: L.bad('%s: products of different length %s' % (w, {f: p.n for f, p in parts.items()}))
        stopped = any(p.n < full[f].n for f, p in parts.items())
        if stopped and q.status == complete_status:
            L.bad('%s: stopped after %d of %d records, but the run reports %r like a complete one' % (w, parts['L1B'].n, full['L1B'].n, q.status))
        if asked is None and (stopped or q.status != complete_status): L.bad('%s: never requested, but the run stopped' % w)
        L.n('runs stopped early', stopped)
        shutil.rmtree(out, ignore_errors=True)
        if L.viol: break
    return chain.done(s, L)


def failing(seed):
    """a run that fails inside: the task is ended, the handler is back, the failure is reported"""
    from dedop.util.monitor import ConsoleMonitor
    s = scen.solid(seed, 'gaps', min_rec=2)
    if s is None: return [], {}, dict(seed=seed, drawn=False)
    s.desc.update(kind='failing')
    L = compare.Log(s.desc)
    rng = np.random.default_rng([seed, 222])
    from dedop.data import output as out
    for k in range(4):
        boom = [int(rng.integers(1, 4))]
        cls = type('X', (Exception,), {})
        mode = k % 4
        mon = recorder()
        con = ConsoleMonitor()
        class Both(type(con)):
            def start(self, *a, **kw): mon.start(*a, **kw); super().start(*a, **kw)
            def progress(self, *a, **kw):
                mon.progress(*a, **kw)
                if mode == 0 and sum(e[0] == 'progress' for e in mon.ev) > boom[0]: raise cls('injected')
                super().progress(*a, **kw)
            def done(self): mon.done(); super().done()
            def is_cancelled(self):
                if mode == 1 and len(mon.ev) > 4 + boom[0]: raise cls('injected')
                return super().is_cancelled()
        aux, l1a, patch = s.aux, s.l1a, contextlib.nullcontext()
        if mode == 2:               # the disk is full
            wc = out.L1BWriterExtended if s.P.fmt == 'extended' else out.L1BWriter
            orig, cnt = wc.write_record, [0]
            def wr(self, *a, **kw):
                cnt[0] += 1
                if cnt[0] >= boom[0]: raise cls('injected')
                return orig(self, *a, **kw)
            patch = mock.patch.object(wc, 'write_record', wr)
        d = os.path.join(s.dir, 'f%d' % k)
        if mode != 3: os.makedirs(d)        # mode 3: no output folder
        h = lambda *a: None
        old = signal.signal(signal.SIGINT, h)
        try:
            with patch:
                q = harness.run(aux, l1a, d, monitor=Both(), hook=False)
            back = signal.getsignal(signal.SIGINT) is h
        finally:
            signal.signal(signal.SIGINT, old)
        if mode == 3 and q.error is None: continue          # the folder may as well be created
        if not back: L.bad('interrupt handling not restored after a failure (%d)' % mode)
        if q.error is None: L.bad('a failure inside the run (%d) was not reported' % mode)
        p = trace(mon.ev, False) if any(e[0] == 'start' for e in mon.ev) else None
        if p: L.bad('failing run (%d): %s' % (mode, p))
        L.n('failing runs'); L.n('events', len(mon.ev))
    return chain.done(s, L)


class Boom(Exception): pass


def nested(seed):
    """random tree of tasks on the real monitors"""
    from dedop.util.monitor import Monitor, ConsoleMonitor
    rng = np.random.default_rng([seed, 2222])
    L = compare.Log(dict(kind='nested', seed=seed))
    ch = lambda *a: a[int(rng.integers(len(a)))]
    for rep in range(30):
        console = rng.random() < .5
        cancels = [0]
        log = []
        if console:
            root = ConsoleMonitor(stay_in_line=bool(rng.integers(2)), progress_bar_size=ch(None, 0, 10, 30))
        else:
            root = recorder()
        exp = [0.]                  # work of the root done so far
        fails = rng.random() < .3
        labels = []
        state = dict(n=0, req=False)
        shown = io.StringIO()

        def got():
            if not console: return sum(e[1] or 0 for e in root.ev if e[0] == 'progress')

        def look(where, msg=None):
            g = got()
            if g is not None and abs(g - exp[0]) > 1e-9 * max(1, abs(exp[0])):
                L.bad('%s: %s of the work reported, %s done' % (where, g, exp[0]))
            if console:
                t = shown.getvalue().replace('\r', '\n').rstrip('\n').split('\n')[-1]
                m = re.search(r'(\d+)%', t)
                want = 100 * exp[0] / rt
                if not m or abs(int(m.group(1)) - want) > .5 + 1e-6: L.bad('%s: console shows %r at %.3f%%' % (where, t, want))
                if 'None' in t or (msg or '') not in t: L.bad('%s: console shows %r, message %r' % (where, t, msg))
                bar = re.search(r'\[(#*)(-*)\]', t)
                if bar and root_bar and (len(bar.group(0)) - 2 != root_bar or abs(len(bar.group(1)) - root_bar * want / 100) > 1.2):
                    L.bad('%s: progress bar %r at %.3f%%' % (where, bar.group(0), want))
            L.n('progress states compared')

        def task(mon, share, depth, name):
            """do all of the work of mon, which is worth share units of the root"""
            total = float(ch(1, 3, 10, 100, 7.5, .25, 1000)) if depth else rt
            labels.append(name)
            try:
                with mon.starting(name, total) as mm:
                    if mm is not mon: L.bad('starting() yields %r' % mm)
                    state['n'] += 1
                    left, k = total, int(rng.integers(1, 6))
                    for i in range(k):
                        w = left if i == k - 1 else left * float(rng.random())
                        left -= w
                        if depth < 4 and rng.random() < .4:
                            task(mon.child(w), share * w / total, depth + 1, name + '.%d' % i)
                        else:
                            c = rng.random()
                            if fails and c < .05: raise Boom(name)
                            if c < .08: mon.cancel(); state['req'] = True
                            if console and .08 < c < .13: _sigint(); state['req'] = True
                            if rng.random() < .15:
                                mon.progress(msg='note %d' % i)
                                if console and 'note %d' % i not in shown.getvalue().replace('\r', '\n').rstrip('\n').split('\n')[-1]:
                                    L.bad('%s: message "note %d" not shown' % (name, i))
                            msg = ch(None, 'm%d' % i)
                            mon.progress(w, msg=msg) if rng.random() < .5 else mon.progress(work=w, msg=msg)
                            exp[0] += share * w / total
                            look('%s step %d' % (name, i), msg)
                        if bool(mon.is_cancelled()) != (state['req'] and can): L.bad('%s: cancelled %s after a request %s' % (
                            name, mon.is_cancelled(), state['req']))
            finally:
                L.n('tasks')
        rt = float(ch(1, 50, 100, 345))
        root_bar = getattr(root, '_progress_bar_size', None)
        can = True
        seen = []
        h = ch(lambda *a: seen.append(1), signal.SIG_IGN, signal.default_int_handler)
        old = signal.signal(signal.SIGINT, h)
        err = None
        try:
            with contextlib.redirect_stdout(shown):
                try:
                    task(root, rt, 0, 'T')
                except Boom as e:
                    err = e
            now = signal.getsignal(signal.SIGINT)
        finally:
            signal.signal(signal.SIGINT, old)
        if now is not h: L.bad('interrupt handling is %r afterwards, was %r' % (now, h))
        if seen: L.bad('an interrupt during the task reached the previous handler')
        if err is None and abs(exp[0] - rt) > 1e-6: raise RuntimeError('tree wrong')
        if not console:
            p = trace(root.ev, err is None)
            if p: L.bad(p)
            L.n('events', len(root.ev))
            for e in root.ev:
                if e[0] == 'progress' and e[2] is not None and not any(l in str(e[2]) for l in labels) and not re.match(r'm\d|note \d', str(e[2])):
                    L.bad('message %r mentions no task' % e[2])
        else:
            t = [x for x in shown.getvalue().replace('\r', '\n').split('\n') if x]
            L.n('console lines', len(t))
            if not t or not all(x.startswith('T') for x in t): L.bad('console lines without the task label: %r' % t[:3])
            if t and ('cancelled' in t[-1]) != state['req']: L.bad('last console line %r, cancellation requested: %s' % (t[-1], state['req']))
        if L.viol: break
    # the null monitor accepts everything and is its own child
    N = Monitor.NULL
    with N.starting('x', 3) as m:
        m.progress(1); m.progress(msg='x'); c = m.child(2)
        with c.starting('y', 7): c.progress(5); c.cancel()
        if N.is_cancelled() or c.is_cancelled(): L.bad('the null monitor is cancelled')
    return L.viol, L.counts, L.desc


def handlers(seed):
    """interrupts before, during and after console tasks; sequences of tasks on one monitor or on several, nested ones too"""
    from dedop.util.monitor import ConsoleMonitor
    rng = np.random.default_rng([seed, 22222])
    L = compare.Log(dict(kind='handlers', seed=seed))
    o = io.StringIO()
    for rep in range(40):
        got = []
        h = lambda *a: got.append(1)
        old = signal.signal(signal.SIGINT, h)
        try:
            with contextlib.redirect_stdout(o):
                shared = ConsoleMonitor()
                want = 0
                for k in range(int(rng.integers(1, 4))):
                    m = shared if rng.random() < .4 else ConsoleMonitor(stay_in_line=bool(rng.integers(2)))
                    was = m.is_cancelled()
                    if rng.random() < .5: _sigint(); want += 1
                    if m.is_cancelled() != was: L.bad('an interrupt outside the task cancels it')
                    kind = int(rng.integers(4))
                    try:
                        with m.starting('t%d' % k, 5):
                            if rng.random() < .3:
                                inner = ConsoleMonitor()
                                with inner.starting('inner', 2):
                                    if rng.random() < .5:
                                        _sigint()
                                        if not inner.is_cancelled(): L.bad('an interrupt does not cancel the running task')
                                    inner.progress(2)
                                if signal.getsignal(signal.SIGINT) is h: L.bad('inner task removed the outer interrupt handling')
                            for i in range(5):
                                m.progress(1)
                                if kind == 1 and i == 2:
                                    _sigint()
                                    if not m.is_cancelled(): L.bad('an interrupt does not cancel the task')
                                if kind == 2 and i == 3: raise Boom()
                                if kind == 3 and i == 3: raise KeyboardInterrupt()
                                L.n('events')
                    except (Boom, KeyboardInterrupt):
                        if kind < 2: raise
                    else:
                        if kind >= 2: L.bad('a failure of the task was swallowed')
                    if signal.getsignal(signal.SIGINT) is not h: L.bad('interrupt handling not restored (%d)' % kind)
                    if rng.random() < .5: _sigint(); want += 1
                if len(got) != want: L.bad('%d interrupts reached the handler, %d were sent outside tasks' % (len(got), want))
                try:
                    with ConsoleMonitor().starting('', 1): pass
                except ValueError: pass
                if signal.getsignal(signal.SIGINT) is not h: L.bad('a refused start changed the interrupt handling')
        finally:
            signal.signal(signal.SIGINT, old)
        L.n('interrupt sequences')
    return L.viol, L.counts, L.desc


def dummy(seed):
    """the dummy processor: cancelled at every step"""
    from dedop.model.processor import DummyProcessor
    L = compare.Log(dict(kind='dummy', seed=seed))
    d = harness.scratch('dummy')
    rng = np.random.default_rng([seed, 3])
    with mock.patch('time.sleep', lambda *a: None):
        for k in range(12):
            skip = bool(rng.integers(2))
            out = os.path.join(d, 'o%d' % k)
            mk = lambda: DummyProcessor(name='n', output_dir=out, skip_l1bs=skip)
            at = None if k < 2 else int(rng.integers(0, 200))
            m = recorder(at)
            with harness.quiet(): mk().process('/x/L1A_a.nc', monitor=m)
            fs = sorted(os.listdir(out)) if os.path.isdir(out) else []
            # a request the processor could see
            seen = m.polled
            p = trace(m.ev, not seen)
            if p: L.bad('dummy run: ' + p)
            if not seen and len(fs) != (1 if skip else 2): L.bad('dummy run produced %s' % fs)
            if seen and sum(e[0] == 'progress' for e in m.ev[m.asked:]) > LATE: L.bad('dummy run goes on after cancellation')
            L.n('events', len(m.ev))
    shutil.rmtree(d, ignore_errors=True)
    return L.viol, L.counts, L.desc


def dispatch(fn, *a):
    return globals()[fn](*a)


def run(ck):
    b = ck.seed * 1000
    t = ck.thorough
    jobs = [('cancelled', b + k, ('gaps', None, 'gaps', 'long')[k % 4], 8 if not t else (None if k % 8 == 2 else 30)) for k in range(10 if not t else 40)]
    jobs += [('failing', b + 500 + k) for k in range(4 if not t else 24)]
    jobs += [('nested', b + k) for k in range(8 if not t else 200)]
    jobs += [('handlers', b + k) for k in range(4 if not t else 60)]
    jobs += [('dummy', b + k) for k in range(3 if not t else 30)]
    chain.many(ck, 'vmon.checks.c22', 'dispatch', jobs)
