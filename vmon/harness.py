"""Running the real processor with observation from outside."""
import contextlib, copy, io, os, sys, shutil, warnings, tempfile
import numpy as np
from types import SimpleNamespace as NS
from . import report


def scratch(name='d'):
    return tempfile.mkdtemp(prefix=name + '_', dir=report.SCRATCH)


@contextlib.contextmanager
def quiet():
    o = io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(o), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            yield o


def snapshot(surface):
    """the surface object as it is now (buffers of the algorithms may be used again for the next one)"""
    memo = {}
    try:
        for v in list(vars(surface).values()):
            if type(v).__module__.startswith('dedop.conf'): memo[id(v)] = v
        for name in ('stack_bursts', 'stack_all_bursts'):
            for b in getattr(surface, name):
                memo[id(b)] = b
        return copy.deepcopy(surface, memo)
    except Exception:
        return surface


@contextlib.contextmanager
def record_surfaces(log, on_record=None):
    """observes the surface objects handed to the product writers; hook at the public write_record of the writers"""
    from dedop.data import output as out
    undo = []
    for cname in ('L1BWriter', 'L1BWriterExtended', 'L1BSWriter'):
        cls = getattr(out, cname, None)
        if cls is None or 'write_record' not in dir(cls):
            continue
        owner = [c for c in cls.__mro__ if 'write_record' in c.__dict__][0]
        if owner.__name__ == 'NetCDFWriter':
            continue
        orig = cls.write_record

        def hook(self, *a, _orig=orig, _c=cname, **k):
            surface = (a or tuple(k.values()))[0]
            # outermost call only (subclass -> super())
            if log.get('_depth', 0) == 0:
                log.setdefault(_c, []).append(snapshot(surface))
                if on_record: on_record(_c)
            log['_depth'] = log.get('_depth', 0) + 1
            try:
                return _orig(self, *a, **k)
            finally:
                log['_depth'] -= 1
        undo.append((cls, cls.__dict__.get('write_record')))
        cls.write_record = hook
    try:
        yield log
    finally:
        for cls, f in reversed(undo):
            if f is None: del cls.write_record
            else: cls.write_record = f


def processor(aux, outdir, name='run', l1bs=False):
    from dedop.proc.sar import L1BProcessor
    cnf, cst, chd = aux
    return L1BProcessor(name, cnf, cst, chd, outdir, skip_l1bs=not l1bs)


def run(aux, l1a, outdir, name='run', l1bs=False, proc=None, monitor=None, hook=True, on_record=None):
    """-> NS(error, log, l1b, l1bs, proc, text)"""
    log = {}
    r = NS(error=None, log=log, l1b=None, l1bs=None, proc=proc, text='')
    with quiet() as txt:
        ctx = record_surfaces(log, on_record) if hook else contextlib.nullcontext()
        with ctx:
            try:
                if r.proc is None:
                    r.proc = processor(aux, outdir, name, l1bs)
                kw = {} if monitor is None else dict(monitor=monitor)
                r.status = r.proc.process(l1a, **kw)
            except Exception as e:
                r.error = e
    r.text = txt.getvalue()
    base = os.path.splitext(os.path.basename(l1a))[0]
    if base.startswith('L1A'): base = base[3:]
    p = os.path.join(outdir, 'L1B_%s_%s.nc' % (base, name))
    r.l1b = p if os.path.exists(p) else None
    p = os.path.join(outdir, 'L1BS_%s_%s.nc' % (base, name))
    r.l1bs = p if os.path.exists(p) else None
    r.surfaces = log.get('L1BWriterExtended') or log.get('L1BWriter') or []
    return r
