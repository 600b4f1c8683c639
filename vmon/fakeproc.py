"""Stand-in for every way of starting a program: records the command, starts nothing."""
import contextlib, subprocess, unittest.mock as mock


@contextlib.contextmanager
def fake(handler):
    """handler(cmd) -> exit code (or raises OSError as a failing start would)"""
    import numexpr, netCDF4, platform   # these start programs themselves when first loaded
    platform.uname().processor
    class P:
        def __init__(self, args, *a, **k):
            self.args, self.pid = args, 0
            self.nothing = '' if k.get('text') or k.get('universal_newlines') or k.get('encoding') else b''
            self.stdin = self.stdout = self.stderr = None
            cmd = args if isinstance(args, str) else ' '.join(map(str, args))
            self.returncode = handler(cmd) or 0

        def __enter__(self): return self
        def __exit__(self, *a): return False
        def wait(self, timeout=None): return self.returncode
        def poll(self): return self.returncode
        def communicate(self, input=None, timeout=None): return self.nothing, self.nothing
        def kill(self): pass
        terminate = kill

    with mock.patch('subprocess.Popen', P), mock.patch('os.system', lambda c: handler(c) or 0):
        yield
