"""Stand-in for cate.util.monitor (not installable here): same interface as used by dedop."""
from contextlib import contextmanager


class Monitor:
    NONE = None

    @contextmanager
    def starting(self, label, total_work=None):
        self.start(label, total_work=total_work)
        try:
            yield self
        finally:
            self.done()

    def start(self, label, total_work=None): pass
    def progress(self, work=None, msg=None): pass
    def done(self): pass
    def child(self, work): return self
    def cancel(self): pass
    def is_cancelled(self): return False


Monitor.NONE = Monitor()


class ConsoleMonitor(Monitor):
    def __init__(self, **kw): pass
