import importlib, os, sys, traceback
from . import report


def main():
    pid = sys.argv[1]
    os.makedirs(report.SCRATCH, exist_ok=True)
    ck = report.Check(pid)
    mod = importlib.import_module('vmon.checks.' + pid.lower())
    ck.rule = (mod.RULE or '').strip()
    ck.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
    try:
        report.watchdog(600 if not ck.thorough else 6000)
        try:
            mod.run(ck)
        finally:
            report.watchdog(0)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        in_repo = [f for f in tb if f.filename.startswith(report.REPO + '/dedop')]
        traceback.print_exc()
        if in_repo:
            f = in_repo[-1]
            ck.violation('unexpected %s escaped from the code under test: %s (at %s:%s in %s)' % (
                type(e).__name__, e, f.filename, f.lineno, f.name), dict(trace=traceback.format_exc().splitlines()[-12:]))
        elif isinstance(e, (ValueError, IndexError, KeyError, ArithmeticError, OSError)):
            ck.violation('observed data malformed: %s: %s' % (type(e).__name__, e),
                         dict(trace=traceback.format_exc().splitlines()[-12:]))
        else:
            print('no answer: the harness failed')
            return 3
    return ck.finish()


if __name__ == '__main__':
    sys.exit(main())
