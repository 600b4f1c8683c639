"""Bookkeeping of one check run: observed events, violations, evidence, known findings."""
import json, os, sys, time, traceback, hashlib

ROOT = os.environ.get('VMON_ROOT', os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VMON_REPO', '/repo')        # only set when a scratch copy is tried during development
SCRATCH = os.environ.get('VMON_SCRATCH', '/tmp/vmon_scratch')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class NotEnding(Exception):
    """the code under test used far more processor time than any case needs"""


def watchdog(seconds):
    """raise NotEnding when this process has used so much (user) processor time from now on; 0 = off"""
    import signal

    def fire(*_):
        raise NotEnding('does not end (%d s of processor time used)' % seconds)
    signal.signal(signal.SIGVTALRM, fire)
    # fires again and again: the code under test may swallow the exception
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 5 if seconds else 0)


CASE_LIMIT = 150 if TIER == 'quick' else 1500


def load_known():
    """known-findings file: lines  'known: property=<id> key=<key> <text>'  (fixed: lines suppress nothing)"""
    out = {}
    path = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known:'):
                f = line.split(None, 3)
                pid = f[1].split('=', 1)[1]
                key = f[2].split('=', 1)[1]
                out.setdefault(pid, {})[key] = f[3] if len(f) > 3 else ''
    return out


class Check:
    MAX_VIOL = int(os.environ.get('VMON_MAXVIOL', '12'))

    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known = load_known().get(pid, {})
        self.known_hit = {}
        self.assumptions = []
        self.rule = ''
        self.tier = TIER
        self.seed = SEED
        self.thorough = TIER == 'thorough'
        self.budget = float(os.environ.get('VMON_BUDGET', '0') or 0)

    # -- observations
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def case(self, desc, nontrivial=True):
        """one evaluated case; desc is a short json-able description"""
        self.evaluations += 1
        if nontrivial:
            h = hashlib.sha1(json.dumps(desc, sort_keys=True, default=str).encode()).hexdigest()
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 6:
                    self.samples.append(desc)

    def violation(self, what, replay=None, key=None):
        """replay: json-able object describing how to reproduce"""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known[key]
            return
        self.violations.append((what, replay))
        sys.stdout.write('!! %s: %s\n' % (self.pid, str(what)[:600]))
        sys.stdout.flush()

    @property
    def full(self):
        return len(self.violations) >= self.MAX_VIOL

    def elapsed(self):
        return time.time() - self.t0

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level='exploration',
                  coverage=dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                                rule=self.rule, samples=self.samples or ['(none)'],
                                observed=dict(sorted(self.counters.items()))),
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as fp:
            json.dump(ev, fp, indent=1, default=str)
            fp.write('\n')
        for key, text in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, text))
        if self.violations:
            rdir = os.path.join(ROOT, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s.json' % self.pid)
            with open(path, 'w') as fp:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               how='VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s' % (self.seed, self.tier, self.pid),
                               violations=[dict(what=w, replay=r) for w, r in self.violations]),
                          fp, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        print('OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs observed=%s' % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.distinct), wall,
            json.dumps(dict(sorted(self.counters.items())))))
        return 0
