"""Shared machinery of all checks: paths, evidence, violations, parallel map.

Every check is a Python module ``checks/cXX.py`` with a function
``check(run)``.  ``run`` is a :class:`Run`.  A check enumerates a finite space
completely, calls ``run.violation(...)`` for every counterexample and records
what it covered in ``run.cov``.
"""
import hashlib
import json
import multiprocessing
import os
import shutil
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NCDIFF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
EVIDENCE = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.json')

sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)

NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """An error of the harness itself (never of the code under test)."""


def import_ncdiff():
    import logging
    logging.disable(logging.CRITICAL)
    import ncdiff
    real = os.path.realpath(ncdiff.__file__)
    if not real.startswith(os.path.realpath(SRC)):
        raise CheckError('ncdiff imported from {}'.format(real))
    return ncdiff


def scratch(prefix='mc-'):
    return tempfile.mkdtemp(prefix=prefix)


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


class Run(object):

    def __init__(self, prop, tier, seed, level='model_checking'):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.seed = seed
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_seen = {}
        self.exhaustive = True
        self.max_violations = 5

    # ---- counters -------------------------------------------------------
    def merge(self, stats):
        self.states += stats.get('states', 0)
        self.transitions += stats.get('transitions', 0)
        self.traces += stats.get('traces', 0)
        for k, v in stats.get('extra', {}).items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.extra[k] = self.extra.get(k, 0) + v
            elif isinstance(v, (list, tuple, set)):
                cur = set(self.extra.get(k, []))
                cur.update(v)
                self.extra[k] = sorted(cur)
            else:
                self.extra[k] = v
        for s in stats.get('samples', []):
            self.sample(s)
        for v in stats.get('violations', []):
            self.violation(**v)
        if self.violations and os.environ.get('MC_FAILFAST'):
            # for measurements of the machinery only
            raise Enough()

    def sample(self, s):
        if len(self.samples) < 5:
            self.samples.append(s)

    # ---- violations -----------------------------------------------------
    def violation(self, key, what, case):
        """key identifies the failing input / call site / history."""
        for f in load_known()['findings']:
            if f['property'] == self.prop and f['key'] == key:
                self.known_seen[key] = f['what']
                return
        self.violations.append({'key': key, 'what': what, 'case': case})

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {}
        if self.level == 'model_checking':
            cov['states'] = self.states
            cov['transitions'] = self.transitions
            cov['traces_validated_against_impl'] = self.traces
        else:
            cov['evaluations'] = self.transitions
            cov['distinct_nontrivial'] = self.states
            cov['rule'] = self.extra.pop('rule', '')
        cov['samples'] = self.samples
        cov['exhaustive'] = self.exhaustive
        cov.update(self.extra)
        ev = {
            'property': self.prop,
            'tier': self.tier,
            'seed': self.seed,
            'level': self.level,
            'coverage': cov,
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(self.violations),
        }
        path = os.path.join(EVIDENCE, self.prop + '.json')
        tmp = path + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        os.replace(tmp, path)
        for key in sorted(self.known_seen):
            print('KNOWN-FINDING: property={} {}'
                  .format(self.prop, self.known_seen[key]))
        rdir = os.path.join(EVIDENCE, 'replays')
        if self.violations:
            os.makedirs(rdir, exist_ok=True)
            for v in self.violations[:self.max_violations]:
                h = hashlib.sha1(json.dumps(v, sort_keys=True, default=str)
                                 .encode()).hexdigest()[:10]
                p = os.path.join(rdir, '{}-{}.json'.format(self.prop, h))
                with open(p, 'w') as f:
                    json.dump({'property': self.prop, **v}, f, indent=1,
                              default=str)
                print('VIOLATION property={} replay={}'.format(self.prop, p))
                print('  ' + str(v['what'])[:2000].replace('\n', '\n  '))
            if len(self.violations) > self.max_violations:
                print('  ... {} violations in total'
                      .format(len(self.violations)))
            return 1
        print('OK property={} tier={} states={} transitions={} traces={} '
              'wall={:.1f}s'.format(self.prop, self.tier, self.states,
                                    self.transitions, self.traces,
                                    time.time() - self.t0))
        return 0


class Stats(object):
    """Per-worker accumulator, picklable through .dict()."""

    def __init__(self, limit=10):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}
        self.samples = []
        self.violations = []
        self.limit = limit

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def violation(self, key, what, case):
        if len(self.violations) < self.limit:
            self.violations.append({'key': key, 'what': what, 'case': case})

    def dict(self):
        return {'states': self.states, 'transitions': self.transitions,
                'traces': self.traces, 'extra': self.extra,
                'samples': self.samples, 'violations': self.violations}


def _call(args):
    func, item = args
    try:
        r = func(item)
        return ('ok', r.dict() if isinstance(r, Stats) else r)
    except BaseException:
        return ('err', traceback.format_exc())


def pmap(func, items, procs=None):
    """Run func over items in forked workers; a harness error is re-raised."""
    items = list(items)
    procs = min(procs or NCPU, max(1, len(items)))
    if procs == 1 or os.environ.get('MC_SERIAL'):
        for i in items:
            tag, r = _call((func, i))
            if tag == 'err':
                raise CheckError(r)
            yield r
        return
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs) as pool:
        for tag, r in pool.imap_unordered(
                _call, [(func, i) for i in items], chunksize=1):
            if tag == 'err':
                raise CheckError(r)
            yield r


def chunks(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]


def rmtree(path):
    shutil.rmtree(path, ignore_errors=True)


def raised_by_sut(tb):
    """True if the innermost non-library frame of a traceback is in ncdiff."""
    import re
    frames = re.findall(r'File "([^"]+)", line', tb)
    src = os.path.join(os.path.realpath(SRC), 'ncdiff')
    for f in reversed(frames):
        f = os.path.realpath(f)
        if f.startswith(src):
            return True
        if f.startswith(VERIF):
            return False
    return False


class Timeout(Exception):
    pass


class Enough(Exception):
    pass


class cpu_limit(object):
    """Raise Timeout inside the block after ``seconds`` of CPU time."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        import signal

        def handler(signum, frame):
            raise Timeout('no result after {} s of CPU time'
                          .format(self.seconds))
        self.old = signal.signal(signal.SIGVTALRM, handler)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False
