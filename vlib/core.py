"""Shared machinery of the property checks.

A check module (checks/cNN.py) registers *sub-checks*. Each one consists of

* a Hypothesis strategy producing a *case*: plain JSON data (numbers, strings,
  lists, dicts), so that a shrunk failing case is itself the replay file,
* a function ``fn(case, rec)`` which builds the objects described by the case,
  runs qopt and compares with an independent oracle. It raises ``Violation``
  on disagreement.

Outcome of a case:

* returns                      -> held
* ``Violation``                -> the property is broken
* an exception out of qopt     -> the property is broken (the generators only
  produce inputs the documentation accepts)
* a TypeError, ValueError, AttributeError or LookupError while the harness
  reads a result -> the property is broken (result of the wrong form)
* any other exception          -> error of the harness (exit 2, no VIOLATION)
"""
import contextlib
import hashlib
import io
import json
import os
import signal
import sys
import threading
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

from . import defaults, paths

import numpy as np
import hypothesis
from hypothesis import settings, HealthCheck, Phase
from hypothesis.errors import Flaky, StopTest, UnsatisfiedAssumption

defaults.install()
defaults.install_layouts()
REPO_PKG = os.path.realpath(os.path.join(paths.REPO, 'qopt')) + os.sep


class Violation(Exception):
    """The observed behaviour contradicts the property."""


class HarnessError(Exception):
    pass


SUBCHECKS = {}     # name -> SubCheck, insertion ordered
KNOWN_PROBES = {}  # finding id -> function


class SubCheck:
    def __init__(self, name, strategy, fn, quick, thorough, shards):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.shards = shards


# every registered number of quick cases is multiplied with this
QUICK_FACTOR = 4


def subcheck(name, strategy, quick=200, thorough=None, shards=1):
    """Register a sub-check. `quick`/`thorough` are numbers of cases."""
    def deco(fn):
        if name in SUBCHECKS:
            raise HarnessError('duplicate sub-check ' + name)
        SUBCHECKS[name] = SubCheck(
            name, strategy, fn, quick,
            thorough if thorough is not None else quick * 20, shards)
        return fn
    return deco


def known_probe(finding_id):
    """Register the reproduction of a listed known finding.

    The function returns True while the defect is present.
    """
    def deco(fn):
        KNOWN_PROBES[finding_id] = fn
        return fn
    return deco


class Recorder:
    """Collects what the cases covered."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_hashes = set()
        self.labels = {}
        self.samples = []
        self._cur_nontrivial = True

    def begin(self):
        self._cur_nontrivial = True
        self._cur_labels = set()

    def label(self, name, cond=True):
        if cond:
            self._cur_labels.add(str(name))

    def nontrivial(self, cond):
        """All conditions must hold for the case to count as non-trivial."""
        self._cur_nontrivial = self._cur_nontrivial and bool(cond)

    def end(self, case):
        self.evaluations += 1
        for lab in self._cur_labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        if self._cur_nontrivial:
            h = hashlib.sha1(json.dumps(case, sort_keys=True, default=str)
                             .encode()).hexdigest()[:16]
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if len(self.samples) < 2 and self.evaluations > 3:
                    self.samples.append(case)


# ----------------------------------------------------------------- comparing
def arr(x, what='value'):
    """Numpy array of a result of the code under test (or Violation)."""
    if hasattr(x, 'data') and type(x).__name__ in ('DenseOperator',):
        x = x.data
    try:
        a = np.asarray(x)
    except Exception as e:
        raise Violation('%s cannot be read as an array: %r' % (what, e))
    if a.dtype == object:
        try:
            a = np.array([arr(y, what) for y in x])
        except Violation:
            raise
        except Exception:
            raise Violation('%s is not numeric: %r' % (what, x))
        if a.dtype == object:
            raise Violation('%s is not numeric: %r' % (what, x))
    return a


def close(actual, expected, what, atol=1e-9, rtol=1e-9, shape=True):
    """Elementwise comparison with a stated tolerance, NaN is never close."""
    a = arr(actual, what)
    e = np.asarray(expected)
    if shape and a.shape != e.shape:
        raise Violation('%s: shape %s, expected %s'
                        % (what, a.shape, e.shape))
    if not shape and a.size != e.size:
        raise Violation('%s: size %s, expected %s' % (what, a.size, e.size))
    a = a.reshape(e.shape)
    if a.size == 0:
        return
    if not np.issubdtype(a.dtype, np.number) and a.dtype != bool:
        raise Violation('%s is not numeric: %r' % (what, actual))
    if not np.all(np.isfinite(a)):
        raise Violation('%s is not finite: %s' % (what, a))
    scale = np.max(np.abs(e))
    err = np.max(np.abs(a - e))
    if err > atol + rtol * scale:
        raise Violation('%s: deviates by %.3e (tolerance %.1e)\n got %s\n '
                        'expected %s' % (what, err, atol + rtol * scale,
                                         np.array2string(a, threshold=40),
                                         np.array2string(e, threshold=40)))


def require(cond, what):
    if not cond:
        raise Violation(what)


def same(actual, expected, what):
    if not (type(actual) is type(expected) or
            isinstance(actual, type(expected)) or
            isinstance(expected, type(actual))
            or (isinstance(actual, (int, np.integer))
                and isinstance(expected, (int, np.integer)))) \
            or not bool(np.all(actual == expected)):
        raise Violation('%s: got %r, expected %r' % (what, actual, expected))


def must_raise(excs, fn, what):
    try:
        fn()
    except excs:
        return
    except Exception as e:
        raise Violation('%s: raised %r instead of %s' % (what, e, excs))
    raise Violation('%s: did not raise %s' % (what, excs))


# ----------------------------------------------------------------- executing
def _from_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO_PKG):
            return True
        tb = tb.tb_next
    return False


class NoResult(BaseException):
    """A case does not come to an end."""


CASE_SECONDS = {'cpu': 120, 'wall': 300}


def _no_result(signum, frame):
    raise NoResult('no result within %d s' % CASE_SECONDS[
        'cpu' if signum == signal.SIGPROF else 'wall'])


def watchdog(on):
    if threading.current_thread() is not threading.main_thread():
        return
    for sig, timer, key in ((signal.SIGPROF, signal.ITIMER_PROF, 'cpu'),
                            (signal.SIGALRM, signal.ITIMER_REAL, 'wall')):
        if on:
            signal.signal(sig, _no_result)
        signal.setitimer(timer, CASE_SECONDS[key] if on else 0)


def reset_globals(case):
    """Every case starts from the same global state."""
    defaults.new_case(json.dumps(case, sort_keys=True, default=str))
    np.random.seed(12345)
    import random
    random.seed(12345)
    if 'matplotlib.pyplot' in sys.modules:
        sys.modules['matplotlib.pyplot'].close('all')


def run_case(sc, case, rec):
    reset_globals(case)
    rec.begin()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # qopt switches its deprecation warnings on again
        warnings.showwarning = lambda *args, **kwargs: None
        with np.errstate(all='ignore'):
            try:
                watchdog(True)
                try:
                    with contextlib.redirect_stdout(io.StringIO()):
                        sc.fn(case, rec)
                finally:
                    watchdog(False)
            except (Violation, HarnessError, UnsatisfiedAssumption, StopTest):
                raise
            except Exception as e:
                if _from_repo(e):
                    raise Violation(
                        'unexpected %s: %s\n%s' % (
                            type(e).__name__, e,
                            ''.join(traceback.format_exception(e)[-4:]))
                    ) from e
                if isinstance(e, (TypeError, ValueError, AttributeError,
                                  LookupError)):
                    # the result of qopt does not have the documented form
                    raise Violation(
                        'the result cannot be read: %s: %s\n%s' % (
                            type(e).__name__, e,
                            ''.join(traceback.format_exception(e)[-4:]))
                    ) from e
                raise
    rec.end(case)


def run_shard(name, seed, n, budget_s, shrink_s):
    """Run `n` cases of one sub-check; returns a plain result dict."""
    sc = SUBCHECKS[name]
    rec = Recorder()
    t0 = time.time()
    st = {'first': None, 'best': None, 'msg': None, 'skipped': 0}

    def test(case):
        if st['first'] is None:
            if time.time() - t0 > budget_s:
                st['skipped'] += 1
                return
        elif time.time() - st['first'] > shrink_s and case != st['best']:
            return   # stop shrinking: nothing but the best case fails now
        try:
            run_case(sc, case, rec)
        except Violation as v:
            if st['first'] is None:
                st['first'] = time.time()
            st['best'] = json.loads(json.dumps(case))
            st['msg'] = str(v)
            raise
        except NoResult as e:
            st['best'] = json.loads(json.dumps(case))
            st['msg'] = str(e)
            raise

    out = {'name': name, 'seed': seed, 'violation': None, 'error': None}
    wrapped = hypothesis.seed(seed)(
        settings(max_examples=n, database=None, deadline=None,
                 suppress_health_check=list(HealthCheck),
                 report_multiple_bugs=False, print_blob=False,
                 phases=[Phase.generate] + (
                     [] if os.environ.get('VERIF_NOSHRINK')
                     else [Phase.shrink]),
                 verbosity=hypothesis.Verbosity.quiet)(
            hypothesis.given(sc.strategy)(test)))
    try:
        wrapped()
    except Violation as v:
        out['violation'] = {'case': st['best'], 'message': st['msg'] or str(v)}
    except Flaky:
        # a Violation was observed, but not on every repetition of the case
        if st['best'] is not None:
            out['violation'] = {'case': st['best'], 'message':
                                '(not on every repetition) ' + str(st['msg'])}
        else:
            out['error'] = traceback.format_exc()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if st['best'] is not None:
            out['violation'] = {'case': st['best'], 'message': st['msg']}
        else:
            out['error'] = traceback.format_exc()
    out.update(evaluations=rec.evaluations,
               nontrivial=sorted(rec.nontrivial_hashes),
               labels=rec.labels, samples=rec.samples,
               skipped=st['skipped'], wall=time.time() - t0)
    return out


def clip(obj, limit=2500):
    s = json.dumps(obj)
    return obj if len(s) <= limit else s[:limit] + '...'


def run_property(pid, meta, tier, seed, only=None, jobs=None):
    """Run all sub-checks of a property. Returns the exit code."""
    t0 = time.time()
    thorough = tier == 'thorough'
    budget = meta.get('budget_s', 240) if not thorough else 1500
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    tasks = []
    for i, sc in enumerate(SUBCHECKS.values()):
        if only and sc.name not in only:
            continue
        total = sc.thorough if thorough else sc.quick * QUICK_FACTOR
        total = max(1, int(total * scale))
        shards = max(sc.shards, 8) if thorough else sc.shards
        shards = min(shards, total)
        for k in range(shards):
            n = total // shards + (1 if k < total % shards else 0)
            s = (seed * 1000003 + i * 1009 + k * 97 + 17) % (2 ** 31)
            tasks.append((sc.name, s, n, budget, 60))
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    results = []
    if jobs == 1:
        results = [run_shard(*t) for t in tasks]
    else:
        ctx = multiprocessing.get_context('fork')
        with ProcessPoolExecutor(min(jobs, len(tasks)), ctx) as ex:
            futs = [ex.submit(run_shard, *t) for t in tasks]
            for t, f in zip(tasks, futs):
                try:
                    results.append(f.result())
                except Exception:
                    results.append({'name': t[0], 'seed': t[1],
                                    'violation': None,
                                    'error': traceback.format_exc(),
                                    'evaluations': 0, 'nontrivial': [],
                                    'labels': {}, 'samples': [],
                                    'skipped': 0, 'wall': 0})

    # ---- known findings: probes of the listed ones
    errors, violations = [], []
    for kf in load_known(pid):
        probe = KNOWN_PROBES.get(kf['id'])
        if probe is None:
            errors.append('no probe for known finding ' + kf['id'])
            continue
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    reset_globals(None)
                    present = probe()
        except Exception:
            errors.append(traceback.format_exc())
            continue
        if present:
            print('KNOWN-FINDING: property=%s %s: %s'
                  % (pid, kf['id'], kf['what']))

    per_sub = {}
    distinct = set()
    samples = []
    evaluations = 0
    for r in results:
        p = per_sub.setdefault(r['name'], dict(
            evaluations=0, distinct_nontrivial=0, labels={}, wall_s=0.0,
            skipped_by_time_budget=0, _h=set()))
        p['evaluations'] += r['evaluations']
        p['_h'].update(r['nontrivial'])
        p['wall_s'] = round(p['wall_s'] + r['wall'], 2)
        p['skipped_by_time_budget'] += r['skipped']
        for k, v in r['labels'].items():
            p['labels'][k] = p['labels'].get(k, 0) + v
        evaluations += r['evaluations']
        for c in r['samples'][:1]:
            if not any(s['subcheck'] == r['name'] for s in samples):
                samples.append({'subcheck': r['name'], 'case': clip(c)})
        if r['error']:
            errors.append('sub-check %s seed %s:\n%s'
                          % (r['name'], r['seed'], r['error']))
        if r['violation']:
            violations.append((r['name'], r['violation']))
    for n, p in per_sub.items():
        h = p.pop('_h')
        p['distinct_nontrivial'] = len(h)
        distinct.update((n, x) for x in h)

    evidence = {
        'property': pid, 'tier': 'thorough' if thorough else 'quick',
        'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': evaluations,
            'distinct_nontrivial': len(distinct),
            'rule': meta['rule'],
            'samples': samples,
            'subchecks': per_sub,
        },
        'assumptions': meta.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(violations),
    }
    if not only:
        os.makedirs(os.path.join(paths.VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(paths.VERIF, 'evidence', pid + '.json')
        with open(path, 'w') as f:
            json.dump(evidence, f, indent=1)
            f.write('\n')

    seen = set()
    for name, v in violations:
        if name in seen:
            continue
        seen.add(name)
        h = hashlib.sha1(json.dumps(v['case'], sort_keys=True).encode()
                         ).hexdigest()[:10]
        d = os.path.join(paths.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s.json' % (pid, name, h))
        with open(path, 'w') as f:
            json.dump({'property': pid, 'subcheck': name, 'case': v['case'],
                       'message': v['message'],
                       'replay_cmd': 'bash check.sh %s --replay %s'
                       % (pid, path)}, f, indent=1)
            f.write('\n')
        print('--- %s/%s: %s' % (pid, name, v['message']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for e in errors:
        print('HARNESS-ERROR %s: %s' % (pid, e), file=sys.stderr)
    print('%s: %d cases, %d distinct non-trivial, %d violations, %d errors, '
          '%.1f s' % (pid, evaluations, len(distinct), len(seen), len(errors),
                      time.time() - t0))
    if seen:
        return 1
    return 2 if errors else 0


def load_known(pid):
    path = os.path.join(paths.VERIF, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == pid]


def replay(path):
    with open(path) as f:
        data = json.load(f)
    sc = SUBCHECKS[data['subcheck']]
    rec = Recorder()
    try:
        run_case(sc, data['case'], rec)
    except Violation as v:
        print(v)
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    except NoResult as e:
        print(e)
        print('VIOLATION property=%s replay=%s' % (data['property'], path))
        return 1
    print('replay holds')
    return 0
