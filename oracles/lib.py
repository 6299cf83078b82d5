"""Harness for the contract oracles that run on the real code (concrete replay of the contracts).

A case is a function case(t): it builds real objects of /repo, observes their public behaviour and compares it
with what the contract requires.  t.check / t.close record a failure under a stable key and go on, so several
distinct failures of one case are all reported."""
import json, os, sys, time, traceback, zlib
import numpy as np

CASES = {}     # prop -> list of (name, fn, seconds)
ORACLE_DIR = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')


def case(prop, name=None, seconds=60):
    def d(f):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            CASES.setdefault(p, []).append((name or f.__name__, f, seconds))
        return f
    return d


def show(v, n=12):
    if isinstance(v, np.ndarray):
        s = f'array{v.shape} '
        return s + np.array2string(v.ravel()[:n], precision=6, separator=',', max_line_width=10**6)
    r = repr(v)
    return r if len(r) < 300 else r[:300] + '...'


class Stop(Exception):
    pass


class T:
    def __init__(self, prop, name, seed, tier, budget):
        self.prop, self.name, self.seed, self.tier = prop, name, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32((prop + name).encode())])
        self.failures = {}
        self.trials = 0
        self.end = time.time() + budget
        self.notes = []

    thorough = property(lambda self: self.tier == 'thorough')

    def time_left(self):
        return time.time() < self.end

    def rounds(self, quick, thorough=None):
        n = quick if not self.thorough else (thorough or quick * 8)
        for i in range(n):
            if not self.time_left():
                self.notes.append(f'stopped after {i} of {n} rounds (time)')
                return
            yield i

    def check(self, ok, key, msg='', **inputs):
        self.trials += 1
        if not bool(ok) and key not in self.failures:
            self.failures[key] = dict(key=key, msg=str(msg)[:1500], inputs={k: show(v) for k, v in inputs.items()})
        return bool(ok)

    def close(self, got, want, key, msg='', rtol=1e-6, atol=None, **inputs):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            return self.check(False, key, f'{msg}: shape {got.shape} instead of {want.shape}', got=got, want=want, **inputs)
        if got.size == 0:
            return self.check(True, key)
        if atol is None:
            w = np.abs(want)
            w = w[np.isfinite(w)]
            atol = rtol * (w.max() if w.size else 1.0) + 1e-300
        ok = np.allclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
        if not ok:
            with np.errstate(all='ignore'):
                d = np.abs(got - want)
            i = np.unravel_index(np.nanargmax(d) if np.isfinite(d).any() else 0, d.shape)
            return self.check(False, key, f'{msg}: element {tuple(int(x) for x in i)} is {got[i]} instead of {want[i]}', got=got, want=want, **inputs)
        return self.check(True, key)

    def same(self, got, want, key, msg='', **inputs):
        got, want = np.asarray(got), np.asarray(want)
        ok = got.shape == want.shape and bool(np.array_equal(got, want))
        return self.check(ok, key, f'{msg}: {show(got)} instead of {show(want)}', **inputs)

    def raises(self, fn, key, msg='', exc=Exception, **inputs):
        try:
            r = fn()
        except exc:
            return self.check(True, key)
        return self.check(False, key, f'{msg}: accepted, returned {show(r)}', **inputs)

    class _Guard:
        """exceptions of the code under test inside the block become failures, the case goes on"""
        def __init__(self, t, key, inputs):
            self.t, self.key, self.inputs = t, key, inputs

        def __enter__(self):
            return self

        def __exit__(self, et, ev, tb):
            if et is None or not issubclass(et, Exception):
                return False
            if from_code_under_test(et, ev, tb):
                self.t.check(False, self.key, f'raised {et.__name__}: {ev}', trace=short_trace(tb), **self.inputs)
            else:
                self.t.notes.append(f'{self.key}: harness {et.__name__}: {ev} @ {short_trace(tb)}'[:400])
            return True

    def guard(self, key, **inputs):
        return T._Guard(self, key, inputs)


def frames(tb):
    return [(os.path.realpath(f.filename), f.lineno, f.name) for f in traceback.extract_tb(tb)]


def short_trace(tb):
    return ' < '.join(f'{os.path.basename(f)}:{l}:{n}' for f, l, n in reversed(frames(tb)[-6:]))


def from_code_under_test(et, ev, tb):
    """True if the innermost frame that is ours or acoular's belongs to acoular"""
    pk = os.path.realpath(os.path.join(REPO, 'acoular')) + os.sep
    for f, l, n in reversed(frames(tb)):
        if f.startswith(pk):
            return True
        if f.startswith(ORACLE_DIR):
            return False
    return False


def run_case(prop, name, fn, seed, tier, budget):
    t = T(prop, name, seed, tier, budget)
    t0 = time.time()
    status = 'ok'
    try:
        fn(t)
    except Stop:
        pass
    except Exception:
        et, ev, tb = sys.exc_info()
        if from_code_under_test(et, ev, tb):
            t.check(False, 'raises', f'raised {et.__name__}: {ev}', trace=short_trace(tb))
        else:
            status = 'harness-error'
            t.notes.append(f'{et.__name__}: {ev} @ {short_trace(tb)}'[:600])
    if t.failures:
        status = 'fail'
    return dict(case=name, status=status, trials=t.trials, failures=list(t.failures.values()), notes=t.notes[:5],
                seed=seed, tier=tier, wall=round(time.time() - t0, 2))
