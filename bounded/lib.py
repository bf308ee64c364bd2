"""Run-time contract checking of the real code in /repo: shared machinery.

Every clause is an executable contract evaluated on generated inputs of the *real* functions (imported from /repo's
working tree).  It serves two purposes: (1) replaying / confirming obligations that the deductive verifier refutes, and
(2) the bounded stand-in for functions the verifier could not bring within reach on this tree (labelled bounded).

Clauses only look at observable behaviour.  They never depend on the order in which independent random draws are made:
draws are *encoded* (every draw is a distinct, decodable number) so that a result says which draws it was built from.
"""

from __future__ import annotations

import json
import os
import signal
import sys
import time
import traceback
import types
import warnings
import zlib

REPO = os.environ.get('VERIF_REPO', '/repo')

_loaded = False


class Rec:
    """A recorded call into an (absent) inference framework, closed under arithmetic."""

    __array_priority__ = 1e6

    def __init__(self, kind, *args, **kw):
        self.kind, self.args, self.kw = kind, args, kw

    def _bin(self, op, other, rev=False):
        return Rec(op, other, self) if rev else Rec(op, self, other)

    def __mul__(self, o):
        return self._bin('mul', o)

    def __rmul__(self, o):
        return self._bin('mul', o, True)

    def __add__(self, o):
        return self._bin('add', o)

    def __radd__(self, o):
        return self._bin('add', o, True)

    def __repr__(self):
        return f'{self.kind}({", ".join([repr(a) for a in self.args] + [f"{k}={v!r}" for k, v in self.kw.items()])})'


class _FakeMod(types.ModuleType):
    def __init__(self, name, table):
        super().__init__(name)
        self.__dict__.update(table)
        self.__path__ = []


CALLS = []
FAULT = [None, ValueError]  # how many framework calls until one is refused, and with what


def _ctor(kind):
    def make(*args, **kw):
        if FAULT[0] is not None:
            FAULT[0] -= 1
            if FAULT[0] == 0:
                raise FAULT[1]('refused by the inference framework')
        r = Rec(kind, *args, **kw)
        CALLS.append(r)
        return r

    return make


def load():
    """Import gerabaldi from /repo with recording stand-ins for the heavy optional inference frameworks."""
    global _loaded
    if _loaded:
        return
    dists = {n: _ctor('dist.' + n) for n in ('Normal', 'Gamma', 'Uniform')}
    pm = _FakeMod('pymc', {n: _ctor('pymc.' + n) for n in ('Normal', 'Gamma', 'Uniform', 'Deterministic')})
    pyd = _FakeMod('pyro.distributions', dists)
    pyro = _FakeMod('pyro', {'sample': _ctor('pyro.sample'), 'distributions': pyd})
    tc = _FakeMod(
        'torch',
        {
            'multiply': lambda a, b: Rec('mul', a, b) if isinstance(a, Rec) or isinstance(b, Rec) else a * b,
            'add': lambda a, b: Rec('add', a, b) if isinstance(a, Rec) or isinstance(b, Rec) else a + b,
        },
    )
    tc.mul = tc.multiply
    for name, mod in (('pymc', pm), ('pyro', pyro), ('pyro.distributions', pyd), ('torch', tc)):
        sys.modules[name] = mod
    sys.path.insert(0, REPO)
    import gerabaldi  # noqa: F401
    import logging

    f = getattr(gerabaldi, '__file__', '')
    if not os.path.abspath(f).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f'gerabaldi imported from {f}, expected {REPO}')
    logging.getLogger('gerabaldi').setLevel(logging.CRITICAL)
    warnings.simplefilter('ignore')
    _loaded = True


class Violation(Exception):
    pass


class Hang(BaseException):
    """The real code did not come back within the per-case limit."""


CASE_LIMIT = int(os.environ.get('VERIF_CASE_LIMIT', '90'))


def _on_alarm(signum, frame):
    raise Hang


class Skip(Exception):
    """The clause does not apply to this tree (a private helper it drives is gone) or to this generated case."""


class T:
    """One evaluation of one clause."""

    def __init__(self, rng):
        self.rng = rng
        self.inputs = {}
        self.nontrivial = False

    def note(self, **kw):
        for k, v in kw.items():
            self.inputs[k] = show(v)
        return self

    def fail(self, msg, **kw):
        self.note(**kw)
        raise Violation(msg)

    def ok(self, cond, msg, **kw):
        self.nontrivial = True
        if not bool(cond):
            self.fail(msg, **kw)

    def eq(self, got, want, msg, **kw):
        import numpy as np

        self.nontrivial = True
        try:
            g, w = np.asarray(got), np.asarray(want)
            same = g.shape == w.shape and bool(np.all((g == w) | ((g != g) & (w != w))))
        except Exception:
            same = False
        if not same:
            self.fail(msg, got=got, want=want, **kw)

    def close(self, got, want, msg, rtol=1e-9, atol=1e-12, **kw):
        import numpy as np

        self.nontrivial = True
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
            same = g.shape == w.shape and bool(np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True))
        except Exception:
            same = False
        if not same:
            self.fail(msg, got=got, want=want, **kw)

    def raises(self, exc, fn, msg):
        self.nontrivial = True
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            self.fail(f'{msg}: raised {type(e).__name__}: {e} instead of {getattr(exc, "__name__", exc)}')
        self.fail(f'{msg}: no {getattr(exc, "__name__", exc)} raised', returned=r)


def show(v, lim=600):
    s = repr(v)
    return s if len(s) <= lim else s[:lim] + '...'


class Clause:
    def __init__(self, fn, quick, thorough, funcs):
        self.fn, self.name, self.quick, self.thorough, self.funcs = fn, fn.__name__, quick, thorough, funcs
        self.doc = ' '.join((fn.__doc__ or '').split())


def registry():
    clauses = []

    def clause(quick=30, thorough=None, funcs=''):
        def deco(fn):
            clauses.append(Clause(fn, quick, thorough or quick * 12, funcs))
            return fn

        return deco

    return clauses, clause


def private(modname, name):
    """A private helper of the package, or Skip when a refactoring removed it."""
    import importlib

    try:
        return getattr(importlib.import_module(modname), name)
    except (ImportError, AttributeError) as e:
        raise Skip(f'{modname}.{name} absent') from e


def run_case(cl, seed, idx):
    import numpy as np

    rng = np.random.default_rng([seed, zlib.crc32(cl.name.encode()), idx])
    t = T(rng)
    try:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(CASE_LIMIT)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with np.errstate(all='ignore'):
                    cl.fn(rng, t)
        finally:
            signal.alarm(0)
    except Skip:
        return t, 'skip', None
    except Violation as e:
        return t, 'violation', str(e)
    except Hang:
        return t, 'violation', f'no result within {CASE_LIMIT} s (such a case normally takes well under a second)'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{f.filename}:{f.lineno} {f.name}' for f in tb][-6:]
        in_repo = any(os.path.abspath(f.filename).startswith(REPO + os.sep) for f in tb)
        last_harness = not os.path.abspath(tb[-1].filename).startswith(REPO + os.sep) if tb else True
        if isinstance(e, (AttributeError, ImportError)) and last_harness and not in_repo:
            return t, 'skip', f'harness: {e}'
        t.note(traceback=where)
        return t, 'violation', f'unexpected {type(e).__name__}: {e}'
    return t, 'ok', None


def run_clauses(clauses, seed, tier, budget=None, only=None):
    """Returns (summary, failures)."""
    load()
    t0 = time.time()
    out, fails, samples = [], [], []
    evals = distinct = 0
    hung = False
    seen = set()
    for cl in clauses:
        if only and cl.name not in only:
            continue
        n = cl.thorough if tier == 'thorough' else cl.quick
        done = skipped = 0
        t1 = time.time()
        for i in range(n * 8 if tier == 'quick' else n):
            if budget and time.time() - t0 > budget or (i >= n and tier == 'quick' and time.time() - t1 > 5):
                break
            t, status, msg = run_case(cl, seed, i)
            if status == 'skip':
                skipped += 1
                continue
            done += 1
            evals += 1
            key = (cl.name, json.dumps(t.inputs, sort_keys=True, default=str))
            if t.nontrivial and key not in seen:
                seen.add(key)
                distinct += 1
            if len(samples) < 6 and i == 0:
                samples.append({'clause': cl.name, 'case': i, 'inputs': t.inputs})
            if status == 'violation':
                fails.append(
                    {'clause': cl.name, 'contract': cl.doc, 'functions': cl.funcs, 'seed': seed, 'case': i,
                     'message': msg, 'inputs': t.inputs}
                )
                hung = msg.startswith('no result within')
                break
        out.append({'clause': cl.name, 'contract': cl.doc, 'functions': cl.funcs, 'cases': done, 'skipped': skipped})
        if hung:
            break
    return {
        'clauses': out, 'evaluations': evals, 'distinct_nontrivial': distinct, 'samples': samples,
        'wall_s': round(time.time() - t0, 2),
    }, fails
