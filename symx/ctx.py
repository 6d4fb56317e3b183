"""Scenario contexts: the same scenario function runs symbolically (inputs are
z3 variables, modules patched with shims) and concretely (inputs are the values
of a solver model, nothing patched)."""
import contextlib
import math

import numpy
import os
import shutil
import signal
import sys
import tempfile
import traceback

import z3

from . import core
from .core import (SBool, SInt, SReal, SNum, Abort, Unsupported, PathLimit,
                   Fraction, is_sym)

REPO = os.environ.get('VERIF_REPO', '/repo')


class ConcreteAssumeFailed(BaseException):
    pass


class Stub(object):
    """Base of harness stand-ins: a use the stub does not model is an encoding
    gap, not a violation."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('stub %s has no attribute %s' % (type(self).__name__, name))


class BaseCtx(object):
    def __init__(self):
        self.notes = []
        self._tmp = []

    def scratch(self):
        d = tempfile.mkdtemp(prefix='verif_')
        self._tmp.append(d)
        return d

    def cleanup(self):
        for d in self._tmp:
            shutil.rmtree(d, ignore_errors=True)
        self._tmp = []

    def choice(self, name, options):
        """forked choice among concrete options"""
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def ints(self, name, n, lo, hi):
        return [self.int('%s%d' % (name, i), lo, hi) for i in range(n)]

    def reals(self, name, n, lo=None, hi=None):
        return [self.real('%s%d' % (name, i), lo, hi) for i in range(n)]


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, eng):
        super().__init__()
        self.eng = eng

    def int(self, name, lo, hi):
        assert name not in self.eng.inputs, name
        t = z3.Int(name)
        self.eng.inputs[name] = ('int', t)
        self.eng.bounds[name] = ('int', lo, hi)
        self.eng.add(t >= lo)
        self.eng.add(t <= hi)
        if lo == hi:
            return lo
        return SInt(t)

    def real(self, name, lo=None, hi=None, pos=False):
        assert name not in self.eng.inputs, name
        t = z3.Real(name)
        self.eng.inputs[name] = ('real', t)
        self.eng.bounds[name] = ('real', lo, hi)
        if lo is not None:
            self.eng.add(t >= core.real_term(lo))
        if hi is not None:
            self.eng.add(t <= core.real_term(hi))
        if pos:
            self.eng.add(t > 0)
        return SReal(t)

    def bool(self, name):
        assert name not in self.eng.inputs, name
        t = z3.Bool(name)
        self.eng.inputs[name] = ('bool', t)
        self.eng.bounds[name] = ('bool', False, True)
        return SBool(t)

    def assume(self, cond):
        if isinstance(cond, SBool):
            self.eng.add(cond.t)
            if self.eng._check() == z3.unsat:
                raise Abort()
        elif not cond:
            raise Abort()

    def check(self, cond, label, detail=''):
        return self.eng.check(cond, label, detail)

    def eq(self, a, b, tol=None):
        return sym_eq(a, b)

    def check_eq(self, a, b, label, tol=None):
        a, b = unwrap(a), unwrap(b)
        c = sym_eq(a, b)
        if c is True and (is_sym(a) or is_sym(b)):
            self.eng.stats['queries'] += 1      # discharged by the solver's simplifier
        if isinstance(c, SBool):
            eng = self.eng
            eng.stats['checks'] += 1
            t = z3.simplify(c.t)
            if z3.is_true(t):
                eng.stats['queries'] += 1
                return True
            r = eng._check(z3.Not(t))
            if r == z3.unsat:
                return True
            model = eng.solver.model() if r == z3.sat else None
            # prefer a counterexample with a visible margin
            if is_sym(a) or is_sym(b):
                x, y = core.real_term(a), core.real_term(b)
                for m in ('1', '1/10', '1/100') if tol is None or tol > 0 else ('1/10', '1/1000', '1/100000'):
                    far = z3.Or(x - y >= z3.RealVal(m), y - x >= z3.RealVal(m))
                    if eng._check(far) == z3.sat:
                        r = z3.sat
                        model = eng.solver.model()
                        break
            if r == z3.sat:
                eng.failures.append(core.Failure(label, eng.model_inputs(model),
                                                 '%r != %r' % (a, b)))
            else:
                eng.failures.append(core.Failure(label + ' [solver: unknown]', None, '%r != %r' % (a, b), eng.input_spec()))
            return False
        return True if c is True else self.eng.check(c, label, '%r != %r' % (a, b))

    def check_le(self, a, b, label, tol=None):
        a, b = unwrap(a), unwrap(b)
        sa, sb = core._special(a), core._special(b)
        if sa is not None or sb is not None:
            return self.check(bool(a <= b), label)
        return self.check(a <= b, label, '%r > %r' % (a, b))

    def reach(self, label):
        self.eng.reached.add(label)

    def log(self, x): return core.fn_log(unwrap(x))
    def exp(self, x): return core.fn_exp(unwrap(x))
    def ite(self, c, a, b): return core.ite(c, a, b)

    def max(self, xs):
        r = xs[0]
        for x in xs[1:]:
            r = core.ite(x > r, x, r)
        return r

    def and_(self, *cs):
        return SBool(z3.And([core.bool_term(c) for c in cs])) if any(is_sym(c) for c in cs) else all(cs)

    def or_(self, *cs):
        return SBool(z3.Or([core.bool_term(c) for c in cs])) if any(is_sym(c) for c in cs) else any(cs)

    def not_(self, c):
        return ~c if is_sym(c) else not c

    def implies(self, a, b):
        return self.or_(self.not_(a), b)


def unwrap(x):
    """0-d arrays as scalars"""
    return x[()] if isinstance(x, numpy.ndarray) and x.ndim == 0 else x


def sym_eq(a, b):
    a, b = unwrap(a), unwrap(b)
    sa = core._special(a) if not is_sym(a) else None
    sb = core._special(b) if not is_sym(b) else None
    if sa is not None or sb is not None:
        if sa is None or sb is None:
            return False
        return (math.isnan(sa) and math.isnan(sb)) or sa == sb
    if not is_sym(a) and not is_sym(b):
        if isinstance(a, (int, float)) or hasattr(a, 'dtype'):
            return conc_eq(a, b)
        return bool(a == b)
    r = a == b
    if r is True:
        return True
    if isinstance(r, SBool) and isinstance(a, (SNum, int, float)) and isinstance(b, (SNum, int, float)) \
            and not (core.is_int(a) and core.is_int(b)):
        x, y, _ = core.common(a, b)
        d = z3.simplify(x - y, som=True)
        if z3.is_rational_value(d) and d.numerator_as_long() == 0:
            return True
    return r


def conc_eq(a, b, tol=None):
    if tol is None:
        tol = 1e-4
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    if tol < 0:     # relative to the value, however small
        return abs(fa - fb) <= -tol * max(abs(fa), abs(fb)) + 1e-30
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb)) * 1.0


class ConcCtx(BaseCtx):
    symbolic = False

    def __init__(self, inputs):
        super().__init__()
        self.inputs = inputs
        self.failed = []
        self.reached = set()

    def int(self, name, lo, hi):
        v = int(self.inputs.get(name, lo))
        self.assume(lo <= v <= hi)
        return v

    def real(self, name, lo=None, hi=None, pos=False):
        if name in self.inputs:
            v = float(Fraction(self.inputs[name]))
            # the bounds are assumptions, also for values near a solver model
            self.assume((lo is None or v >= float(lo) - 1e-12) and (hi is None or v <= float(hi) + 1e-12) and (not pos or v > 0))
            return v
        if lo is not None:
            return float(lo)
        if hi is not None:
            return float(min(hi, 1.0))
        return 1.0 if pos else 0.0

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def assume(self, cond):
        if not cond:
            raise ConcreteAssumeFailed()

    def check(self, cond, label, detail=''):
        if not cond:
            self.failed.append((label, str(detail)[:300]))
            return False
        return True

    def eq(self, a, b, tol=None):
        return conc_eq(a, b, tol)

    def check_eq(self, a, b, label, tol=None):
        return self.check(conc_eq(a, b, tol), label, '%r != %r' % (a, b))

    def check_le(self, a, b, label, tol=1e-4):
        if tol is None:
            tol = 1e-4
        return self.check(float(a) <= float(b) + tol * max(1.0, abs(float(b)) if math.isfinite(float(b)) else 1.0),
                          label, '%r > %r' % (a, b))

    def reach(self, label):
        self.reached.add(label)

    def log(self, x):
        x = float(x)
        return math.log(x) if x > 0 else (float('-inf') if x == 0 else float('nan'))

    def exp(self, x): return math.exp(x)
    def ite(self, c, a, b): return a if c else b
    def max(self, xs): return max(xs)
    def and_(self, *cs): return all(bool(c) for c in cs)
    def or_(self, *cs): return any(bool(c) for c in cs)
    def not_(self, c): return not c
    def implies(self, a, b): return (not a) or bool(b)


# --------------------------------------------------------------------------

def innermost_repo_or_verif(exc):
    """Where an exception was raised: 'repo' if the innermost frame among
    /repo and /verif frames is in /repo."""
    tb = traceback.extract_tb(exc.__traceback__)
    where = 'verif'
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for fr in tb:
        if fr.filename.startswith(REPO + '/'):
            where = 'repo'
        elif fr.filename.startswith(here + '/'):
            where = 'verif'
        elif where == 'verif' and fr.filename.endswith('/theano/compile/function_module.py') and fr.name == '__call__':
            where = 'repo'      # running a function whose graph the repository built
    return where


def short_tb(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return '; '.join('%s:%d %s' % (os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else os.path.basename(f.filename),
                                   f.lineno, f.name) for f in tb[-4:])


class HarnessError(Exception):
    pass


class H5pyMessageError(Exception):
    pass


class Hang(BaseException):
    pass


@contextlib.contextmanager
def time_limit(seconds, exc):
    """raise exc in the block after that many seconds (main thread of a worker)"""
    def handler(signum, frame):
        raise exc
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _open_errors():
    """the same error of h5py when a file cannot be opened: report it as the
    IOError that it stands for"""
    import h5py
    real = h5py.h5f.open

    def h5f_open(*args, **kwargs):
        try:
            return real(*args, **kwargs)
        except UnicodeDecodeError:
            raise OSError('Unable to open file')
    h5py.h5f.open = h5f_open


_open_errors()


def h5py_message_error(exc):
    """h5py 2.10 builds the message of an HDF5 error from memory that HDF5 may
    have freed; then UnicodeDecodeError takes the place of the real error"""
    return isinstance(exc, UnicodeDecodeError) and \
        any('h5py' in fr.filename or fr.name.startswith('h5py.') for fr in traceback.extract_tb(exc.__traceback__)[-3:])


def run_concrete(fn, inputs, limit=90):
    """returns list of (label, detail) failures; None when an assumption fails"""
    for _ in range(20):
        try:
            failed = _run_concrete(fn, inputs, limit)
        except H5pyMessageError:
            continue
        if failed and failed[0][0] != 'hang':
            # a failure that other runs of the same inputs do not show is not theirs
            try:
                failed = _run_concrete(fn, inputs, limit) or _run_concrete(fn, inputs, limit)
            except H5pyMessageError:
                continue
        return failed
    raise HarnessError('h5py fails to decode its error messages')


def _run_concrete(fn, inputs, limit):
    ctx = ConcCtx(inputs)
    try:
        with time_limit(limit, Hang()):
            fn(ctx)
    except Hang:
        ctx.failed.append(('hang', 'the real code did not finish in %d s' % limit))
    except ConcreteAssumeFailed:
        return None
    except (Unsupported, Abort) as e:
        raise HarnessError('%s: %s' % (type(e).__name__, e))
    except (Exception, SystemExit) as e:
        if h5py_message_error(e):
            raise H5pyMessageError()
        if innermost_repo_or_verif(e) == 'repo':
            ctx.failed.append(('exception', '%s: %s [%s]' % (type(e).__name__, e, short_tb(e))))
        elif not ctx.failed:        # with failed checks, the oracle only stumbled over the wrong result
            raise HarnessError('%s: %s [%s]' % (type(e).__name__, e, short_tb(e)))
    finally:
        ctx.cleanup()
    return ctx.failed
