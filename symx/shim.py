"""Stand-ins installed in the namespaces of the modules under test while they
run symbolically.  NumPy is delegated to the real NumPy on object arrays whose
elements are proxies."""
import contextlib
import logging
import math
import types
import sys

import numpy as np

from . import core
from .core import SBool, SInt, SReal, SNum, is_sym, Unsupported


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(e) for e in x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return any(has_sym(e) for e in x)
    return False


class SArr(np.ndarray):
    """object ndarray that keeps proxies through astype() and can be indexed by
    object arrays of (symbolic) integers or truth values"""

    def __getitem__(self, i):
        return np.ndarray.__getitem__(self, _index(i))

    def __setitem__(self, i, v):
        i = _index(i)
        if self.dtype != object and has_sym(v):
            raise Unsupported('symbolic value stored in a native array')
        narrow = getattr(self, '_narrow', None)
        if narrow is not None:
            v = _conv(v, narrow) if is_sym(v) or not hasattr(v, '__len__') else obj_array(v).astype(narrow)
        np.ndarray.__setitem__(self, i, v)

    def astype(self, dtype, *a, **k):
        if self.dtype == object:
            out = np.empty(self.shape, dtype=object)
            flat = out.ravel() if self.ndim else None
            if self.ndim == 0:
                out[()] = _conv(self[()], dtype)
            else:
                out = np.array([_conv(e, dtype) for e in self.ravel().tolist()] + [None], dtype=object)[:-1].reshape(self.shape)
            return out.view(SArr)
        return np.ndarray.astype(self, dtype, *a, **k)

    def max(self, axis=None, **k):
        return amax(self, axis)

    def min(self, axis=None, **k):
        return amin(self, axis)

    def mean(self, axis=None, **k):
        s = self.sum(axis=axis)
        n = self.size if axis is None else self.shape[axis]
        return s / n

    def all(self, axis=None, **k):
        if axis is None:
            return all(bool(e) for e in self.ravel().tolist())
        return np.ndarray.all(self, axis=axis, **k)

    def any(self, axis=None, **k):
        if axis is None:
            return any(bool(e) for e in self.ravel().tolist())
        return np.ndarray.any(self, axis=axis, **k)


def _index(i):
    if isinstance(i, tuple):
        return tuple(_index(e) for e in i)
    if isinstance(i, list) and has_sym(i):
        i = obj_array(i)
    if isinstance(i, np.ndarray) and i.dtype == object:
        l = i.ravel().tolist()
        if l and all(isinstance(e, (bool, SBool, np.bool_)) for e in l):
            return np.array([bool(e) for e in l], dtype=bool).reshape(i.shape)
        return np.array([int(e) for e in l], dtype='int64').reshape(i.shape)
    if isinstance(i, SInt):
        return int(i)
    if isinstance(i, SBool):
        return bool(i)
    return i


def _conv(e, dtype):
    if is_sym(e):
        return core.to_dtype(e, dtype)
    try:
        kind = np.dtype(dtype).kind
    except TypeError:
        return e
    if kind == 'f': return float(np.float16(e)) if np.dtype(dtype).itemsize <= 2 else float(e)
    if kind in 'iu': return core.narrow_int(int(e), dtype)
    if kind == 'b': return bool(e)
    return e


def sarr(x):
    return obj_array(x)


def obj_array(x):
    if isinstance(x, np.ndarray):
        return x.astype(object).view(SArr) if x.dtype != object else x.view(SArr)
    shape = []
    y = x
    while isinstance(y, (list, tuple)):
        shape.append(len(y))
        if not len(y):
            break
        y = y[0]
    if isinstance(y, np.ndarray) and y.ndim:
        return np.stack([obj_array(e) for e in x]).view(SArr)
    out = np.empty(tuple(shape), dtype=object)

    def fill(idx, z):
        if len(idx) == len(shape):
            out[tuple(idx)] = z
            return
        if len(z) != shape[len(idx)]:
            raise ValueError('ragged')
        for i, e in enumerate(z):
            fill(idx + [i], e)
    fill([], x)
    return out.view(SArr)


def amax(a, axis=None):
    return _reduce(a, axis, lambda x, y: core.ite(y > x, y, x))


def amin(a, axis=None):
    return _reduce(a, axis, lambda x, y: core.ite(y < x, y, x))


def _reduce(a, axis, f):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    if axis is None:
        l = a.ravel().tolist()
        if not l:
            raise ValueError('zero-size array to reduction operation which has no identity')
        r = l[0]
        for e in l[1:]:
            r = f(r, e)
        return r
    a = np.moveaxis(a, axis, 0)
    if a.ndim == 1:
        return _reduce(a, None, f)
    return obj_array([_reduce(a[(slice(None),) + i], None, f) for i in np.ndindex(a.shape[1:])]).reshape(a.shape[1:])


def _map(f, *args):
    if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
        return f(*args)
    arrs = np.broadcast_arrays(*[obj_array(a) if not is_sym(a) and isinstance(a, (list, tuple, np.ndarray))
                                 else _scalar_obj(a) for a in args])
    out = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*out.shape):
        out[i] = f(*[a[i] for a in arrs])
    return out.view(SArr)


def _scalar_obj(a):
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def _is(kind):
    def f(x):
        if is_sym(x):
            return False
        return getattr(np, kind)(x)
    return f


def logaddexp(a, b):
    sa = None if is_sym(a) else core._special(a)
    sb = None if is_sym(b) else core._special(b)
    if sa is not None or sb is not None:
        return np.logaddexp(*[float('-inf') if s == float('-inf') else (s if s is not None else 0.0) for s in (sa, sb)]) \
            if (sa is not None and sb is not None) or (sa == float('inf') or sb == float('inf')) \
            else (b if sa is not None else a)
    return core.fn_log(core.fn_exp(a) + core.fn_exp(b))


class RandomShim(object):
    def __init__(self, hooks=None):
        self._hooks = hooks or {}

    def __getattr__(self, name):
        if name in self._hooks:
            return self._hooks[name]
        return getattr(np.random, name)


class NumpyShim(object):
    """Delegates to numpy; array constructors give object arrays."""

    def __init__(self, random_hooks=None, overrides=None):
        self._over = overrides or {}
        self.random = RandomShim(random_hooks)

    def __getattr__(self, name):
        if name in self._over:
            return self._over[name]
        return getattr(np, name)

    ndarray = np.ndarray

    def zeros(self, shape, dtype=float, **k):
        return self.full(shape, 0 if np.dtype(dtype).kind in 'iu' else (False if np.dtype(dtype).kind == 'b' else 0.0), dtype)

    def ones(self, shape, dtype=float, **k):
        return self.full(shape, 1 if np.dtype(dtype).kind in 'iu' else (True if np.dtype(dtype).kind == 'b' else 1.0), dtype)

    def empty(self, shape, dtype=float, **k):
        return self.full(shape, None)

    def full(self, shape, v, dtype=None, **k):
        if isinstance(shape, (list, tuple)):
            shape = tuple(int(s) for s in shape)
        else:
            shape = (int(shape),)
        a = np.empty(shape, dtype=object)
        a[...] = v
        a = a.view(SArr)
        # elements of a type that is narrow enough to matter are converted when stored
        if dtype is not None and np.dtype(dtype).kind in 'iuf' and np.dtype(dtype).itemsize <= 2:
            a._narrow = np.dtype(dtype)
        return a

    def zeros_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        v = 0 if a.dtype.kind in 'iu' else 0.0
        return self.full(a.shape, v)

    def ones_like(self, a, dtype=None, **k):
        a = np.asarray(a)
        v = 1 if a.dtype.kind in 'iu' else 1.0
        return self.full(a.shape, v)

    def full_like(self, a, v, dtype=None, **k):
        return self.full(np.asarray(a).shape, v)

    def array(self, x, dtype=None, **k):
        if hasattr(x, '__next__') or isinstance(x, (types.GeneratorType, range, map)):
            x = list(x)
        if has_sym(x):
            if is_sym(x):
                return x if dtype is None else core.to_dtype(x, dtype)
            a = obj_array(x)
            if dtype is not None and np.dtype(dtype).kind != 'O':
                a = a.astype(dtype)
            return a.copy()
        a = np.array(x, dtype=dtype) if dtype is not None else np.array(x)
        if a.dtype.kind == 'f':
            return a.astype(object).view(SArr)
        if a.dtype.kind in 'iu':
            return a.view(SArr)
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, np.ndarray) and (dtype is None or x.dtype == object):
            return x
        return self.array(x, dtype)
    asanyarray = asarray
    ascontiguousarray = asarray

    def arange(self, *a, dtype=None, **k):
        return np.arange(*[int(x) if isinstance(x, SInt) else x for x in a])

    def copy(self, a):
        return np.array(a, dtype=object).view(SArr) if has_sym(a) else np.copy(a)

    def log(self, x): return _map(core.fn_log, x)
    def exp(self, x): return _map(core.fn_exp, x)
    def sqrt(self, x): return _map(core.fn_sqrt, x)
    def log10(self, x): return _map(lambda e: core.fn_log(e) / core.fn_log(10), x) if has_sym(x) else np.log10(x)
    def log2(self, x): return _map(lambda e: core.fn_log(e) / core.fn_log(2), x) if has_sym(x) else np.log2(x)
    def abs(self, x): return _map(abs, x)
    absolute = abs
    fabs = abs
    def logaddexp(self, a, b): return _map(logaddexp, a, b)
    def isnan(self, x): return _b(_map(_is('isnan'), x))
    def isinf(self, x): return _b(_map(_is('isinf'), x))
    def isneginf(self, x): return _b(_map(_is('isneginf'), x))
    def isfinite(self, x): return _b(_map(lambda e: True if is_sym(e) else np.isfinite(e), x))
    def floor(self, x): return _map(math.floor, x)
    def ceil(self, x): return _map(math.ceil, x)
    def rint(self, x): return _map(round, x)

    def round(self, x, decimals=0, **k):
        if not has_sym(x) and not (isinstance(x, np.ndarray) and x.dtype == object):
            return np.round(x, decimals)
        return _map(lambda e: round(e, decimals), x)
    around = round_ = round
    def maximum(self, a, b): return _map(lambda x, y: core.ite(x >= y, x, y), a, b)
    def minimum(self, a, b): return _map(lambda x, y: core.ite(x <= y, x, y), a, b)

    def where(self, c, *ab):
        if ab:
            return _map(core.ite, c, *ab)
        return np.where(np.asarray([bool(e) for e in np.ravel(c)]).reshape(np.shape(c)))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not has_sym(a) and not has_sym(b):
            return np.isclose(np.asarray(a, dtype=float), np.asarray(b, dtype=float), rtol, atol)
        return _map(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)

    def allclose(self, a, b, **k):
        return all(bool(e) for e in np.ravel(self.isclose(a, b, **k)))

    def array_equal(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))

    def sum(self, a, axis=None, **k):
        return obj_array(a).sum(axis=axis) if not isinstance(a, np.ndarray) else a.sum(axis=axis)

    def mean(self, a, axis=None, **k):
        return (obj_array(a) if not isinstance(a, np.ndarray) else a.view(SArr) if a.dtype == object else a).mean(axis=axis)

    def average(self, a, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(a, axis)
        w = obj_array(weights)
        return (obj_array(a) * w).sum(axis=axis) / w.sum()

    def median(self, a, axis=None, **k):
        a = list(np.ravel(obj_array(a)).tolist())
        if not has_sym(a):
            return float(np.median(np.array(a, dtype=float)))
        n = len(a)
        if n % 2 and n > 3:
            return core.median(a)
        for i in range(n):          # odd-even transposition sort
            for j in range(i % 2, n - 1, 2):
                c = a[j] <= a[j + 1]
                a[j], a[j + 1] = core.ite(c, a[j], a[j + 1]), core.ite(c, a[j + 1], a[j])
        if n % 2:
            return a[n // 2]
        return (a[n // 2 - 1] + a[n // 2]) / 2

    def max(self, a, axis=None, **k):
        if not has_sym(a) and not isinstance(a, SArr):
            return np.max(a, axis=axis)
        return amax(obj_array(a), axis)
    amax = max

    def min(self, a, axis=None, **k):
        if not has_sym(a) and not isinstance(a, SArr):
            return np.min(a, axis=axis)
        return amin(obj_array(a), axis)
    amin = min

    def vectorize(self, f, **k):
        def g(*args):
            return _map(f, *args)
        return g

    def _cast(dtype):
        def f(self, x=0):
            if is_sym(x):
                return core.to_dtype(x, dtype)
            if isinstance(x, np.ndarray) and x.dtype == object:
                return x.view(SArr).astype(dtype)
            return getattr(np, dtype)(x)
        return f

    def dtype(self, d): return np.dtype(d)


def _b(x):
    if isinstance(x, np.ndarray):
        return x.astype(bool) if not isinstance(x, SArr) else np.array([bool(e) for e in x.ravel().tolist()], dtype=bool).reshape(x.shape)
    return x


class _CastMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __call__(cls, x=0, *a, **k):
        if is_sym(x):
            return core.to_dtype(x, cls._real)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x.view(SArr).astype(cls._real)
        if isinstance(x, str):
            h = core.engine().unhandle(x)
            if h is not None:
                return core.to_dtype(h, cls._real)
        return cls._real(x, *a, **k)


for _n in ('float64', 'float32', 'int64', 'int32', 'int8', 'int16'):
    _cls = _CastMeta(_n, (), {'_real': getattr(np, _n), 'dtype': np.dtype(_n)})
    setattr(NumpyShim, _n, _cls)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SReal))

    def __call__(cls, x=0.0):
        if isinstance(x, SReal):
            return x
        if isinstance(x, (SInt, SBool)):
            return SReal(core.real_term(x))
        if isinstance(x, str):
            h = core.engine().unhandle(x)
            if h is not None:
                return SReal(core.real_term(h))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return cls(x.ravel()[0])
        if isinstance(x, DecimalShim):
            return cls(x.v)
        return float(x)


class sym_float(metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SInt))

    def __call__(cls, x=0, *a):
        if isinstance(x, SInt):
            return x
        if isinstance(x, SReal):
            return x.__trunc__()
        if isinstance(x, SBool):
            return x._num()
        if isinstance(x, str):
            h = core.engine().unhandle(x)
            if h is not None:
                if not isinstance(h, SInt):
                    raise ValueError('invalid literal for int()')
                return h
        return int(x, *a)


class sym_int(metaclass=_IntMeta):
    pass


def sym_max(*args, key=None, **k):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if key is not None or not any(is_sym(x) for x in xs) or not all(isinstance(x, (SNum, int, float, np.number)) for x in xs):
        return max(xs, key=key, **k) if key is not None else max(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        r = core.ite(x > r, x, r)
    return r


def sym_min(*args, key=None, **k):
    xs = list(args[0]) if len(args) == 1 else list(args)
    if key is not None or not any(is_sym(x) for x in xs) or not all(isinstance(x, (SNum, int, float, np.number)) for x in xs):
        return min(xs, key=key, **k) if key is not None else min(xs, **k)
    r = xs[0]
    for x in xs[1:]:
        r = core.ite(x < r, x, r)
    return r


class MathShim(object):
    def __getattr__(self, n):
        return getattr(math, n)
    def log(self, x, base=None):
        r = core.fn_log(x)
        return r if base is None else r / core.fn_log(base)
    def log10(self, x): return core.fn_log(x) / core.fn_log(10) if is_sym(x) else math.log10(x)
    def exp(self, x): return core.fn_exp(x)
    def sqrt(self, x): return core.fn_sqrt(x)
    def isnan(self, x): return False if is_sym(x) else math.isnan(x)
    def isinf(self, x): return False if is_sym(x) else math.isinf(x)
    def isfinite(self, x): return True if is_sym(x) else math.isfinite(x)


_FROM_NUMPY = {'log', 'exp', 'zeros', 'ones', 'array', 'asarray', 'maximum', 'minimum'}


@contextlib.contextmanager
def patched(modules, np_shim=None, extra=None, builtins=('float', 'int', 'max', 'min')):
    """Replaces numpy/math (under whatever names the module bound them) and
    some builtins in the namespaces of the given modules."""
    np_shim = np_shim or NumpyShim()
    mshim = MathShim()
    repl = {'float': sym_float, 'int': sym_int, 'max': sym_max, 'min': sym_min}
    saved = []
    for m in modules:
        g = m.__dict__
        for name, val in list(g.items()):
            new = None
            if val is np:
                new = np_shim
            elif val is math:
                new = mshim
            elif val is np.random:
                new = np_shim.random
            elif val is np.inf:
                continue
            elif isinstance(val, (np.ufunc, types.FunctionType, types.BuiltinFunctionType)) and \
                    getattr(np, name, None) is val and hasattr(NumpyShim, name):
                new = getattr(np_shim, name)
            elif isinstance(val, (types.BuiltinFunctionType,)) and getattr(math, name, None) is val and hasattr(MathShim, name):
                new = getattr(mshim, name)
            if new is not None:
                saved.append((g, name, True, val))
                g[name] = new
        for b in builtins:
            if b not in g:
                saved.append((g, b, False, None))
                g[b] = repl[b]
        for name, val in (extra or {}).get(m.__name__, {}).items():
            saved.append((g, name, name in g, g.get(name)))
            g[name] = val
    lvl = logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        yield np_shim
    finally:
        logging.disable(lvl)
        for g, name, had, val in reversed(saved):
            if had:
                g[name] = val
            else:
                del g[name]


def pkg(*prefixes):
    """loaded modules of the given packages (helpers moved to new modules of a
    package are patched too)"""
    return [m for n, m in sorted(sys.modules.items())
            if isinstance(m, types.ModuleType) and any(n == p or n.startswith(p + '.') for p in prefixes)]


class DecimalShim(object):
    """decimal.Decimal over symbolic reals"""

    def __init__(self, v=0):
        self.v = v.v if isinstance(v, DecimalShim) else v

    def _o(self, o): return o.v if isinstance(o, DecimalShim) else o
    def __add__(self, o): return DecimalShim(self.v + self._o(o))
    __radd__ = __add__
    def __sub__(self, o): return DecimalShim(self.v - self._o(o))
    def __rsub__(self, o): return DecimalShim(self._o(o) - self.v)
    def __mul__(self, o): return DecimalShim(self.v * self._o(o))
    __rmul__ = __mul__
    def __truediv__(self, o): return DecimalShim(self.v / self._o(o))
    def __neg__(self): return DecimalShim(-self.v)
    def __eq__(self, o): return self.v == self._o(o)
    def __ne__(self, o): return self.v != self._o(o)
    def __lt__(self, o): return self.v < self._o(o)
    def __le__(self, o): return self.v <= self._o(o)
    def __gt__(self, o): return self.v > self._o(o)
    def __ge__(self, o): return self.v >= self._o(o)
    def __bool__(self): return bool(self.v != 0)
    def exp(self, context=None): return DecimalShim(core.fn_exp(self.v))
    def ln(self, context=None): return DecimalShim(core.fn_log(self.v))
    def __float__(self): return float(self.v)
