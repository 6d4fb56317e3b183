"""In-memory model of the h5py subset the code uses: groups, datasets that hold
symbolic elements, attributes.  Replays use the real h5py (core driver)."""
import numpy as np

from .ctx import Stub
from .shim import obj_array, SArr
from . import core


class Dataset(Stub):
    def __init__(self, data, maxshape=None, dtype=None):
        self._max = maxshape
        self._dtype = None
        try:
            d = np.dtype(dtype) if dtype is not None else None
            if d is not None and d.kind in 'iuf':
                self._dtype = d
        except TypeError:
            pass
        a = np.array(data, dtype=object) if not isinstance(data, np.ndarray) else np.array(data, dtype=object)
        self._a = a.view(SArr)
        if self._dtype is not None:
            self._a = self._a.astype(self._dtype)

    @property
    def value(self):
        return self[()]

    def __getitem__(self, i):
        if isinstance(i, tuple) and i == ():
            if self._a.ndim:
                return self._a.copy()
            x = self._a[()]
            if core.is_sym(x):
                return self._a.copy()
            return np.float64(x) if type(x) is float else np.int64(x) if type(x) is int else x
        r = self._a[i]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __setitem__(self, i, v):
        if self._a.ndim == 0 and not (i is Ellipsis or isinstance(i, tuple) and i == ()):
            raise TypeError('Argument sequence too long')
        v = np.asarray(v, dtype=object)
        target = self._a[i]
        ts = target.shape if isinstance(target, np.ndarray) else ()
        if v.shape != ts and v.shape != () and np.broadcast_shapes(v.shape, ts) != ts:
            raise TypeError("Can't broadcast %s -> %s" % (v.shape, ts))
        self._a[i] = v if self._dtype is None else v.view(SArr).astype(self._dtype)

    @property
    def shape(self): return self._a.shape

    @property
    def size(self): return self._a.size

    def __len__(self): return len(self._a)

    def __iter__(self): return iter(self._a)

    def resize(self, shape, axis=None):
        if self._max is None:
            raise TypeError('Only chunked datasets can be resized')
        a = np.zeros(shape, dtype=object)
        n = tuple(slice(min(x, y)) for x, y in zip(shape, self._a.shape))
        a[n] = self._a[n]
        self._a = a.view(SArr)

    def copy(self):
        d = Dataset(np.empty(0), self._max, self._dtype)
        d._a = self._a.copy()
        return d


class Group(Stub):
    def __init__(self):
        self._items = {}
        self.attrs = {}

    filename = 'fake'

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def copy(self, source, dest, **k):
        if isinstance(source, str):
            source = self[source]
        g, n = self._path(dest, True)
        if n in g._items:
            raise RuntimeError('Unable to copy object (destination object already exists)')
        g._items[n] = duplicate(source)

    def _path(self, name, create=False):
        g = self
        parts = [p for p in name.split('/') if p]
        for p in parts[:-1]:
            if p not in g._items:
                if not create:
                    raise KeyError(name)
                g._items[p] = Group()
            g = g._items[p]
        return g, parts[-1]

    def __contains__(self, name):
        try:
            g, n = self._path(name)
        except KeyError:
            return False
        return isinstance(g, Group) and n in g._items

    def __getitem__(self, name):
        g, n = self._path(name)
        return g._items[n]

    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)

    def get(self, name, default=None):
        return self[name] if name in self else default

    def __delitem__(self, name):
        g, n = self._path(name)
        del g._items[n]

    def require_group(self, name):
        g, n = self._path(name, True)
        if n not in g._items:
            g._items[n] = Group()
        return g._items[n]

    create_group = require_group

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        g, n = self._path(name, True)
        if n in g._items:
            raise RuntimeError('Unable to create dataset (name already exists)')
        if data is None:
            data = np.zeros(shape)
        g._items[n] = Dataset(data, k.get('maxshape'), dtype)
        return g._items[n]

    def require_dataset(self, name, shape, dtype=None, **k):
        if name in self:
            return self[name]
        return self.create_dataset(name, shape=shape, dtype=dtype)

    def keys(self): return sorted(self._items.keys())
    def values(self): return [self._items[k] for k in self.keys()]
    def items(self): return [(k, self._items[k]) for k in self.keys()]
    def __iter__(self): return iter(self.keys())
    def __len__(self): return len(self._items)
    def flush(self): pass
    def close(self): pass

    def clear(self): self._items.clear()


def duplicate(x):
    if isinstance(x, Dataset):
        return x.copy()
    g = Group()
    g.attrs.update(x.attrs)
    for n, i in x._items.items():
        g._items[n] = duplicate(i)
    return g


_N = [0]


def new_state(ctx):
    if ctx.symbolic:
        return Group()
    import h5py
    _N[0] += 1
    return h5py.File('verif_mem_%d_%d' % (id(ctx), _N[0]), 'w', driver='core', backing_store=False)
