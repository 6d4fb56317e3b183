"""A sparse matrix of symbolic values whose nonzero positions are concrete."""
import numpy as np
import scipy.sparse

from .core import Unsupported, is_sym
from .shim import SArr, _index


class Dense(np.ndarray):
    """what a dense result of a scipy matrix looks like (np.matrix)"""


class SSparse(object):
    """scipy.sparse.spmatrix with values from a dict {(row, column): value}"""

    ndim = 2
    dtype = np.dtype('int32')

    def __init__(self, shape, values, format='csc'):
        self.shape = shape
        self.values = {k: v for k, v in values.items() if is_sym(v) or v != 0}
        self.format = format

    def _keys(self):
        if self.format == 'csc':
            return sorted(self.values, key=lambda k: (k[1], k[0]))
        return sorted(self.values)

    @property
    def nnz(self): return len(self.values)

    def getnnz(self): return self.nnz

    def count_nonzero(self): return self.nnz

    def _as(self, format): return SSparse(self.shape, self.values, format)

    def tocsc(self, copy=False): return self._as('csc')

    def tocsr(self, copy=False): return self._as('csr')

    def tocoo(self, copy=False): return self._as('coo')

    def todok(self, copy=False): return self._as('dok')

    def copy(self): return self._as(self.format)

    def asformat(self, f): return self._as(f)

    @property
    def T(self): return self.transpose()

    def transpose(self):
        return SSparse(self.shape[::-1], {(j, i): v for (i, j), v in self.values.items()}, {'csc': 'csr', 'csr': 'csc'}.get(self.format, self.format))

    def nonzero(self):
        # scipy lists the entries by column (csc) or row
        k = self._keys()
        return np.array([i for i, _ in k], dtype='int32'), np.array([j for _, j in k], dtype='int32')

    @property
    def row(self): return self.nonzero()[0]

    @property
    def col(self): return self.nonzero()[1]

    @property
    def data(self):
        a = np.empty(self.nnz, dtype=object)
        for n, k in enumerate(self._keys()):
            a[n] = self.values[k]
        return a.view(SArr)

    @property
    def indices(self): return self.nonzero()[0 if self.format == 'csc' else 1]

    @property
    def indptr(self):
        axis = 1 if self.format == 'csc' else 0
        count = [0] * (self.shape[axis] + 1)
        for k in self.values:
            count[k[axis] + 1] += 1
        return np.cumsum(count).astype('int32')

    def toarray(self):
        a = np.zeros(self.shape, dtype=object)
        for k, v in self.values.items():
            a[k] = v
        return a.view(SArr)

    todense = toarray
    A = property(toarray)

    def getrow(self, i): return self[i, :]

    def getcol(self, j): return self[:, j]

    def diagonal(self):
        a = np.empty(min(self.shape), dtype=object)
        for i in range(len(a)):
            a[i] = self.values.get((i, i), 0)
        return a.view(SArr)

    def sum(self, axis=None):
        return self.toarray().sum(axis=axis)

    def get(self, key, default=0): return self.values.get(tuple(int(k) for k in key), default)

    def keys(self): return self.values.keys()

    def items(self): return self.values.items()

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx, slice(None))
        i, j = (_index(e) for e in idx)

        def scalar(x):
            return isinstance(x, (int, np.integer)) or isinstance(x, np.ndarray) and x.ndim == 0

        def axis(x, n):
            if isinstance(x, slice):
                return list(range(*x.indices(n)))
            if scalar(x):
                x = int(x)
                if not -n <= x < n:
                    raise IndexError('index (%d) out of range' % x)
                return [x % n]
            x = np.asarray(x)
            if x.dtype == bool:
                return np.nonzero(x)[0].tolist()
            if x.dtype.kind == 'f':
                if x.size:
                    raise IndexError('Index dimension must be 1 or 2')
                raise IndexError('invalid index')
            if x.ndim != 1:
                raise Unsupported('index of a sparse matrix')
            return [int(e) % n for e in x]
        if scalar(i) and scalar(j):
            return self.values.get((axis(i, self.shape[0])[0], axis(j, self.shape[1])[0]), 0)
        r, c = axis(i, self.shape[0]), axis(j, self.shape[1])
        if isinstance(i, (list, np.ndarray)) and isinstance(j, (list, np.ndarray)) and not scalar(i) and not scalar(j):
            a = np.empty((1, len(r)), dtype=object)      # scipy gives a dense matrix of one row
            for n, k in enumerate(zip(r, c)):
                a[0, n] = self.values.get(k, 0)
            return a.view(SArr)
        return SSparse((len(r), len(c)), {(p, q): self.values[x, y] for p, x in enumerate(r) for q, y in enumerate(c) if (x, y) in self.values},
                       self.format)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('sparse matrix: %s' % name)

    def pattern(self):
        """a real matrix with the same nonzero positions"""
        r, c = self.nonzero()
        m = scipy.sparse.coo_matrix((np.ones(len(r), dtype='int32'), (r, c)), shape=self.shape)
        return m.tocsc() if self.format == 'csc' else m.tocsr()
