"""Symbolic stand-in for scipy.sparse (spmatrix semantics) and scipy.sparse.linalg."""
import types, numbers
import numpy as _np
from . import core, nps
from .core import Sym, SymBool, Unsupported, num
from .nps import SArr, SMat, asarr


class spmatrix:
    _symx_sparse = True
    __array_priority__ = 2000
    __array_ufunc__ = None
    format = 'csr'

    def __init__(s, a, shape=None, dtype=None, copy=False):
        if isinstance(a, spmatrix):
            d = a.d.copy()
        elif isinstance(a, tuple) and len(a) == 2 and isinstance(a[1], tuple) and not isinstance(a[0], (int, _np.integer)):
            data, (r, c) = a
            r, c = nps.asindex(asarr(r)), nps.asindex(asarr(c))
            data = asarr(data)
            if shape is None:
                shape = (int(max(r)) + 1 if len(r) else 0, int(max(c)) + 1 if len(c) else 0)
            d = nps.zeros(shape)
            for i, j, v in zip(r, c, data):
                d.raw[int(i), int(j)] = d.raw[int(i), int(j)] + v
        elif isinstance(a, tuple) and len(a) == 2 and all(isinstance(x, (int, _np.integer, Sym)) for x in a):
            d = nps.zeros(a)
        else:
            d = asarr(a)
            if d.ndim == 1:
                d = d.reshape(1, -1)
            if d.ndim != 2:
                raise TypeError('expected dimension <= 2 array or matrix')
            d = d.copy()
            d = d.view(SArr)
        if dtype is not None:
            d = d.astype(dtype)
        s.d = d

    # -- info
    @property
    def shape(s):
        return s.d.shape

    @property
    def ndim(s):
        return 2

    @property
    def dtype(s):
        return s.d.dtype

    @property
    def T(s):
        return s.transpose()

    @property
    def nnz(s):
        return sum(1 for v in s.d.raw.ravel() if bool(v != 0))

    @property
    def data(s):
        return asarr([v for v in s.d.raw.ravel() if bool(v != 0)])

    @data.setter
    def data(s, v):
        k = 0
        v = asarr(v)
        for p in _np.ndindex(s.d.shape):
            if bool(s.d.raw[p] != 0):
                s.d[p] = v[k]
                k += 1

    def transpose(s, *a, **k):
        return mk(s.d.T)

    def toarray(s, *a, **k):
        return s.d.copy()

    def todense(s, *a, **k):
        k = s.d.kind
        r = _np.ndarray.view(s.d.copy(), SMat)
        r.kind = k
        return r

    A = property(toarray)

    def _symx_toarray(s):
        raise Unsupported('implicit densification of a sparse matrix')

    def copy(s):
        return mk(s.d.copy())

    def __copy__(s):
        return s.copy()

    def __deepcopy__(s, m):
        return s.copy()

    def astype(s, t, **k):
        return mk(s.d.astype(t))

    def tocsr(s, **k):
        return s

    tocsc = tocoo = tolil = todok = asformat = tocsr

    def diagonal(s, k=0):
        return s.d.diagonal(k)

    def setdiag(s, v, k=0):
        va = asarr(v)
        for i in range(min(s.shape)):
            s.d[i, i + k] = va.raw[()] if va.ndim == 0 else va.raw[i]

    def eliminate_zeros(s):
        pass

    def sum(s, axis=None, **k):
        r = nps.sum_(s.d, axis=axis)
        if axis is None:
            return r
        r = r.reshape(1, -1) if axis == 0 else r.reshape(-1, 1)
        kk = r.kind
        r = _np.ndarray.view(r, SMat)
        r.kind = kk
        return r

    def mean(s, axis=None):
        return s.sum(axis) / (s.shape[0] * s.shape[1] if axis is None else s.shape[axis])

    def max(s, axis=None, **k):
        return s.d.max(axis)

    def min(s, axis=None, **k):
        return s.d.min(axis)

    def trace(s):
        return nps.trace(s.d)

    def nonzero(s):
        return nps.nonzero(s.d)

    def getrow(s, i):
        return mk(s.d[i:i + 1])

    def getcol(s, i):
        return mk(s.d[:, i:i + 1])

    def count_nonzero(s):
        return s.nnz

    def __len__(s):
        raise TypeError('sparse matrix length is ambiguous; use getnnz()')

    def __bool__(s):
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().')

    def __iter__(s):
        for i in range(s.shape[0]):
            yield mk(s.d[i:i + 1])

    def __getitem__(s, i):
        r = s.d[i]
        if isinstance(r, _np.ndarray):
            if r.ndim == 1:
                first = i[0] if isinstance(i, tuple) else i
                r = r.reshape(-1, 1) if isinstance(first, slice) and isinstance(i, tuple) else r.reshape(1, -1)
            return mk(r)
        return r

    def __setitem__(s, i, v):
        s.d[i] = v.d if isinstance(v, spmatrix) else v

    def _map(s, f):
        return mk(nps.emap(f, s.d))

    # -- arithmetic
    def __neg__(s):
        return mk(-s.d)

    def __abs__(s):
        return mk(nps.absolute(s.d))

    def _addsub(s, o, sign):
        if isinstance(o, spmatrix):
            if s.shape != o.shape:
                raise ValueError('inconsistent shapes')
            return mk(s.d + o.d if sign > 0 else s.d - o.d)
        if isinstance(o, (Sym, numbers.Number)):
            if isinstance(o, numbers.Number) and o == 0:
                return s.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse array is not supported')
        r = s.d + asarr(o) if sign > 0 else s.d - asarr(o)
        k = r.kind
        r = _np.ndarray.view(r, SMat)
        r.kind = k
        return r

    def __add__(s, o):
        return s._addsub(o, 1)

    __radd__ = __add__

    def __sub__(s, o):
        return s._addsub(o, -1)

    def __rsub__(s, o):
        return (-s)._addsub(o, 1)

    def multiply(s, o):
        if isinstance(o, spmatrix):
            return mk(s.d * o.d)
        return mk(s.d * asarr(o) if not isinstance(o, (Sym, numbers.Number)) else s.d * o)

    def _mm(s, o):
        if isinstance(o, spmatrix):
            if s.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            return mk(nps.matmul(s.d, o.d))
        o2 = asarr(o)
        if o2.ndim == 0:
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        if s.shape[1] != o2.shape[0]:
            raise ValueError('dimension mismatch')
        if isinstance(o2, SMat):
            return nps.matmul(s.d, o2)
        return nps.matmul(s.d, o2)

    def __matmul__(s, o):
        if hasattr(o, '_symx_cp'):
            return o.__rmatmul__(s)
        return s._mm(o)

    def dot(s, o):
        if isinstance(o, (Sym, numbers.Number)):
            return s * o
        return s._mm(o)

    def __rmatmul__(s, o):
        o2 = asarr(o)
        if o2.ndim == 0:
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return nps.matmul(o2, s.d)

    def __mul__(s, o):
        if isinstance(o, (Sym, SymBool, numbers.Number)):
            return mk(s.d * o)
        if hasattr(o, '_symx_cp'):
            return o.__rmatmul__(s)
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return mk(s.d * o[()])
        return s._mm(o)

    def __rmul__(s, o):
        if isinstance(o, (Sym, SymBool, numbers.Number)):
            return mk(s.d * o)
        return s.__rmatmul__(o)

    def __truediv__(s, o):
        if isinstance(o, (Sym, numbers.Number)):
            return mk(s.d / o)
        raise Unsupported('sparse / array')

    def __pow__(s, n):
        if s.shape[0] != s.shape[1]:
            raise TypeError('matrix is not square')
        if isinstance(n, Sym):
            n = n.__index__()
        if int(n) != n:
            raise ValueError('exponent must be an integer')
        n = int(n)
        if n < 0:
            raise ValueError('exponent must be >= 0')
        r = nps.eye(s.shape[0])
        for _ in range(n):
            r = nps.matmul(r, s.d)
        return mk(r)

    def power(s, n, dtype=None):
        return mk(s.d ** n)

    def __eq__(s, o):
        return mk(nps.equal(s.d, o.d if isinstance(o, spmatrix) else o))

    def __ne__(s, o):
        return mk(nps.not_equal(s.d, o.d if isinstance(o, spmatrix) else o))

    def __gt__(s, o):
        return mk(nps.greater(s.d, o.d if isinstance(o, spmatrix) else o))

    def __lt__(s, o):
        return mk(nps.less(s.d, o.d if isinstance(o, spmatrix) else o))

    __hash__ = object.__hash__

    def __repr__(s):
        return 'SCsr(%r)' % (s.d,)


class csr_matrix(spmatrix):
    pass


class csc_matrix(spmatrix):
    format = 'csc'


class coo_matrix(spmatrix):
    format = 'coo'


class lil_matrix(spmatrix):
    format = 'lil'


def mk(d):
    r = csr_matrix.__new__(csr_matrix)
    k = d.kind
    d = _np.ndarray.view(d, SArr)
    d.kind = k
    r.d = d
    return r


def eye(n, m=None, k=0, dtype=float, format=None):
    return mk(nps.eye(n, m, k, dtype))


def diags(v, offsets=0, shape=None, **k):
    if offsets == 0 or offsets == [0]:
        v = asarr(v)
        if v.ndim == 2:
            v = v[0]
        return mk(nps.diag(v))
    raise Unsupported('sparse diags')


def eigsh(A, k=6, M=None, sigma=None, which='LM', v0=None, ncv=None, maxiter=None, tol=0,
          return_eigenvectors=True, **kw):
    import scipy.sparse.linalg as L
    import warnings
    sp = isinstance(A, spmatrix)
    d = A.d if sp else asarr(A)
    r = nps.spectral_of(d)
    if r is not None:
        n = d.shape[0]
        kk = k.__index__()
        if sp and kk >= n:
            raise TypeError('Cannot use scipy.linalg.eigh for sparse A with k >= N.')
        if sigma is not None or which not in ('LM', 'LA', 'SA', 'SM') or (kk < n and which != 'LM' and which != 'LA'):
            raise Unsupported('eigsh of a symbolic matrix')
        w, Q = r
        w, Q = w[max(0, n - kk):], Q[:, max(0, n - kk):]
        return (w, Q) if return_eigenvectors else w
    f = nps.tofloat(d)
    if f is None:
        raise Unsupported('eigsh of a symbolic matrix')
    if isinstance(k, Sym):
        k = k.__index__()
    if sp:
        import scipy.sparse as ss
        f = ss.csr_matrix(f)
    fl = lambda x: x if not isinstance(x, Sym) else float(x.const())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        r = L.eigsh(f, k=k, sigma=None if sigma is None else fl(sigma), which=which, tol=fl(tol),
                    return_eigenvectors=return_eigenvectors)
    if return_eigenvectors:
        return nps.approx_arr(r[0]), nps.approx_arr(r[1])
    return nps.approx_arr(r)


class _Mod(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (s.__name__, n))


def make_modules():
    sparse = _Mod('scipy.sparse')
    lin = _Mod('scipy.sparse.linalg')
    sparse.csr_matrix = csr_matrix
    sparse.csc_matrix, sparse.coo_matrix, sparse.lil_matrix = csc_matrix, coo_matrix, lil_matrix
    sparse.csr_array = sparse.csc_array = None
    del sparse.csr_array, sparse.csc_array
    sparse.spmatrix = spmatrix
    sparse.issparse = sparse.isspmatrix = lambda x: isinstance(x, spmatrix)
    sparse.eye = eye
    sparse.identity = lambda n, **k: eye(n)
    sparse.diags = diags
    sparse.hstack = lambda l, **k: mk(nps.concatenate([x.d for x in l], 1))
    sparse.vstack = lambda l, **k: mk(nps.concatenate([x.d for x in l], 0))
    sparse.linalg = lin
    lin.eigsh = eigsh
    lin.norm = lambda a, ord=None, axis=None: nps.norm(a.d, ord if ord is not None else 'fro', axis)
    lin.inv = lambda a: mk(nps.inv(a.d))
    lin.spsolve = lambda a, b: nps.matmul(nps.inv(a.d), b.d if isinstance(b, spmatrix) else b)
    lin.lsqr = lambda a, b, **k: (nps.lstsq(a.d if isinstance(a, spmatrix) else a, b)[0],)
    lin.lsmr = lin.lsqr
    top = _Mod('scipy')
    top.sparse = sparse
    sl = _Mod('scipy.linalg')
    sl.inv, sl.norm, sl.pinv, sl.solve, sl.eigh, sl.det = nps.inv, nps.norm, nps.pinv, nps.solve, nps.eigh, nps.det
    sl.lstsq = lambda a, b, cond=None, **k: nps.lstsq(a, b)
    top.linalg = sl
    spec = _Mod('scipy.special')
    spec.expit = lambda x: nps.divide(1, nps.add(1, nps.exp(nps.negative(x))))
    top.special = spec
    return {'scipy': top, 'scipy.sparse': sparse, 'scipy.sparse.linalg': lin, 'scipy.linalg': sl, 'scipy.special': spec}
