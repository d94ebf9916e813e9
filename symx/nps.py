"""Symbolic stand-in for numpy.

SArr is an object ndarray whose elements are Sym / SymBool (or plain Python
objects).  Everything that numpy can do natively on object arrays (indexing,
broadcasting, reshaping ...) is inherited; arithmetic, comparisons, reductions
and linear algebra are symbolic.  Whatever is not modelled raises Unsupported.
"""
import types, itertools, math, functools, numbers
from fractions import Fraction
import numpy as _np
from . import core
from .core import (Sym, SymBool, Unsupported, Signal, num, lift, ite, ind, s_and, s_or, s_not,
                   as_bool, approx, norm_c, to_num)

real = _np


def E():
    return core.ENG


KINDS = {'f': float, 'i': int, 'b': bool, 'O': object}


def kind_of_dtype(dt):
    if dt is None:
        return None
    if isinstance(dt, type) and getattr(dt, '_symx_kind', None):
        return dt._symx_kind
    if isinstance(dt, str) and dt in ('f', 'i', 'b', 'O'):
        return dt
    k = _np.dtype(dt).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'U': 'O', 'S': 'O', 'c': None}[k] or bad('dtype %s' % dt)


def bad(msg):
    raise Unsupported(msg)


def el_kind(x):
    c = x.__class__
    if c is Sym:
        return x.k
    if c is SymBool or c is bool or c is _np.bool_:
        return 'b'
    if isinstance(x, numbers.Integral):
        return 'i'
    if isinstance(x, numbers.Real):
        return 'f'
    return 'O'


def merge_kind(ks):
    r = None
    for k in ks:
        if k == 'O':
            return 'O'
        if r is None:
            r = k
        elif r != k:
            r = 'f' if 'f' in (r, k) else 'i'
    return r or 'f'


def cast_scalar(x, t):
    k = t if t in ('f', 'i', 'b', 'O') else kind_of_dtype(t)
    return cast_el(x, k)


def cast_el(x, k):
    """cast element to kind"""
    if k == 'f':
        if x is None:
            return bad('nan')
        if isinstance(x, str):
            return num(float(x))
        x = num(x)
        if x.k == 'f':
            return x
        return Sym(x.n, x.d, 'f')
    if k == 'i':
        if isinstance(x, str):
            return num(int(x))
        x = num(x)
        return core.trunc(x)
    if k == 'b':
        if isinstance(x, SymBool):
            return x
        return as_bool(x)
    return x


def strict(x):
    """numpy-like element for storage"""
    c = x.__class__
    if c is Sym or c is SymBool or c is bool:
        return x
    if c is _np.bool_:
        return bool(x)
    if isinstance(x, numbers.Number):
        return num(x)
    return x


class SArr(_np.ndarray):
    """array of symbolic values"""
    kind = 'f'

    def __array_finalize__(s, obj):
        if obj is None:
            return
        s.kind = getattr(obj, 'kind', 'f') if isinstance(obj, SArr) else 'f'

    # ---- basics
    @property
    def dtype(s):
        return _np.dtype(KINDS[s.kind])

    @property
    def raw(s):
        return s.view(_np.ndarray)

    def __reduce__(s):
        return (_rebuild, (s.shape, list(s.raw.ravel()), s.kind))

    def __deepcopy__(s, memo):
        return s.copy()

    def __repr__(s):
        return 'SArr(%s, %s)' % (s.raw.tolist(), s.kind)

    __str__ = __repr__

    def __format__(s, spec):
        if s.size == 1:
            v = s.raw.ravel()[0]
            f = format(v, spec if s.ndim == 0 else '')
            return f if s.ndim == 0 else '[' * s.ndim + f + ']' * s.ndim
        return '<arr>'

    def __hash__(s):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # ---- indexing
    def __getitem__(s, i):
        if isinstance(i, str):
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and '
                             'integer or boolean arrays are valid indices')
        r = _getitem(s, i)
        return r

    def __setitem__(s, i, v):
        _setitem(s, i, v)

    def __iter__(s):
        if s.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for j in range(s.shape[0]):
            yield s[j]

    def __contains__(s, x):
        return bool(any_(equal(s, x)))

    def __bool__(s):
        if s.size == 1:
            return bool(as_bool(s.raw.ravel()[0]))
        if s.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(s):
        if s.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(s.raw.ravel()[0])

    def __int__(s):
        if s.size != 1:
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return int(s.raw.ravel()[0])

    def __index__(s):
        if s.ndim != 0:
            raise TypeError('only integer scalar arrays can be converted to a scalar index')
        return s.raw.ravel()[0].__index__()

    # ---- methods
    def item(s, *a):
        if a:
            return s.raw.item(*a)
        if s.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return s.raw.ravel()[0]

    def astype(s, dtype, order='K', casting='unsafe', subok=True, copy=True):
        k = kind_of_dtype(dtype)
        if k == s.kind and not copy:
            return s
        return from_list([cast_el(x, k) for x in s.raw.ravel()], s.shape, k)

    def copy(s, order='C'):
        r = s.raw.copy().view(SArr)
        r.kind = s.kind
        return r

    def __copy__(s):
        return s.copy()

    def tolist(s):
        return s.raw.tolist()

    def flatten(s, order='C'):
        r = s.raw.flatten().view(SArr)
        r.kind = s.kind
        return r

    def fill(s, v):
        s[...] = v

    def dot(s, o, out=None):
        return dot(s, o)

    def __matmul__(s, o):
        return matmul(s, o)

    def __rmatmul__(s, o):
        return matmul(o, s)

    def __imatmul__(s, o):
        s[...] = matmul(s, o)
        return s

    def sum(s, axis=None, dtype=None, out=None, keepdims=False, **k):
        return sum_(s, axis=axis, keepdims=keepdims)

    def prod(s, axis=None, **k):
        return reduce_el(s, axis, lambda l: functools.reduce(lambda a, b: a * b, l, num(1)))

    def mean(s, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(s, axis=axis, keepdims=keepdims)

    def var(s, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return var(s, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(s, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        return std(s, axis=axis, ddof=ddof, keepdims=keepdims)

    def min(s, axis=None, out=None, keepdims=False, **k):
        return amin(s, axis=axis, keepdims=keepdims)

    def max(s, axis=None, out=None, keepdims=False, **k):
        return amax(s, axis=axis, keepdims=keepdims)

    def ptp(s, axis=None):
        return s.max(axis) - s.min(axis)

    def argmin(s, axis=None, **k):
        return argmin(s, axis)

    def argmax(s, axis=None, **k):
        return argmax(s, axis)

    def any(s, axis=None, out=None, keepdims=False, **k):
        return any_(s, axis=axis)

    def all(s, axis=None, out=None, keepdims=False, **k):
        return all_(s, axis=axis)

    def nonzero(s):
        return nonzero(s)

    def argsort(s, axis=-1, kind=None, order=None):
        return argsort(s, axis)

    def sort(s, axis=-1, **k):
        s[...] = sort(s, axis)

    def round(s, decimals=0, out=None):
        return round_(s, decimals)

    def cumsum(s, axis=None, **k):
        return cumsum(s, axis)

    def conj(s):
        return s

    conjugate = conj

    def clip(s, a=None, b=None, **k):
        return clip(s, a, b)

    def diagonal(s, offset=0, axis1=0, axis2=1):
        r = s.raw.diagonal(offset, axis1, axis2).copy().view(SArr)
        r.kind = s.kind
        return r

    def trace(s, *a, **k):
        return sum_(s.diagonal())

    def take(s, idx, axis=None, **k):
        if axis is None:
            return s.ravel()[asindex(idx)]
        sl = [slice(None)] * s.ndim
        sl[axis] = asindex(idx)
        return s[tuple(sl)]

    def repeat(s, n, axis=None):
        return wrap(_np.repeat(s.raw, n, axis), s.kind)

    def view(s, *a, **k):
        if a and a[0] is SArr or not a and not k:
            r = _np.ndarray.view(s, SArr)
            r.kind = s.kind
            return r
        return _np.ndarray.view(s, *a, **k)

    @property
    def real(s):
        return s

    @property
    def imag(s):
        return zeros(s.shape)

    # ---- arithmetic
    def __array_ufunc__(s, ufunc, method, *inputs, out=None, **kw):
        return ufunc_dispatch(ufunc, method, inputs, out, kw)

    def __array_function__(s, func, types_, args, kwargs):
        f = FUNCS.get(func)
        if f is None:
            raise Unsupported('numpy.%s' % getattr(func, '__name__', func))
        return f(*args, **kwargs)

    def __iadd__(s, o):
        return _inplace(s, add(s, o), o)

    def __isub__(s, o):
        return _inplace(s, subtract(s, o), o)

    def __imul__(s, o):
        return _inplace(s, multiply(s, o), o)

    def __itruediv__(s, o):
        return _inplace(s, divide(s, o), o)

    def __ifloordiv__(s, o):
        return _inplace(s, floor_divide(s, o), o)

    def __ipow__(s, o):
        return _inplace(s, power(s, o), o)


def _inplace(s, r, o):
    if isinstance(r, SArr) and r.shape != s.shape:
        raise ValueError('non-broadcastable output operand')
    rk = r.kind if isinstance(r, SArr) else el_kind(r)
    if rk == 'f' and s.kind == 'i':
        raise TypeError("Cannot cast ufunc 'add' output from dtype('float64') to dtype('int64') with casting rule 'same_kind'")
    s.raw[...] = _np.asarray(_objview(r)) if isinstance(r, _np.ndarray) else r
    return s


def _rebuild(shape, l, k):
    return from_list(l, shape, k)


def _objview(a):
    return a.view(_np.ndarray) if isinstance(a, SArr) else a


def wrap(objarr, kind=None):
    """object ndarray -> SArr"""
    a = _np.ndarray.view(objarr, SArr)
    a.kind = kind or merge_kind(el_kind(x) for x in objarr.ravel())
    return a


def from_list(l, shape, kind=None):
    r = _np.empty(len(l), dtype=object)
    for i, x in enumerate(l):
        r[i] = x
    r = r.reshape(shape)
    return wrap(r, kind)


def scalar_or_arr(r, kind=None):
    if isinstance(r, _np.ndarray):
        if r.dtype != object and not isinstance(r, SArr):
            return r
        if isinstance(r, SArr) and r.ndim:
            return r
        if r.ndim == 0:
            return r.view(_np.ndarray)[()]
        return wrap(r, kind)
    return r


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(x):
    if isinstance(x, (Sym, SymBool, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return True
    return hasattr(x, '_symx_arr')


def asarr(x, dtype=None, copy=False):
    """anything -> SArr"""
    k = kind_of_dtype(dtype)
    if hasattr(x, '_symx_arr'):
        x = x._symx_arr()
    if isinstance(x, SArr):
        if k and k != x.kind:
            return x.astype(k)
        return x.copy() if copy else x
    if hasattr(x, '_symx_toarray'):
        x = x._symx_toarray()
    if hasattr(x, 'to_numpy') and not isinstance(x, _np.ndarray):
        x = x.to_numpy()
        return asarr(x, dtype, copy)
    if isinstance(x, _np.ndarray):
        l = [strict(v) for v in x.ravel().tolist()] if x.dtype != object else [strict(v) for v in x.ravel()]
        r = from_list(l, x.shape, {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind))
        return r.astype(k) if k and k != r.kind else r
    if isinstance(x, (list, tuple, range)) or (hasattr(x, '__iter__') and hasattr(x, '__len__')
                                               and not isinstance(x, (str, dict, set))):
        items = [_unwrap(y) for y in x]
        if not items:
            return from_list([], (0,), k or 'f')
        nested = [isinstance(y, (list, tuple, range, _np.ndarray)) and not (isinstance(y, _np.ndarray) and y.ndim == 0) for y in items]
        if all(nested):
            subs = [asarr(y) for y in items]
            sh = {y.shape for y in subs}
            if len(sh) != 1:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
            sh = sh.pop()
            kk = merge_kind(y.kind for y in subs)
            l = []
            for y in subs:
                l.extend(y.raw.ravel())
            kk = k or kk
            r = from_list([cast_el(v, kk) if kk in 'fi' else v for v in l], (len(subs),) + sh, kk)
            return r
        if any(nested):
            raise ValueError('setting an array element with a sequence.')
        items = [strict(y[()] if isinstance(y, _np.ndarray) else y) for y in items]
        kk = k or merge_kind(el_kind(y) for y in items)
        return from_list([cast_el(v, kk) if kk in 'fi' else v for v in items], (len(items),), kk)
    v = strict(x)
    kk = k or el_kind(v)
    r = _np.empty((), dtype=object)
    r[()] = cast_el(v, kk) if kk in 'fi' else v
    return wrap(r, kk)


def _unwrap(y):
    if hasattr(y, '_symx_arr'):
        return y._symx_arr()
    return y


# ----------------------------------------------------------------- indexing
def asindex(i):
    """concrete index object"""
    if isinstance(i, SArr):
        if i.kind == 'b':
            return _np.array([bool(x) for x in i.raw.ravel()], dtype=bool).reshape(i.shape)
        if i.size == 0:
            return _np.zeros(i.shape, dtype=int)
        if i.kind == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return _np.array([x.__index__() for x in i.raw.ravel()], dtype=int).reshape(i.shape)
    if isinstance(i, (Sym, SymBool)):
        if isinstance(i, SymBool):
            return bool(i)
        if i.k == 'f':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        return i.__index__()
    if isinstance(i, list):
        return asindex(asarr(i)) if i else _np.zeros(0, dtype=int)
    if isinstance(i, slice):
        f = lambda x: None if x is None else (x if isinstance(x, int) else x.__index__())
        return slice(f(i.start), f(i.stop), f(i.step))
    if isinstance(i, _np.ndarray) and i.dtype == object:
        return asindex(asarr(i))
    if hasattr(i, '_symx_arr'):
        return asindex(i._symx_arr())
    if isinstance(i, tuple):
        return tuple(asindex(j) for j in i)
    return i


def _symint(i):
    """symbolic, not yet fixed integer index"""
    if isinstance(i, Sym) and i.k == 'i' and not i.isconst():
        j = i.simp()
        return not j.isconst()
    return False


def _inrange(i, n):
    """range check of a symbolic index; forks when it may fail"""
    ok = s_and(i >= -n, i < n)
    if not (ok if isinstance(ok, bool) else bool(ok)):
        raise IndexError('index out of bounds for axis of size %d' % n)


def _eqidx(i, j, n):
    a = i == j
    # negative indices
    if E().known(core.bterm(i < 0)) is False:
        return a
    neg = i < 0
    if neg is False:
        return a
    b = i == j - n
    return s_or(a, b)


def _index_choice(i, n):
    """list of (j, cond) for the feasible positions of symbolic index i"""
    _inrange(i, n)
    neg = i < 0
    if isinstance(neg, SymBool):
        neg = bool(neg)
    if neg:
        i = i + n
    return [(j, i == j) for j in range(n)]


def _getitem(s, i):
    raw = s.raw
    if isinstance(i, tuple) and any(_symint(x) for x in i) and all(
            _symint(x) or isinstance(x, (int, _np.integer, slice, Sym)) for x in i) and len(i) <= s.ndim:
        # symbolic scalar positions: select by condition
        cur = s
        for ax in range(len(i) - 1, -1, -1):
            if _symint(i[ax]):
                cur = _select(cur, i[ax].simp(), ax)
            else:
                sl = [slice(None)] * ax + [asindex(i[ax])]
                r = cur.raw[tuple(sl)]
                cur = wrap(r, s.kind) if isinstance(r, _np.ndarray) else r
        return cur
    if _symint(i) and s.ndim >= 1:
        return _select(s, i.simp(), 0)
    idx = asindex(i)
    try:
        r = raw[idx]
    except (IndexError, ValueError, TypeError):
        raise
    if isinstance(r, _np.ndarray):
        if r.ndim == 0 and not (idx is Ellipsis or idx == ()):
            return r[()]
        r = _np.ndarray.view(r, SArr)
        r.kind = s.kind
        return r
    return r


def _select(arr, i, ax):
    n = arr.shape[ax]
    ch = _index_choice(i, n)
    raw = _np.moveaxis(arr.raw, ax, 0)
    parts = [raw[j] for j, _ in ch]
    if raw.ndim == 1:
        r = parts[-1]
        for (j, c), p in reversed(list(zip(ch, parts))[:-1]):
            r = ite_el(c, p, r)
        return r
    out = parts[-1].copy()
    for (j, c), p in reversed(list(zip(ch, parts))[:-1]):
        for pos in _np.ndindex(out.shape):
            out[pos] = ite_el(c, p[pos], out[pos])
    return wrap(out, arr.kind)


def ite_el(c, a, b):
    """element-wise choice, boolean or numeric"""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    ba = isinstance(a, (SymBool, bool))
    bb = isinstance(b, (SymBool, bool))
    if ba and bb:
        return s_or(s_and(c, a), s_and(s_not(c), b))
    return ite(c, a, b)


def _setitem(s, i, v):
    raw = s.raw
    if hasattr(v, '_symx_arr'):
        v = v._symx_arr()
    if isinstance(i, SArr) and i.kind == 'b' or (isinstance(i, list) and i and all(isinstance(x, (SymBool, bool)) for x in i)):
        m = asarr(i)
        if any(isinstance(x, SymBool) for x in m.raw.ravel()) and m.shape == s.shape[:m.ndim]:
            va = v if not isinstance(v, (list, tuple, _np.ndarray)) else asarr(v)
            scalar = not isinstance(va, _np.ndarray) or va.ndim == 0
            if scalar:
                val = va[()] if isinstance(va, _np.ndarray) else va
                for pos in _np.ndindex(m.shape):
                    c = m.raw[pos]
                    if raw[pos].__class__ is not _np.ndarray and s.ndim == m.ndim:
                        raw[pos] = ite_el(c, cast_el(strict(val), s.kind), raw[pos])
                    else:
                        sub = raw[pos]
                        for q in _np.ndindex(sub.shape):
                            sub[q] = ite_el(c, cast_el(strict(val), s.kind), sub[q])
                return
    if isinstance(i, tuple) and any(_symint(x) for x in i) and len(i) == s.ndim and all(
            _symint(x) or isinstance(x, (int, _np.integer, Sym)) for x in i):
        val = v[()] if isinstance(v, _np.ndarray) and v.ndim == 0 else v
        val = cast_el(strict(val), s.kind)
        choices = []
        for ax, x in enumerate(i):
            if _symint(x):
                choices.append(_index_choice(x.simp(), s.shape[ax]))
            else:
                choices.append([(asindex(x), True)])
        for combo in itertools.product(*choices):
            pos = tuple(j for j, _ in combo)
            c = s_and(*[cc for _, cc in combo])
            raw[pos] = ite_el(c, val, raw[pos])
        return
    if _symint(i) and s.ndim == 1:
        val = cast_el(strict(v[()] if isinstance(v, _np.ndarray) and v.ndim == 0 else v), s.kind)
        for j, c in _index_choice(i.simp(), s.shape[0]):
            raw[j] = ite_el(c, val, raw[j])
        return
    idx = asindex(i)
    if isinstance(v, (Sym, SymBool)) or (isinstance(v, numbers.Number)):
        raw[idx] = cast_el(strict(v), s.kind)
        return
    if isinstance(v, (str, type(None))) :
        if s.kind in 'fi':
            if v is None:
                bad('nan')
            v = float(v)
            raw[idx] = cast_el(strict(v), s.kind)
            return
        raw[idx] = v
        return
    va = asarr(v)
    k = s.kind
    vv = _np.empty(va.shape, dtype=object)
    src = va.raw
    for pos in _np.ndindex(va.shape):
        vv[pos] = cast_el(src[pos], k) if k in 'fib' else src[pos]
    tgt = raw[idx]
    if not isinstance(tgt, _np.ndarray):
        if vv.size != 1:
            raise ValueError('setting an array element with a sequence.')
        if vv.ndim > 0:
            # numpy converts size-1 arrays to scalars here
            pass
        raw[idx] = vv.ravel()[0]
        return
    raw[idx] = vv


# -------------------------------------------------------------- elementwise
def _bc(*xs):
    arrs = [x if isinstance(x, _np.ndarray) and not isinstance(x, SArr) and x.dtype == object else _el(x) for x in xs]
    return _np.broadcast_arrays(*[a if isinstance(a, _np.ndarray) else _box(a) for a in arrs])


def _box(x):
    r = _np.empty((), dtype=object)
    r[()] = x
    return r


def _el(x):
    if isinstance(x, SArr):
        return x.raw
    if isinstance(x, (list, tuple, _np.ndarray)) or hasattr(x, '_symx_arr') or hasattr(x, 'to_numpy'):
        return asarr(x).raw
    return _box(strict(x))


def emap(f, *xs, kind=None):
    arrs = _bc(*xs)
    sh = arrs[0].shape
    out = _np.empty(sh, dtype=object)
    if len(arrs) == 1:
        a = arrs[0]
        for p in _np.ndindex(sh):
            out[p] = f(a[p])
    else:
        for p in _np.ndindex(sh):
            out[p] = f(*[a[p] for a in arrs])
    if sh == ():
        return out[()]
    return wrap(out, kind)


def fixk(k):
    def deco(x):
        return Sym(x.n, x.d, k) if isinstance(x, Sym) and x.k != k else x
    return deco


def _arith(op):
    def f(a, b):
        return op(num(a) if not isinstance(a, Sym) else a, b)
    return f


def _defer(o):
    return hasattr(o, '_symx_sparse') or hasattr(o, '_symx_cp')


def binop(name, op, kindf=None):
    def f(a, b, out=None, where=True, **kw):
        if _defer(a) or _defer(b):
            import operator
            return getattr(operator, {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'truediv'}[name])(a, b)
        if not has_sym(a) and not has_sym(b) and not isinstance(a, _np.ndarray) and not isinstance(b, _np.ndarray):
            r = op(num(a), num(b)) if not isinstance(a, (list, tuple)) and not isinstance(b, (list, tuple)) else emap(op, a, b)
        else:
            r = emap(op, a, b)
        if isinstance(r, SArr):
            ka = a.kind if isinstance(a, SArr) else None
            kb = b.kind if isinstance(b, SArr) else None
            if 'f' in (ka, kb) or kindf == 'f':
                r.kind = 'f' if r.kind in 'ifb' else r.kind
                if r.size:
                    rr = r.raw
                    for p in _np.ndindex(rr.shape):
                        if isinstance(rr[p], Sym) and rr[p].k != 'f':
                            rr[p] = Sym(rr[p].n, rr[p].d, 'f')
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    f.__name__ = name
    return f


add = binop('add', _arith(lambda a, b: a + b))
subtract = binop('subtract', _arith(lambda a, b: a - b))
multiply = binop('multiply', _arith(lambda a, b: a * b))
divide = binop('divide', _arith(lambda a, b: a / b), 'f')
true_divide = divide
floor_divide = binop('floor_divide', _arith(lambda a, b: a // b))
mod = binop('mod', _arith(lambda a, b: a % b))
remainder = mod


def _pow(a, b):
    a, b = num(a), num(b)
    if a.k == 'i' and b.k == 'i':
        cb = b.const()
        if cb is not None and cb < 0:
            raise ValueError('Integers to negative integer powers are not allowed.')
    return core.power(a, b)


power = binop('power', _pow)
float_power = power


def cmpop(op):
    def f(a, b, out=None, **kw):
        def g(x, y):
            if isinstance(x, (Sym, SymBool)) or isinstance(y, (Sym, SymBool)):
                return op(x, y)
            return bool(op(x, y))
        r = emap(g, a, b)
        if isinstance(r, SArr):
            r.kind = 'b'
        return r
    return f


import operator as _op
equal = cmpop(_op.eq)
not_equal = cmpop(_op.ne)
less = cmpop(_op.lt)
less_equal = cmpop(_op.le)
greater = cmpop(_op.gt)
greater_equal = cmpop(_op.ge)


def unop(name, op, kind=None):
    def f(x, out=None, where=True, **kw):
        if hasattr(x, '_symx_sparse'):
            return x._map(op)
        r = emap(op, x)
        if isinstance(r, SArr):
            if kind:
                r.kind = kind
            elif isinstance(x, SArr) and x.kind == 'f':
                r.kind = 'f'
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            o[...] = r
            return o
        return r
    f.__name__ = name
    return f


def _sign(x):
    x = num(x)
    return ite(x > 0, num(1) if x.k == 'i' else cast_el(1, 'f'), ite(x < 0, num(-1) if x.k == 'i' else cast_el(-1, 'f'), cast_el(0, x.k)))


def _fl(r):
    return Sym(r.n, r.d, 'f') if r.k != 'f' else r


negative = unop('negative', lambda x: -num(x))
positive = unop('positive', lambda x: num(x))
absolute = unop('absolute', lambda x: abs(num(x)))
sqrt = unop('sqrt', lambda x: _fl(core.sqrt(x)), 'f')
exp = unop('exp', lambda x: _fl(core.exp(x)), 'f')
log = unop('log', lambda x: core.log(x), 'f')
log10 = unop('log10', lambda x: core.log(x) / approx(math.log(10)), 'f')
log1p = unop('log1p', lambda x: core.log(num(x) + 1), 'f')
expm1 = unop('expm1', lambda x: core.exp(x) - 1, 'f')
square = unop('square', lambda x: num(x) * num(x))
reciprocal = unop('reciprocal', lambda x: 1 / num(x))
floor = unop('floor', lambda x: core.floor(num(x)))
ceil = unop('ceil', lambda x: -core.floor(-num(x)))
trunc = unop('trunc', lambda x: Sym(core.trunc(x).n, core.trunc(x).d, num(x).k))
sign = unop('sign', _sign)
logical_not = unop('logical_not', s_not, 'b')
isnan = unop('isnan', lambda x: False, 'b')
isinf = unop('isinf', lambda x: False, 'b')
isfinite = unop('isfinite', lambda x: True, 'b')
conj = unop('conj', lambda x: x)
logical_and = lambda a, b, **k: _kb(emap(lambda x, y: s_and(x, y), a, b))
logical_or = lambda a, b, **k: _kb(emap(lambda x, y: s_or(x, y), a, b))
logical_xor = lambda a, b, **k: _kb(emap(lambda x, y: s_or(s_and(x, s_not(y)), s_and(s_not(x), y)), a, b))


def _kb(r):
    if isinstance(r, SArr):
        r.kind = 'b'
    return r


maximum = lambda a, b, **k: emap(lambda x, y: core.s_max(num(x), num(y)), a, b)
minimum = lambda a, b, **k: emap(lambda x, y: core.s_min(num(x), num(y)), a, b)
fmax, fmin = maximum, minimum


def hypot(a, b):
    return sqrt(add(multiply(a, a), multiply(b, b)))


def _bitand(a, b, **k):
    return logical_and(a, b)


def _inv(a, **k):
    return logical_not(a)


def ufunc_dispatch(ufunc, method, inputs, out, kw):
    name = ufunc.__name__
    kw.pop('dtype', None); kw.pop('casting', None); kw.pop('subok', None); kw.pop('order', None)
    for x in inputs:
        if hasattr(x, '_symx_sparse') or hasattr(x, '_symx_cp'):
            if name in ('matmul', 'dot'):
                return inputs[0] @ inputs[1] if hasattr(inputs[0], '_symx_sparse') else inputs[1].__rmatmul__(inputs[0])
            return NotImplemented
    if method == '__call__':
        f = UFUNCS.get(name)
        if f is None:
            raise Unsupported('ufunc %s' % name)
        r = f(*inputs)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                return _inplace(o, r, None) if name not in ('less',) else r
            raise Unsupported('ufunc out')
        return r
    if method == 'reduce':
        axis = kw.get('axis', 0)
        keep = kw.get('keepdims', False)
        f = {'add': sum_, 'maximum': amax, 'minimum': amin, 'logical_or': any_, 'logical_and': all_}.get(name)
        if f is None:
            if name == 'multiply':
                return asarr(inputs[0]).prod(axis)
            raise Unsupported('reduce of %s' % name)
        return f(inputs[0], axis=axis)
    if method == 'outer':
        a, b = asarr(inputs[0]), asarr(inputs[1])
        return UFUNCS[name](a.reshape(a.shape + (1,) * b.ndim), b)
    if method == 'accumulate' and name == 'add':
        return cumsum(inputs[0], kw.get('axis', 0))
    raise Unsupported('ufunc method %s' % method)


# --------------------------------------------------------------- reductions
def _axes(a, axis):
    if axis is None:
        return None
    if isinstance(axis, (tuple, list)):
        return tuple(int(x) % a.ndim for x in axis)
    return (int(axis) % a.ndim,)


def reduce_el(x, axis, f, keepdims=False, kind=None):
    a = asarr(x)
    ax = _axes(a, axis)
    if axis is not None and a.ndim == 0:
        ax = None
    if ax is None:
        r = f(list(a.raw.ravel()))
        if keepdims:
            return from_list([r], (1,) * a.ndim, kind)
        return r
    rest = [i for i in range(a.ndim) if i not in ax]
    m = _np.transpose(a.raw, rest + list(ax))
    sh = tuple(a.shape[i] for i in rest)
    m = m.reshape(sh + (-1,)) if a.size else m.reshape(sh + (int(_np.prod([a.shape[i] for i in ax])),))
    out = _np.empty(sh, dtype=object)
    for p in _np.ndindex(sh):
        out[p] = f(list(m[p]))
    if keepdims:
        out = out.reshape(tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)))
    if out.ndim == 0:
        return out[()]
    r = wrap(out, kind)
    if kind is None and not out.size:
        r.kind = a.kind
    return r


def _suml(l, k='f'):
    r = Sym({}, (), k)
    for x in l:
        r = r + (x if isinstance(x, Sym) else num(x))
    return r


def sum_(x, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True, **kw):
    if hasattr(x, '_symx_sparse'):
        return x.sum(axis)
    if isinstance(x, types.GeneratorType):
        x = list(x)
    a = asarr(x)
    k = 'i' if a.kind in 'ib' else 'f'
    r = reduce_el(a, axis, lambda l: _suml(l, k), keepdims)
    if isinstance(r, SArr):
        r.kind = k
    return r


def mean(x, axis=None, dtype=None, out=None, keepdims=False, **kw):
    def f(l):
        if not l:
            bad('mean of empty')
        return _fl(_suml(l) / len(l))
    return reduce_el(x, axis, f, keepdims, 'f')


def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    def f(l):
        m = _suml(l) / len(l)
        n = len(l) - ddof
        if n <= 0:
            bad('variance without degrees of freedom')
        return _fl(_suml([(v - m) * (v - m) for v in l]) / n)
    return reduce_el(x, axis, f, keepdims, 'f')


def std(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return sqrt(var(x, axis, ddof=ddof, keepdims=keepdims))


def _minl(l):
    if not l:
        raise ValueError('zero-size array to reduction operation minimum which has no identity')
    return functools.reduce(core.s_min, [num(v) for v in l])


def _maxl(l):
    if not l:
        raise ValueError('zero-size array to reduction operation maximum which has no identity')
    return functools.reduce(core.s_max, [num(v) for v in l])


def amin(x, axis=None, out=None, keepdims=False, **kw):
    return reduce_el(x, axis, _minl, keepdims)


def amax(x, axis=None, out=None, keepdims=False, **kw):
    return reduce_el(x, axis, _maxl, keepdims)


def any_(x, axis=None, out=None, keepdims=False, **kw):
    return reduce_el(x, axis, lambda l: s_or(*l) if l else False, keepdims, 'b')


def all_(x, axis=None, out=None, keepdims=False, **kw):
    return reduce_el(x, axis, lambda l: s_and(*l) if l else True, keepdims, 'b')


def median(x, axis=None, **kw):
    def f(l):
        s = sorted_syms([num(v) for v in l])
        n = len(s)
        return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2
    return reduce_el(x, axis, f, False, 'f')


def cumsum(x, axis=None, **kw):
    a = asarr(x)
    if axis is None or a.ndim == 1:
        r = num(0)
        out = []
        for v in a.raw.ravel():
            r = r + num(v)
            out.append(r)
        return from_list(out, (len(out),), a.kind if a.kind != 'b' else 'i')
    return _np.apply_along_axis(lambda l: cumsum(wrap(l)).raw, axis, a.raw).view(SArr)


def sorted_syms(l):
    """stable insertion sort with symbolic comparisons"""
    r = []
    for v in l:
        j = len(r)
        while j > 0 and bool(v < r[j - 1]):
            j -= 1
        r.insert(j, v)
    return r


def sort(x, axis=-1, **k):
    a = asarr(x)
    if a.ndim == 1:
        return from_list(sorted_syms(list(a.raw)), a.shape, a.kind)
    out = a.copy()
    m = _np.moveaxis(out.raw, axis, -1)
    for p in _np.ndindex(m.shape[:-1]):
        l = sorted_syms(list(m[p]))
        for j, v in enumerate(l):
            m[p + (j,)] = v
    return out


def argsort(x, axis=-1, kind=None, **k):
    a = asarr(x)
    if a.ndim != 1:
        bad('argsort of a matrix')
    l = list(a.raw)
    r = []
    for i, v in enumerate(l):
        j = len(r)
        while j > 0 and bool(v < l[r[j - 1]]):
            j -= 1
        r.insert(j, i)
    return _np.array(r, dtype=int)


def argmin(x, axis=None):
    a = asarr(x)
    if axis is not None and a.ndim > 1:
        bad('argmin axis')
    l = list(a.raw.ravel())
    b = 0
    for i in range(1, len(l)):
        if bool(l[i] < l[b]):
            b = i
    return _np.int64(b)


def argmax(x, axis=None):
    return argmin(negative(asarr(x)), axis)


def nonzero(x):
    a = asarr(x)
    pos = []
    for p in _np.ndindex(a.shape):
        v = a.raw[p]
        b = as_bool(v)
        if bool(b):
            pos.append(p)
    return tuple(_np.array([p[d] for p in pos], dtype=int) for d in range(a.ndim))


def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    r = emap(lambda cc, x, y: ite_el(as_bool(cc), x, y), c, a, b)
    if isinstance(r, SArr):
        ks = [k.kind if isinstance(k, SArr) else merge_kind([el_kind(v) for v in asarr(k).raw.ravel()]) for k in (a, b)]
        r.kind = merge_kind(ks)
        if r.kind in 'fi':
            rr = r.raw
            for p in _np.ndindex(rr.shape):
                rr[p] = cast_el(rr[p], r.kind)
    return r


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    a = asarr(x)
    l = list(a.raw.ravel())
    idx = argsort(a.ravel())
    out, first, counts, inv = [], [], [], [0] * len(l)
    for i in idx:
        v = l[i]
        if out and bool(out[-1] == v):
            counts[-1] += 1
        else:
            out.append(v); first.append(i); counts.append(1)
        inv[i] = len(out) - 1
    r = [from_list(out, (len(out),), a.kind)]
    if return_index:
        r.append(_np.array(first, dtype=int))
    if return_inverse:
        r.append(_np.array(inv, dtype=int))
    if return_counts:
        r.append(_np.array(counts, dtype=int))
    return r[0] if len(r) == 1 else tuple(r)


def round_(x, decimals=0, out=None):
    d = decimals.__index__() if isinstance(decimals, Sym) else int(decimals)
    r = emap(lambda v: core.round_(v, d), x)
    if isinstance(r, SArr) and isinstance(x, SArr):
        r.kind = x.kind
    return r


def clip(x, a=None, b=None, a_min=None, a_max=None, **k):
    a = a if a is not None else a_min
    b = b if b is not None else a_max
    r = asarr(x)
    if a is not None:
        r = maximum(r, a)
    if b is not None:
        r = minimum(r, b)
    return r


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = emap(lambda x, y: abs(num(x) - num(y)) <= num(atol) + num(rtol) * abs(num(y)), a, b)
    return _kb(r)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol)
    return bool(all_(r))


def array_equal(a, b, **k):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool(all_(equal(a, b)))


# ----------------------------------------------------------------- creation
def _shape(s):
    if isinstance(s, (int, _np.integer)):
        return (int(s),)
    if isinstance(s, Sym):
        return (s.__index__(),)
    return tuple(x.__index__() for x in s)


def full(shape, v, dtype=None, **k):
    sh = _shape(shape)
    kk = kind_of_dtype(dtype) or el_kind(strict(v))
    v = cast_el(strict(v), kk)
    r = _np.empty(sh, dtype=object)
    for p in _np.ndindex(sh):
        r[p] = v
    return wrap(r, kk)


def zeros(shape, dtype=float, order='C', **k):
    kk = kind_of_dtype(dtype)
    return full(shape, False if kk == 'b' else 0, dtype or float)


def ones(shape, dtype=float, order='C', **k):
    kk = kind_of_dtype(dtype)
    return full(shape, True if kk == 'b' else 1, dtype or float)


def empty(shape, dtype=float, **k):
    # arbitrary contents: fresh symbols
    sh = _shape(shape)
    kk = kind_of_dtype(dtype) or 'f'
    if kk == 'O':
        return wrap(_np.empty(sh, dtype=object), 'O')
    n = int(_np.prod(sh)) if sh else 1
    return from_list([E().fresh('empty', 'f' if kk == 'f' else 'i') for _ in range(n)], sh, kk)


def zeros_like(a, dtype=None, shape=None, **k):
    if hasattr(a, '_symx_sparse'):
        return zeros(a.shape)
    a = asarr(a)
    return zeros(shape or a.shape, dtype or KINDS[a.kind if a.kind != 'O' else 'f'])


def ones_like(a, dtype=None, **k):
    a = asarr(a)
    return ones(a.shape, dtype or KINDS[a.kind if a.kind != 'O' else 'f'])


def full_like(a, v, dtype=None, **k):
    a = asarr(a)
    return full(a.shape, v, dtype or KINDS[a.kind])


def empty_like(a, dtype=None, **k):
    a = asarr(a)
    return empty(a.shape, dtype or KINDS[a.kind])


def eye(N, M=None, k=0, dtype=float, **kw):
    N = N.__index__()
    M = N if M is None else M.__index__()
    r = zeros((N, M), dtype)
    one = cast_el(1, r.kind)
    for i in range(N):
        if 0 <= i + k < M:
            r.raw[i, i + k] = one
    return r


def identity(n, dtype=float, **k):
    return eye(n, dtype=dtype)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, _np.ndarray) and not isinstance(x, SArr) and x.dtype.kind in 'US':
        return x
    r = asarr(x, dtype, copy=True)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, order=None, **k):
    if isinstance(x, _np.ndarray) and not isinstance(x, SArr) and x.dtype.kind in 'iub' and dtype is None:
        return x
    return asarr(x, dtype)


def arange(*a, dtype=None, **k):
    if any(isinstance(x, Sym) and not x.isconst() for x in a):
        a = [x.__index__() if isinstance(x, Sym) else x for x in a]
    if all(isinstance(x, (int, _np.integer)) or (isinstance(x, Sym) and x.k == 'i') for x in a):
        r = _np.arange(*[int(x) for x in a])
        if dtype is not None and kind_of_dtype(dtype) != 'i':
            return asarr(r, dtype)
        return r
    vals = [num(x) for x in a]
    c = [v.const() for v in vals]
    if any(v is None for v in c):
        bad('symbolic arange')
    return asarr(_np.arange(*[float(v) for v in c]), dtype)


def linspace(a, b, n=50, endpoint=True, retstep=False, dtype=None, axis=0, num=None):
    n = (num if num is not None else n)
    n = n.__index__()
    a, b = core.num(a), core.num(b)
    div = (n - 1) if endpoint else n
    step = (b - a) / div if div > 0 else core.num(0)
    l = [_fl(a + step * i) for i in range(n)]
    if endpoint and n > 1:
        l[-1] = _fl(b)
    r = from_list(l, (n,), 'f')
    return (r, step) if retstep else r


def diag(v, k=0):
    a = asarr(v)
    if a.ndim == 1:
        n = a.shape[0] + abs(k)
        r = zeros((n, n), KINDS[a.kind if a.kind != 'b' else 'b'])
        for i in range(a.shape[0]):
            r.raw[(i, i + k) if k >= 0 else (i - k, i)] = a.raw[i]
        return r
    return a.diagonal(k)


def diagflat(v, k=0):
    return diag(asarr(v).ravel(), k)


def fill_diagonal(a, v, wrap=False):
    n = min(a.shape)
    va = asarr(v)
    for i in range(n):
        a[i, i] = va.raw[()] if va.ndim == 0 else va.raw.ravel()[i % va.size]


def atleast_1d(x):
    a = asarr(x)
    return a.reshape(1) if a.ndim == 0 else a


def atleast_2d(x):
    a = asarr(x)
    return a if a.ndim >= 2 else a.reshape(1, -1)


def vander(x, N=None, increasing=False):
    a = asarr(x)
    N = a.shape[0] if N is None else int(N)
    cols = []
    for i in range(N):
        e = i if increasing else N - 1 - i
        cols.append([core.power(v, e) for v in a.raw])
    return from_list([cols[j][i] for i in range(a.shape[0]) for j in range(N)], (a.shape[0], N), 'f')


# --------------------------------------------------------------- structure
def _struct(f):
    @functools.wraps(f)
    def g(a, *args, **kw):
        a = asarr(a)
        r = f(a.raw, *args, **kw)
        if isinstance(r, _np.ndarray):
            r = r.view(SArr)
            r.kind = a.kind
        return r
    return g


def concatenate(xs, axis=0, out=None, dtype=None, **k):
    arrs = [asarr(x) for x in xs]
    if axis is None:
        arrs = [a.ravel() for a in arrs]
        axis = 0
    return wrap(_np.concatenate([a.raw for a in arrs], axis=axis), merge_kind(a.kind for a in arrs if a.size or True))


def stack(xs, axis=0, **k):
    arrs = [asarr(x) for x in xs]
    return wrap(_np.stack([a.raw for a in arrs], axis=axis), merge_kind(a.kind for a in arrs))


def vstack(xs, **k):
    return concatenate([atleast_2d(x) for x in xs], 0)


def hstack(xs, **k):
    a = [atleast_1d(x) for x in xs]
    return concatenate(a, 0 if a[0].ndim == 1 else 1)


def column_stack(xs, **k):
    a = [asarr(x) for x in xs]
    return concatenate([x.reshape(-1, 1) if x.ndim == 1 else x for x in a], 1)


def append(a, b, axis=None):
    return concatenate([asarr(a).ravel(), asarr(b).ravel()]) if axis is None else concatenate([a, b], axis)


def delete(a, idx, axis=None):
    a = asarr(a)
    return wrap(_np.delete(a.raw, asindex(idx), axis), a.kind)


def insert(a, idx, v, axis=None):
    a = asarr(a)
    return wrap(_np.insert(a.raw, asindex(idx), _objview(asarr(v)) if isinstance(v, (list, _np.ndarray)) else strict(v), axis), a.kind)


def split(a, n, axis=0):
    a = asarr(a)
    return [wrap(x, a.kind) for x in _np.split(a.raw, n, axis)]


def isin(a, b, assume_unique=False, invert=False, **k):
    b = list(asarr(list(b) if not isinstance(b, _np.ndarray) else b).raw.ravel())
    r = emap(lambda x: s_or(*[x == y for y in b]), a)
    r = _kb(r)
    return logical_not(r) if invert else r


in1d = isin


def setdiff1d(a, b, **k):
    a = unique(a)
    return a[logical_not(isin(a, b))]


def intersect1d(a, b, **k):
    a = unique(a)
    return a[isin(a, b)]


def union1d(a, b):
    return unique(concatenate([asarr(a).ravel(), asarr(b).ravel()]))


def count_nonzero(x, axis=None, **k):
    return reduce_el(x, axis, lambda l: _suml([ite(as_bool(v), 1, 0) for v in l], 'i'))


def flatnonzero(x):
    return nonzero(asarr(x).ravel())[0]


def argwhere(x):
    return _np.transpose(nonzero(x))


def iterable(x):
    try:
        iter(x)
    except TypeError:
        return False
    return True


def isscalar(x):
    return isinstance(x, Sym) or _np.isscalar(x)


def size(a, axis=None):
    a = asarr(a)
    return a.size if axis is None else a.shape[axis]


def ndim(a):
    return asarr(a).ndim


def shape(a):
    return a.shape if hasattr(a, 'shape') else asarr(a).shape


def tile(a, reps):
    a = asarr(a)
    return wrap(_np.tile(a.raw, reps), a.kind)


def apply_along_axis(f, axis, arr, *a, **k):
    arr = asarr(arr)
    if arr.ndim != 2:
        bad('apply_along_axis')
    rows = arr.T if axis == 0 else arr
    r = asarr([f(x, *a, **k) for x in rows])
    return r.T if axis == 0 and r.ndim == 2 else r


def vectorize(f, *a, **k):
    return lambda *xs: emap(f, *xs)


def fromiter(it, dtype=None, count=-1):
    return asarr(list(it), dtype)


# ------------------------------------------------------------ linear algebra
def matmul(a, b, out=None, **k):
    if hasattr(a, '_symx_sparse'):
        return a @ b
    if hasattr(b, '_symx_sparse') or hasattr(b, '_symx_cp'):
        return b.__rmatmul__(a)
    A, B = asarr(a), asarr(b)
    if A.ndim == 0 or B.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    va = vb = False
    x, y = A.raw, B.raw
    if x.ndim == 1:
        x = x[None, :]; va = True
    if y.ndim == 1:
        y = y[:, None]; vb = True
    if x.shape[-1] != y.shape[-2]:
        raise ValueError('matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)' % (y.shape[-2], x.shape[-1]))
    kk = 'i' if A.kind in 'ib' and B.kind in 'ib' else 'f'
    if x.ndim > 2 or y.ndim > 2:
        bs = _np.broadcast_shapes(x.shape[:-2], y.shape[:-2])
        X = _np.broadcast_to(x, bs + x.shape[-2:])
        Y = _np.broadcast_to(y, bs + y.shape[-2:])
        out = _np.empty(bs + (x.shape[-2], y.shape[-1]), dtype=object)
        for p in _np.ndindex(bs):
            out[p] = mm(X[p], Y[p], kk)
    else:
        out = mm(x, y, kk)
    if va:
        out = out[..., 0, :]
    if vb:
        out = out[..., 0]
    if not isinstance(out, _np.ndarray):
        return out
    if out.ndim == 0:
        return out[()]
    cls = SMat if isinstance(a, SMat) or isinstance(b, SMat) else SArr
    r = out.view(cls)
    r.kind = kk
    return r


def mm(x, y, kk='f'):
    n, m = x.shape
    p = y.shape[1]
    out = _np.empty((n, p), dtype=object)
    zero = Sym({}, (), kk)
    cols = []
    for j in range(p):
        c = []
        for k in range(m):
            v = y[k, j]
            if v.__class__ is not Sym:
                v = num(v)
            if v.n:
                c.append((k, v))
        cols.append(c)
    tick = E().tick if E() is not None else (lambda: None)
    for i in range(n):
        tick()
        row = [v if v.__class__ is Sym else num(v) for v in x[i]]
        for j in range(p):
            out[i, j] = _dotl(row, cols[j], zero, kk)
    return out


def _dotl(row, col, zero, kk):
    acc = None
    pd = {}
    simple = True
    for k, v in col:
        r = row[k]
        if not r.n:
            continue
        if r.d or v.d:
            t = r * v
            acc = t if acc is None else acc + t
            continue
        core_p_addmul(pd, r.n, v.n)
    if acc is None:
        if not pd:
            return zero
        return Sym(pd, (), kk)
    if pd:
        acc = acc + Sym(pd, (), kk)
    return acc if acc.k == kk else Sym(acc.n, acc.d, kk)


def core_p_addmul(acc, p, q):
    mono_mul = core.mono_mul
    if len(p) * len(q) > 400000:
        raise Unsupported('polynomial blow-up')
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            v = acc.get(m)
            c = c1 * c2
            if v is not None:
                c = v + c
                if c == 0:
                    del acc[m]
                    continue
            elif c == 0:
                continue
            acc[m] = norm_c(c)


def dot(a, b, out=None):
    if hasattr(a, '_symx_sparse') or hasattr(b, '_symx_sparse'):
        return matmul(a, b)
    A, B = asarr(a), asarr(b)
    if A.ndim == 0 or B.ndim == 0:
        return multiply(A, B)
    return matmul(A, B)


def inner(a, b):
    A, B = asarr(a), asarr(b)
    return matmul(A, B.T) if B.ndim > 1 else matmul(A, B)


def vdot(a, b):
    return matmul(asarr(a).ravel(), asarr(b).ravel())


def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return multiply(a.reshape(-1, 1), b.reshape(1, -1))


def einsum(spec, *ops, **kw):
    if not isinstance(spec, str):
        bad('einsum')
    spec = spec.replace(' ', '')
    if '...' in spec:
        bad('einsum ellipsis')
    ins, _, outs = spec.partition('->')
    ins = ins.split(',')
    arrs = [asarr(o) for o in ops]
    if '->' not in spec:
        from collections import Counter
        c = Counter(''.join(ins))
        outs = ''.join(sorted(ch for ch in c if c[ch] == 1))
    dims = {}
    for s_, a in zip(ins, arrs):
        for ch, d in zip(s_, a.shape):
            dims[ch] = d
    inner_ = [ch for ch in dims if ch not in outs]
    sh = tuple(dims[ch] for ch in outs)
    out = _np.empty(sh, dtype=object)
    for p in _np.ndindex(sh):
        e = dict(zip(outs, p))
        acc = num(0)
        for q in itertools.product(*[range(dims[ch]) for ch in inner_]):
            e.update(zip(inner_, q))
            t = None
            for s_, a in zip(ins, arrs):
                v = a.raw[tuple(e[ch] for ch in s_)]
                t = v if t is None else t * v
            acc = acc + t
        out[p] = acc
    return out[()] if sh == () else wrap(out, 'f' if any(a.kind == 'f' for a in arrs) else None)


def trace(a, *k, **kw):
    return sum_(asarr(a).diagonal())


def kron(a, b):
    a, b = asarr(a), asarr(b)
    return multiply(a.reshape(a.shape[0], 1, a.shape[1], 1), b.reshape(1, b.shape[0], 1, b.shape[1])).reshape(
        a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def consts(a):
    """list of constant values (row-major) or None"""
    r = []
    for x in a.raw.ravel():
        if isinstance(x, (SymBool,)):
            return None
        if not isinstance(x, Sym):
            x = num(x)
        c = x.const()
        if c is None:
            c = x.simp().const()
        if c is None:
            return None
        r.append(c)
    return r


def tofloat(a):
    """float ndarray of a constant array, or None"""
    a = asarr(a)
    c = consts(a)
    if c is None:
        return None
    return _np.array([float(x) for x in c], dtype=float).reshape(a.shape)


def exact(cs):
    return all(not isinstance(c, float) for c in cs)


def approx_arr(f):
    f = _np.asarray(f)
    return from_list([approx(x) for x in f.ravel()], f.shape, 'f')


def norm(x, ord=None, axis=None, keepdims=False):
    if hasattr(x, '_symx_sparse'):
        x = x.toarray()
    a = asarr(x)
    if axis is not None:
        if ord in (None, 2):
            return sqrt(sum_(multiply(a, a), axis=axis, keepdims=keepdims))
        if ord == 1:
            return sum_(absolute(a), axis=axis, keepdims=keepdims)
        bad('norm axis')
    if ord is None or ord == 'fro' or (ord == 2 and a.ndim == 1):
        return _fl(core.sqrt(_suml([num(v) * num(v) for v in a.raw.ravel()])))
    if a.ndim == 1:
        if ord == 1:
            return _suml([abs(num(v)) for v in a.raw])
        if ord == _np.inf:
            return _maxl([abs(num(v)) for v in a.raw])
    if a.ndim == 2 and ord == 2:
        f = tofloat(a)
        if f is not None:
            return approx(_np.linalg.norm(f, 2))
        # spectral norm of a symbolic matrix: opaque function of its entries
        return opaque('spectral_norm', a, lambda m: float(_np.linalg.norm(m, 2)), nonneg=True)
    if a.ndim == 2 and ord == 1:
        return amax(sum_(absolute(a), axis=0))
    if a.ndim == 2 and ord == _np.inf:
        return amax(sum_(absolute(a), axis=1))
    bad('norm ord %r' % (ord,))


def opaque(name, a, fn, nonneg=False):
    """uninterpreted function of an array (congruence via normal form)"""
    key = ('op', name, a.shape, tuple(num(v).key() for v in a.raw.ravel()))
    syms = [num(v) for v in a.raw.ravel()]
    sh = a.shape

    def ax(t):
        deps = set()
        for v in syms:
            deps |= v.atoms()
        return deps, ([t >= 0] if nonneg else [])
    r = core._fresh(name, 'f', key, ax)
    aid = next(iter(r.n))[0]
    core.ATOMS[aid].fn = lambda ev: fn(_np.array([float(ev(v)) for v in syms]).reshape(sh))
    return r


def _isint_const(a):
    c = consts(a)
    return c is not None and exact(c)


def _rational(a):
    return [[Fraction(num(v).simp().const()) for v in row] for row in a.raw]


def _rref(M):
    M = [r[:] for r in M]
    piv = []
    r = 0
    rows, cols = len(M), len(M[0]) if M else 0
    for c in range(cols):
        p = next((i for i in range(r, rows) if M[i][c] != 0), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        iv = 1 / M[r][c]
        M[r] = [x * iv for x in M[r]]
        for i in range(rows):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == rows:
            break
    return M, piv


def _rmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), Fraction(0)) for j in range(len(B[0]))] for i in range(len(A))]


def _rT(A):
    return [list(x) for x in zip(*A)]


def _rinv(A):
    n = len(A)
    M, piv = _rref([r + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(A)])
    if piv[:n] != list(range(n)):
        raise _np.linalg.LinAlgError('Singular matrix')
    return [r[n:] for r in M]


_PINV = {}


def rpinv(A, key=None):
    """exact Moore-Penrose inverse of a rational matrix"""
    m, n = len(A), len(A[0]) if A else 0
    if not m or not n:
        return [[Fraction(0)] * m for _ in range(n)]
    k = tuple(map(tuple, A))
    if k in _PINV:
        return _PINV[k]
    R, piv = _rref(A)
    r = len(piv)
    if r == 0:
        P = [[Fraction(0)] * m for _ in range(n)]
    else:
        F = R[:r]
        C = [[row[c] for c in piv] for row in A]
        Ft, Ct = _rT(F), _rT(C)
        P = _rmul(_rmul(Ft, _rinv(_rmul(F, Ft))), _rmul(_rinv(_rmul(Ct, C)), Ct))
    if len(_PINV) > 400:
        _PINV.clear()
    _PINV[k] = P
    return P


def _fromrat(M, m, n):
    return from_list([Sym({(): norm_c(x)} if x != 0 else {}, (), 'f') for r in M for x in r], (m, n), 'f')


def pinv(a, rcond=1e-15, hermitian=False):
    a = asarr(a)
    c = consts(a)
    if c is None:
        bad('pinv of a symbolic matrix')
    if exact(c):
        return _fromrat(rpinv(_rational(a)), a.shape[1], a.shape[0])
    return approx_arr(_np.linalg.pinv(tofloat(a), rcond=float(num(rcond).const())))


def lstsq(a, b, rcond='warn'):
    A, B = asarr(a), asarr(b)
    if A.ndim != 2:
        raise _np.linalg.LinAlgError('2-dimensional array required')
    if A.shape[0] != B.shape[0]:
        raise _np.linalg.LinAlgError('Incompatible dimensions')
    c = consts(A)
    if c is None:
        bad('lstsq with a symbolic matrix')
    rc = None if rcond in (None, 'warn', -1) else num(rcond).const()
    if exact(c) and (rc is None or rc <= 1e-8):
        P = _fromrat(rpinv(_rational(A)), A.shape[1], A.shape[0])
        rank = len(_rref(_rational(A))[1]) if A.size else 0
        s_ = None
    else:
        M = tofloat(A)
        eps = _np.finfo(float).eps
        r = eps * max(M.shape) if rcond is None else (eps if rcond in ('warn', -1) else float(rc))
        P = approx_arr(_np.linalg.pinv(M, rcond=r))
        rank = int(_np.linalg.matrix_rank(M))
    x = matmul(P, B)
    x = asarr(x)
    res = subtract(matmul(A, x), B)
    res = sum_(multiply(res, res), axis=0)
    res = asarr(res)
    if res.ndim == 0:
        res = res.reshape(1)
    if rank < A.shape[1] or A.shape[0] <= A.shape[1]:
        res = zeros(0)
    return x, res, rank, approx_arr(_np.linalg.svd(tofloat(A), compute_uv=False)) if A.size else zeros(0)


def inv(a):
    if hasattr(a, '_symx_sparse'):
        a = a.toarray()
    A = asarr(a)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = A.shape[0]
    c = consts(A)
    if c is not None:
        if exact(c):
            r = _fromrat(_rinv(_rational(A)), n, n)
        else:
            r = approx_arr(_np.linalg.inv(tofloat(A)))
    else:
        adj, det = adjugate(A)
        if det.isconst() and det.const() == 0:
            raise _np.linalg.LinAlgError('Singular matrix')
        E().need_nonzero(det) if not det.isconst() else None
        one = num(1) / det
        r = emap(lambda v: _fl(v * one), adj)
        r.kind = 'f'
    return r.view(SMat) if isinstance(a, SMat) else r


def adjugate(A):
    """Faddeev-LeVerrier: adjugate and determinant, division by integers only"""
    n = A.shape[0]
    M = zeros((n, n)).raw
    I = eye(n).raw
    c = num(1)
    Ar = A.raw
    for k in range(1, n + 1):
        # M_k = A M_{k-1} + c_{n-k+1} I
        AM = mm(Ar, M) if k > 1 else zeros((n, n)).raw
        M = AM.copy()
        for i in range(n):
            M[i, i] = M[i, i] + c
        AM = mm(Ar, M)
        t = _suml([AM[i, i] for i in range(n)])
        c = t * Fraction(-1, k)
    sgn = 1 if n % 2 == 1 else -1       # adj = (-1)^(n-1) M_n ; det = (-1)^n c_0
    det = c if n % 2 == 0 else -c
    adj = wrap(M, 'f')
    if sgn < 0:
        adj = negative(adj)
    return adj, det


def det(a):
    A = asarr(a)
    return adjugate(A)[1]


def solve(a, b):
    if hasattr(a, '_symx_sparse'):
        a = a.toarray()
    return matmul(inv(a), b)


def matrix_power(a, n):
    if hasattr(a, '_symx_sparse'):
        raise Unsupported('matrix_power of sparse')
    A = asarr(a)
    n = n.__index__()
    if n < 0:
        A = inv(A)
        n = -n
    r = eye(A.shape[0])
    if A.kind == 'i':
        r = r.astype('i')
    for _ in range(n):
        r = matmul(r, A)
    return r


def matrix_rank(a, tol=None, **k):
    a = asarr(a)
    if _isint_const(a):
        return len(_rref(_rational(a))[1])
    f = tofloat(a)
    if f is None:
        bad('rank of a symbolic matrix')
    return int(_np.linalg.matrix_rank(f))


def spectral_of(a):
    """eigenpairs of a matrix the harness built from a symbolic spectrum (None for any other matrix)"""
    for M, w, Q in getattr(E(), 'spectra', ()):
        if M.shape == a.shape and all((num(x) - num(y)).simp().const() == 0 for x, y in zip(M.raw.ravel(), a.raw.ravel())):
            return w.copy(), Q.copy()
    return None


def eigh(a, *k, **kw):
    if hasattr(a, '_symx_sparse'):
        a = a.toarray()
    r = spectral_of(asarr(a))
    if r is not None:
        return r
    f = tofloat(asarr(a))
    if f is None:
        bad('eigh of a symbolic matrix')
    w, v = _np.linalg.eigh(f)
    return approx_arr(w), approx_arr(v)


def eigvalsh(a, *k):
    return eigh(a)[0]


def eig(a):
    r = spectral_of(asarr(a))
    if r is not None:
        return r
    f = tofloat(asarr(a))
    if f is None:
        bad('eig of a symbolic matrix')
    w, v = _np.linalg.eig(f)
    if _np.iscomplexobj(w) and abs(w.imag).max() > 0:
        bad('complex eigenvalues')
    return approx_arr(w.real), approx_arr(v.real)


def svd(a, full_matrices=True, compute_uv=True, **k):
    f = tofloat(a)
    if f is None:
        bad('svd of a symbolic matrix')
    r = _np.linalg.svd(f, full_matrices, compute_uv)
    return tuple(approx_arr(x) for x in r) if compute_uv else approx_arr(r)


def corrcoef(x, y=None, rowvar=True, **k):
    X = asarr(x)
    if y is None:
        rows = list(X) if X.ndim == 2 else [X]
    else:
        rows = ([X] if X.ndim == 1 else list(X))
        Y = asarr(y)
        rows = rows + ([Y] if Y.ndim == 1 else list(Y))
    cen = [subtract(r, mean(r)) for r in rows]
    nrm = [core.sqrt(_suml([v * v for v in c.raw])) for c in cen]
    n = len(rows)
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            if i == j:
                out[i, j] = cast_el(1, 'f')
            elif j < i:
                out[i, j] = out[j, i]
            else:
                out[i, j] = _suml([a * b for a, b in zip(cen[i].raw, cen[j].raw)]) / nrm[i] / nrm[j]
    if n == 1:
        return num(1)
    return wrap(out, 'f')


def cov(x, y=None, rowvar=True, ddof=None, bias=False, **k):
    rows = [asarr(x)] + ([asarr(y)] if y is not None else [])
    if rows[0].ndim == 2:
        rows = list(rows[0]) + rows[1:]
    cen = [subtract(r, mean(r)) for r in rows]
    d = len(cen[0]) - (ddof if ddof is not None else (0 if bias else 1))
    n = len(rows)
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = _suml([a * b for a, b in zip(cen[i].raw, cen[j].raw)]) / d
    return wrap(out, 'f') if n > 1 else out[0, 0]


class SMat(SArr):
    """numpy.matrix semantics (result of sparse + dense)"""

    def __array_finalize__(s, obj):
        SArr.__array_finalize__(s, obj)

    def __mul__(s, o):
        if isinstance(o, (Sym, numbers.Number)):
            return SArr.__mul__(s, o)
        return s @ asarr(o)

    def __getitem__(s, i):
        r = _getitem(s.view_arr(), i)
        if isinstance(r, _np.ndarray) and not isinstance(i, tuple):
            if r.ndim == 1 and not (isinstance(i, slice)):
                r = r.reshape(1, -1)
        if isinstance(r, SArr):
            if r.ndim == 1:
                first = i[0] if isinstance(i, tuple) else i
                r = r.reshape(1, -1) if not isinstance(first, slice) else r.reshape(-1, 1)
            k = r.kind
            r = _np.ndarray.view(r, SMat)
            r.kind = k
        return r

    def view_arr(s):
        r = _np.ndarray.view(s, SArr)
        r.kind = s.kind
        return r

    @property
    def A(s):
        return s.view_arr()

    @property
    def A1(s):
        return s.view_arr().ravel()

    def __matmul__(s, o):
        o2 = asarr(o)
        if o2.ndim == 1:
            # matrix @ vector -> 1 x n matrix
            r = matmul(s.view_arr(), o2).reshape(1, -1)
        else:
            r = matmul(s.view_arr(), o2.view_arr() if isinstance(o2, SMat) else o2)
        k = r.kind
        r = _np.ndarray.view(r, SMat)
        r.kind = k
        return r

    def __rmatmul__(s, o):
        o2 = asarr(o)
        r = matmul(o2, s.view_arr())
        if r.ndim == 1:
            r = r.reshape(1, -1)
        k = r.kind
        r = _np.ndarray.view(r, SMat)
        r.kind = k
        return r

    def flatten(s, order='C'):
        return _np.ndarray.view(s.view_arr().reshape(1, -1), SMat)

    ravel = flatten


# -------------------------------------------------------------------- random
class _Random:
    """numpy.random: arbitrary values, bounded"""

    @staticmethod
    def _arr(prefix, shape, lo=None, hi=None, kind='f'):
        shape = _shape(shape) if shape != () else ()
        n = 1
        for x in shape:
            n *= x
        l = [E().fresh(prefix, kind, lo, hi) for _ in range(n)]
        if shape == ():
            return l[0]
        return from_list(l, shape, kind)

    def randn(s, *shape):
        return s._arr('randn', shape, -5, 5)

    def standard_normal(s, size=()):
        return s._arr('randn', () if size is None else size, -5, 5)

    def normal(s, loc=0.0, scale=1.0, size=None):
        r = s._arr('randn', () if size is None else size, -5, 5)
        return r * scale + loc

    def rand(s, *shape):
        return s._arr('rand', shape, 0, 1)

    def random(s, size=None):
        return s._arr('rand', () if size is None else size, 0, 1)

    random_sample = random

    def uniform(s, low=0.0, high=1.0, size=None):
        r = s._arr('rand', () if size is None else size, 0, 1)
        return r * (num(high) - num(low)) + low

    def seed(s, *a):
        pass

    def permutation(s, n):
        arr = n if isinstance(n, _np.ndarray) else None
        m = len(arr) if arr is not None else n.__index__()
        p = choose_distinct('perm', m, m)
        p = _np.array(p, dtype=int)
        return arr[p] if arr is not None else p

    def shuffle(s, l):
        p = choose_distinct('perm', len(l), len(l))
        l[:] = [l[i] for i in p]

    def choice(s, a, size=None, replace=True, p=None):
        pool = None
        if isinstance(a, (int, _np.integer, Sym)):
            n = a.__index__()
        else:
            pool = asarr(a) if not isinstance(a, _np.ndarray) else a
            n = len(pool)
        if size is None:
            i = E().concretise(E().fresh('choice', 'i', 0, n - 1))
            return pool[i] if pool is not None else _np.int64(i)
        m = size.__index__()
        if replace:
            idx = [E().concretise(E().fresh('choice', 'i', 0, n - 1)) for _ in range(m)]
        else:
            if m > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            idx = choose_distinct('choice', n, m)
        idx = _np.array(idx, dtype=int)
        return pool[idx] if pool is not None else idx

    def randint(s, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        return s._arr('randint', () if size is None else size, int(low), int(high) - 1, 'i')

    integers = randint

    def default_rng(s, seed=None):
        return s

    RandomState = default_rng

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.random.%s' % n)


def choose_distinct(prefix, n, m):
    """m distinct symbolic positions out of n; each is fixed by forking"""
    e = E()
    syms = []
    for j in range(m):
        x = e.fresh(prefix, 'i', 0, n - 1)
        for y in syms:
            e.assume(x != y)
        syms.append(x)
    hook = getattr(e, 'choice_hook', None)
    if hook is not None:
        r = hook(prefix, n, m, syms)
        if r is not None:
            return r
    return [e.concretise(x) for x in syms]


random = _Random()


class _LinAlg(types.ModuleType):
    LinAlgError = _np.linalg.LinAlgError

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.linalg.%s' % n)


linalg = _LinAlg('numpy.linalg')
for _n in 'norm pinv lstsq inv det solve matrix_power matrix_rank eigh eigvalsh eig svd'.split():
    setattr(linalg, _n, globals()[_n])
linalg.multi_dot = lambda l, **k: functools.reduce(matmul, l)
linalg.eigvals = lambda a: eig(a)[0]

UFUNCS = dict(add=add, subtract=subtract, multiply=multiply, divide=divide, true_divide=divide, floor_divide=floor_divide,
              remainder=mod, power=power, float_power=power, equal=equal, not_equal=not_equal, less=less,
              less_equal=less_equal, greater=greater, greater_equal=greater_equal, negative=negative, positive=positive,
              absolute=absolute, fabs=absolute, sqrt=sqrt, exp=exp, log=log, log10=log10, log1p=log1p, expm1=expm1,
              square=square, reciprocal=reciprocal, floor=floor, ceil=ceil, trunc=trunc, rint=lambda x: round_(x),
              sign=sign, logical_not=logical_not, logical_and=logical_and, logical_or=logical_or, logical_xor=logical_xor,
              bitwise_and=_bitand, bitwise_or=lambda a, b: logical_or(a, b), bitwise_xor=logical_xor, invert=_inv,
              maximum=maximum, minimum=minimum, fmax=maximum, fmin=minimum, isnan=isnan, isinf=isinf,
              isfinite=isfinite, conjugate=conj, matmul=matmul, hypot=hypot)
UFUNCS['bitwise_not'] = _inv


def _mkdirect(name):
    return _struct(getattr(_np, name))


for _n in ('transpose squeeze reshape ravel swapaxes moveaxis rollaxis flip fliplr flipud rot90 roll expand_dims '
           'tril triu broadcast_to repeat').split():
    globals()[_n] = _mkdirect(_n)


def broadcast_arrays(*a):
    return [wrap(x, asarr(y).kind) for x, y in zip(_np.broadcast_arrays(*[asarr(y).raw for y in a]), a)]


def copy(a, **k):
    return asarr(a).copy()


def meshgrid(*a, **k):
    return [wrap(x) for x in _np.meshgrid(*[asarr(y).raw for y in a], **k)]


def diff(a, n=1, axis=-1, **k):
    a = asarr(a)
    if a.ndim != 1:
        bad('diff')
    for _ in range(n):
        a = subtract(a[1:], a[:-1])
    return a


def nan_to_num(x, **k):
    return asarr(x)


def polyval(p, x):
    r = num(0)
    for c in asarr(p):
        r = add(multiply(r, x), c)
    return r


def average(x, axis=None, weights=None, **k):
    if weights is None:
        return mean(x, axis)
    w = asarr(weights)
    return divide(sum_(multiply(x, w), axis=axis), sum_(w, axis=axis))


def searchsorted(a, v, side='left', **k):
    l = list(asarr(a).raw)

    def f(x):
        j = 0
        while j < len(l) and bool(l[j] < x if side == 'left' else l[j] <= x):
            j += 1
        return num(j)
    return emap(f, v)


def lexsort(keys, axis=-1):
    ks = [list(asarr(k).raw) for k in keys]
    n = len(ks[0])

    def less_(i, j):
        for k in reversed(ks):
            if bool(k[i] < k[j]):
                return True
            if bool(k[j] < k[i]):
                return False
        return False
    r = []
    for i in range(n):
        j = len(r)
        while j > 0 and less_(i, r[j - 1]):
            j -= 1
        r.insert(j, i)
    return _np.array(r, dtype=int)


def triu_indices(n, k=0, m=None):
    return _np.triu_indices(n, k, m)


def tril_indices(n, k=0, m=None):
    return _np.tril_indices(n, k, m)


def ix_(*a):
    return _np.ix_(*[asindex(x) for x in a])


def bincount(x, weights=None, minlength=0):
    idx = asindex(asarr(x))
    n = max([minlength] + [int(i) + 1 for i in idx])
    r = zeros(n, int if weights is None else float)
    w = None if weights is None else asarr(weights)
    for j, i in enumerate(idx):
        r[int(i)] = r[int(i)] + (1 if w is None else w[j])
    return r


# dispatch table for __array_function__ (real numpy functions called on SArr)
FUNCS = {}
_ALIAS = {'sum': 'sum_', 'any': 'any_', 'all': 'all_', 'round': 'round_', 'around': 'round_', 'min': 'amin', 'max': 'amax',
          'abs': 'absolute', 'array_equal': 'array_equal'}
for _n in dir(_np):
    _f = getattr(_np, _n)
    if callable(_f) and not isinstance(_f, type):
        _g = globals().get(_ALIAS.get(_n, _n))
        if callable(_g) and _g is not _f and not isinstance(_f, _np.ufunc):
            FUNCS[_f] = _g
for _n in dir(_np.linalg):
    _f = getattr(_np.linalg, _n)
    _g = linalg.__dict__.get(_n)
    if callable(_f) and callable(_g) and not isinstance(_f, type):
        FUNCS[_f] = _g


# -------------------------------------------------------------- module object
class _Meta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __call__(cls, *a, **k):
        return cls._make(*a, **k)


def _numtype(name, kind, base):
    class T(base, metaclass=_Meta):
        _symx_kind = kind

        @staticmethod
        def _check(x):
            if isinstance(x, Sym):
                return x.k == kind
            return isinstance(x, base)

        @staticmethod
        def _make(x=0):
            return cast_el(strict(x), kind) if not isinstance(x, (SArr, list, _np.ndarray)) else asarr(x, kind)
    T.__name__ = name
    return T


class _NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.ndarray)

    def __call__(cls, *a, **k):
        raise Unsupported('ndarray constructor')


class ndarray(metaclass=_NdMeta):
    pass


class NPModule(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('numpy.%s' % n)


def make_module():
    m = NPModule('numpy')
    g = globals()
    names = [n for n in g if not n.startswith('_') and n not in (
        'types', 'itertools', 'math', 'functools', 'numbers', 'Fraction', 'core', 'real', 'make_module', 'NPModule')]
    for n in names:
        setattr(m, n, g[n])
    for a, b in _ALIAS.items():
        setattr(m, a, g[b])
    m.around = round_
    m.abs = absolute
    m.amin, m.amax = amin, amax
    m.nan, m.inf, m.pi, m.e = _np.nan, _np.inf, _np.pi, _np.e
    m.newaxis = None
    m.finfo = _np.finfo
    m.iinfo = _np.iinfo
    m.dtype = _np.dtype
    m.generic = _np.generic
    m.errstate = _np.errstate
    m.seterr = _np.seterr
    m.ndindex = _np.ndindex
    m.ndenumerate = lambda a: ((p, asarr(a).raw[p]) for p in _np.ndindex(asarr(a).shape))
    m.set_printoptions = lambda *a, **k: None
    for n in ('float64', 'float32', 'float_', 'double', 'float16'):
        setattr(m, n, _numtype(n, 'f', _np.float64))
    for n in ('int64', 'int32', 'int_', 'intp', 'int8', 'int16', 'uint8', 'int0'):
        setattr(m, n, _numtype(n, 'i', _np.int64))
    m.bool_ = _np.bool_
    m.object_ = _np.object_
    m.floating, m.integer, m.number = _np.floating, _np.integer, _np.number
    m.random = random
    m.linalg = linalg
    m.logspace = lambda a, b, n=50, **k: power(10, linspace(a, b, n))
    m.nansum, m.nanmean, m.nanmax, m.nanmin = sum_, mean, amax, amin
    m.array_split = lambda a, n, axis=0: [wrap(x, asarr(a).kind) for x in _np.array_split(asarr(a).raw, n, axis)]
    m.r_ = _RC(0)
    m.c_ = _RC(1)
    m.s_ = _np.s_
    m.__version__ = _np.__version__
    return m


class _RC:
    def __init__(s, ax):
        s.ax = ax

    def __getitem__(s, x):
        x = x if isinstance(x, tuple) else (x,)
        return concatenate([atleast_1d(v) for v in x]) if s.ax == 0 else column_stack(x)


def _install_ops():
    def mkop(fn, refl):
        def f(s, o):
            c = o.__class__
            if c is not Sym and c is not SymBool:
                # everything else goes through numpy's own dispatch rules
                return None
            a, b = (o, s) if refl else (s, o)
            r = fn(a, b)
            if type(s) is not SArr and isinstance(r, SArr) and type(r) is SArr:
                k = r.kind
                r = _np.ndarray.view(r, type(s))
                r.kind = k
            return r
        return f
    tab = {'add': add, 'sub': subtract, 'mul': multiply, 'truediv': divide, 'floordiv': floor_divide, 'mod': mod, 'pow': power,
           'eq': equal, 'ne': not_equal, 'lt': less, 'le': less_equal, 'gt': greater, 'ge': greater_equal}
    for nm, fn in tab.items():
        for refl in ((False, True) if nm not in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') else (False,)):
            meth = '__%s%s__' % ('r' if refl else '', nm)
            h = mkop(fn, refl)
            base = getattr(SArr, meth)

            def w(s, o, *a, h=h, base=base):
                c = o.__class__
                if c is Sym or c is SymBool:
                    return h(s, o)
                return base(s, o, *a)
            setattr(SArr, meth, w)
    SArr.__hash__ = lambda s: (_ for _ in ()).throw(TypeError("unhashable type: 'numpy.ndarray'"))


_install_ops()
