"""pandas with symbolic cells: the real pandas on object columns, arrays leave as SArr; read_csv serves a table
of the case (virtual file)."""
import types
import numpy as _np
import pandas as _pd
from . import core, nps
from .core import Sym, Unsupported
from .nps import SArr, asarr


class Series(_pd.Series):
    @property
    def _constructor(s):
        return Series

    @property
    def _constructor_expanddim(s):
        return DataFrame

    @property
    def values(s):
        return _arr(_pd.Series.to_numpy(_pd.Series(s, copy=False)))

    def to_numpy(s, dtype=None, copy=False, **k):
        r = s.values
        return r.astype(dtype) if dtype is not None else r

    def tolist(s):
        return list(_pd.Series.to_numpy(_pd.Series(s, copy=False)))

    to_list = tolist

    def astype(s, t, **k):
        k2 = nps.kind_of_dtype(t) if not isinstance(t, dict) else None
        if k2 in ('f', 'i'):
            return Series([nps.cast_el(nps.strict(v), k2) for v in s.tolist()], index=s.index, name=s.name, dtype=object)
        return super().astype(t)

    def _red(s, f):
        return f(s.values)

    def max(s, *a, **k):
        return nps.amax(s.values)

    def min(s, *a, **k):
        return nps.amin(s.values)

    def sum(s, *a, **k):
        return nps.sum_(s.values)

    def mean(s, *a, **k):
        return nps.mean(s.values)

    def __array__(s, dtype=None):
        return _pd.Series.to_numpy(_pd.Series(s, copy=False))

    # pandas hands an object array to the operator, which a symbolic scalar does not take: element by element
    def _elementwise(s, other, op):
        v = s.tolist()
        if isinstance(other, (Sym, core.SymBool)):
            o = [other] * len(v)
        else:
            o = other.ravel().tolist() if isinstance(other, _np.ndarray) else list(other.elems())
            if len(o) == 1:
                o = o * len(v)
        if len(o) != len(v):
            raise ValueError('Lengths must match')
        return Series([op(a, b) for a, b in zip(v, o)], index=s.index, name=s.name, dtype=object)

    def _arith_method(s, other, op):
        if isinstance(other, (Sym, core.SymBool, SArr)):
            return s._elementwise(other, op)
        return super()._arith_method(other, op)

    def _cmp_method(s, other, op):
        if isinstance(other, (Sym, core.SymBool, SArr)):
            return s._elementwise(other, op)
        return super()._cmp_method(other, op)


class DataFrame(_pd.DataFrame):
    @property
    def _constructor(s):
        return DataFrame

    @property
    def _constructor_sliced(s):
        return Series

    @property
    def values(s):
        return _arr(_pd.DataFrame.to_numpy(_pd.DataFrame(s, copy=False)))

    def to_numpy(s, dtype=None, copy=False, **k):
        r = s.values
        return r.astype(dtype) if dtype is not None else r

    def astype(s, t, **k):
        if isinstance(t, dict):
            r = s.copy()
            for c, tt in t.items():
                r[c] = s[c].astype(tt)
            return r
        k2 = nps.kind_of_dtype(t)
        if k2 in ('f', 'i'):
            r = s.copy()
            for c in s.columns:
                r[c] = s[c].astype(t)
            return r
        return super().astype(t)


def _arr(a):
    if a.dtype == object:
        l = a.ravel()
        if any(isinstance(x, str) or x is None or isinstance(x, float) and x != x for x in l):
            return a
        r = asarr(a)
        if r.kind == 'f':
            r = r.astype('f')
        return r
    return asarr(a) if a.dtype.kind in 'fiu' else a


class VFile:
    """table file: columns, rows; sep; number of metadata lines; header or not"""

    def __init__(s, columns, rows, sep=',', meta=0, header=True):
        s.columns, s.rows, s.sep, s.meta, s.header = columns, rows, sep, meta, header


def _hashsep(x):
    return x


def make_module(world):
    m = types.ModuleType('pandas')

    def read_csv(path, sep=None, delimiter=None, header='infer', skiprows=None, usecols=None, names=None,
                 index_col=None, dtype=None, **kw):
        kw = {k: v for k, v in kw.items() if v is not None and k not in ('engine', 'low_memory', 'encoding', 'comment')}
        if kw:
            raise Unsupported('read_csv options %s' % sorted(kw))
        world.touched.add(str(path))
        f = world.vfs.get(str(path))
        if f is None:
            import os
            if os.path.exists(str(path)):
                raise Unsupported('real file %s' % path)
            raise FileNotFoundError(2, 'No such file or directory', str(path))
        sp = sep if sep is not None else (delimiter if delimiter is not None else ',')
        if sp != f.sep and len(f.columns) > 1:
            raise Unsupported('file is read with another separator')
        if (skiprows or 0) != f.meta:
            raise Unsupported('file is read with other skiprows')
        if (header is None) == bool(f.header) and names is None:
            raise Unsupported('file is read with another header setting')
        cols = f.columns if f.header else list(range(len(f.columns)))
        if names is not None:
            cols = list(names)
        df = DataFrame({c: _pd.Series([r[j] for r in f.rows], dtype=object) for j, c in enumerate(cols)},
                       columns=cols, dtype=object)
        if usecols is not None:
            df = df[list(usecols)]
        if index_col is not None:
            df = df.set_index(df.columns[index_col] if isinstance(index_col, int) else index_col)
        if dtype is not None:
            df = df.astype(dtype)
        return df

    m.read_csv = m.read_table = read_csv
    m.DataFrame, m.Series = DataFrame, Series
    for n in ('isna', 'isnull', 'notna', 'notnull', 'concat', 'merge', 'Index', 'unique', 'MultiIndex', 'RangeIndex', 'NA', 'NaT'):
        setattr(m, n, getattr(_pd, n))
    m.api = _pd.api
    m.errors = _pd.errors
    m.__version__ = _pd.__version__

    def __getattr__(n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('pandas.%s' % n)
    m.__getattr__ = __getattr__
    return m
