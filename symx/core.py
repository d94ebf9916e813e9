"""Symbolic values, path engine and solver interface.

Sym      numeric symbolic value: a rational function in normal form (sparse
         polynomial numerator, factored denominator) over atoms.  Atoms are
         input symbols, indicator values of symbolic conditions, and opaque
         results of library functions (sqrt, exp, pow, round, floor ...),
         each with axioms that are asserted on demand.
SymBool  symbolic truth value (Z3 Bool); bool() forks the path.
Engine   depth-first path exploration by re-execution, Z3 decides feasibility
         of branches and the checks.
"""
import sys, time, numbers
from fractions import Fraction

Z3SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
try:
    import z3
except ImportError:
    sys.path.append(Z3SITE)
    import z3
    sys.path.remove(Z3SITE)

# ----------------------------------------------------------------- signals


class Signal(BaseException):
    """Engine control flow; never caught by code under test."""


class PathAbort(Signal):
    """The current path is infeasible or deliberately cut."""


class Unsupported(Signal):
    """The symbolic library does not model this operation."""


class Budget(Signal):
    """Time or path budget of the case is used up."""


ENG = None      # current engine


def eng():
    return ENG


# ------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ("id", "term", "kind", "axioms", "name", "deps", "cond", "fn", "key_inv")

    def __init__(s, id, term, kind, axioms=(), name='', deps=(), cond=None):
        s.fn = None
        s.key_inv = None
        s.id, s.term, s.kind, s.axioms, s.name, s.deps, s.cond = (
            id, term, kind, axioms, name, deps, cond)


ATOMS = []
ATOMKEY = {}
ISIND = []      # atom id -> bool
ATOMTERM = {}   # z3 term id -> atom id
NLIB = [0]      # number of atoms with axioms
_LIBNAMES = {}  # z3 term id -> (term, names of library atoms in it)


def new_atom(key, term, kind, axioms=(), name='', deps=(), cond=None):
    if key is not None and key in ATOMKEY:
        return ATOMKEY[key]
    a = Atom(len(ATOMS), term, kind, axioms, name, deps, cond)
    if axioms:
        NLIB[0] += 1
    if term is not None:
        ATOMTERM[term.get_id()] = a.id
    ATOMS.append(a)
    ISIND.append(kind == 'ind')
    if key is not None:
        ATOMKEY[key] = a
    return a


def reset_atoms():
    ATOMS.clear(); ATOMKEY.clear(); ISIND.clear(); _mono_cache.clear(); _KEEP.clear()
    SQRT.clear(); BOUND.clear()
    _CONDS.clear(); _ANDOR.clear(); _LIBNAMES.clear(); _TINFO.clear()
    NLIB[0] = 0
    ATOMTERM.clear()


BOUND = {}      # atom id -> largest magnitude


def bound(x):
    """interval bound of |x| over the declared ranges of the inputs, or None"""
    if x.d:
        return None
    t = 0.0
    for m, c in x.n.items():
        v = abs(float(c))
        for a in m:
            if ISIND[a]:
                continue
            b = BOUND.get(a)
            if b is None:
                return None
            v *= b
        t += v
    return t


def sq_reduce(x):
    """replace squares of square-root atoms by their radicand"""
    for _ in range(20):
        hit = None
        for m in x.n:
            for a, b in zip(m, m[1:]):
                if a == b and a in SQRT:
                    hit = a
                    break
            if hit is not None:
                break
        if hit is None:
            return x
        rest, quo = {}, {}
        for m, c in x.n.items():
            if m.count(hit) >= 2:
                l = list(m)
                l.remove(hit)
                l.remove(hit)
                quo[tuple(l)] = c
            else:
                rest[m] = c
        den = Sym({(): 1}, x.d, 'f')
        x = (Sym(quo, (), 'f') * SQRT[hit] + Sym(rest, (), 'f')) * den
    return x


def square_of_ratio(g):
    """g = c * sqrt(a)*sqrt(b).. / (sqrt(x)*..) with c > 0: the square without roots, or None"""
    if len(g.n) != 1:
        return None
    (m, c), = g.n.items()
    if c <= 0 or any(a not in SQRT for a in m):
        return None
    r = num(c) * num(c)
    for a in m:
        r = r * SQRT[a]
    for f in g.d:
        if len(f) != 1 or len(f[0][0]) != 1 or f[0][0][0] not in SQRT or f[0][1] <= 0:
            return None
        r = r / (num(f[0][1]) * num(f[0][1]) * SQRT[f[0][0][0]])
    return r


_KEEP = []
_mono_cache = {}


# ------------------------------------------------------------- polynomials
def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    r = sorted(m1 + m2)
    # indicator atoms are idempotent
    out = []
    last = -1
    for a in r:
        if a == last and ISIND[a]:
            continue
        out.append(a)
        last = a
    return tuple(out)


def norm_c(c):
    if c.__class__ is Fraction and c.denominator == 1:
        return c.numerator
    return c


def p_add(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v == 0:
                del r[m]
            else:
                r[m] = norm_c(v)
    return r


def p_scale(p, c):
    if c == 0:
        return {}
    if c == 1:
        return p
    return {m: norm_c(v * c) for m, v in p.items()}


def p_neg(p):
    return {m: -v for m, v in p.items()}


def p_mul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return p_scale(q, c)
    if len(q) == 1:
        (m, c), = q.items()
        if not m:
            return p_scale(p, c)
    if len(p) * len(q) > 400000:
        raise Unsupported('polynomial blow-up')
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mono_mul(m1, m2)
            c = c1 * c2
            v = r.get(m)
            if v is None:
                if c != 0:
                    r[m] = norm_c(c)
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = norm_c(v)
    return r


def p_const(p):
    """constant value or None"""
    if not p:
        return 0
    if len(p) == 1:
        c = p.get(())
        return c
    return None


def p_key(p):
    return tuple(sorted(p.items()))


def to_num(x):
    """Python/numpy number -> exact int/Fraction (floats by their decimal text)."""
    c = x.__class__
    if c is int or c is Fraction:
        return x
    if c is bool:
        return int(x)
    if isinstance(x, numbers.Integral):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return norm_c(Fraction(repr(float(x))))
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return to_num(x.item())
    if isinstance(x, numbers.Rational):
        return norm_c(Fraction(x.numerator, x.denominator))
    if isinstance(x, numbers.Real):
        return to_num(float(x))
    raise TypeError('not a number: %r' % (x,))


def z3num(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    if isinstance(c, Fraction):
        return z3.Q(c.numerator, c.denominator)
    f = Fraction(c)          # float, exact binary value
    # 12 significant digits are enough: such values come from numerical kernels
    return z3.Q(f.numerator, f.denominator)


def mono_term(m, real):
    """z3 product of the non-indicator atoms, and tuple of indicator ids"""
    k = (m, real)
    r = _mono_cache.get(k)
    if r is None:
        t = None
        inds = []
        for a in m:
            if ISIND[a]:
                inds.append(a)
                continue
            at = ATOMS[a]
            x = at.term
            if real and at.kind == 'i':
                x = z3.ToReal(x)
            t = x if t is None else t * x
        r = (t, tuple(inds))
        _mono_cache[k] = r
    return r


def p_isint(p):
    for m, c in p.items():
        if not isinstance(c, int):
            return False
        for a in m:
            if ATOMS[a].kind == 'f':
                return False
    return True


def p_atoms(p):
    s = set()
    for m in p:
        s.update(m)
    return s


def p_z3(p, real=True):
    """z3 term of polynomial"""
    if not p:
        return z3.RealVal(0) if real else z3.IntVal(0)
    groups = {}
    for m, c in p.items():
        t, inds = mono_term(m, real)
        cz = z3num(c) if real else z3.IntVal(c)
        term = cz if t is None else (t if c == 1 else cz * t)
        groups.setdefault(inds, []).append(term)
    zero = z3.RealVal(0) if real else z3.IntVal(0)
    parts = []
    for inds, ts in groups.items():
        s = ts[0] if len(ts) == 1 else z3.Sum(ts)
        if inds:
            conds = [ATOMS[i].cond for i in inds]
            s = z3.If(conds[0] if len(conds) == 1 else z3.And(*conds), s, zero)
        parts.append(s)
    return parts[0] if len(parts) == 1 else z3.Sum(parts)


# ---------------------------------------------------------------------- Sym
class Sym:
    __slots__ = ('n', 'd', 'k')
    __array_priority__ = 1000
    __array_ufunc__ = None      # numpy scalars defer to our reflected operators

    def __init__(s, n, d=(), k='f'):
        s.n, s.d, s.k = n, d, k

    # -- helpers
    def const(s):
        """constant value or None"""
        if s.d:
            return None
        n = s.n
        if not n:
            return 0
        if len(n) == 1:
            return n.get(())
        return None

    def isconst(s):
        return s.const() is not None

    def atoms(s):
        r = p_atoms(s.n)
        for f in s.d:
            for m, _ in f:
                r.update(m)
        return r

    def key(s):
        return (p_key(s.n), s.d)

    def rkey(s):
        """key in which coefficients equal up to rounding errors are the same"""
        def q(items):
            return tuple(sorted((m, float('%.11g' % c)) for m, c in items if abs(c) > 1e-13))
        return (q(s.n.items()), tuple(sorted(q(f) for f in s.d)))

    def z3(s, real=True):
        t = p_z3(s.n, real)
        for f in s.d:
            t = t / p_z3(dict(f), True)
        return t

    def simp(s):
        """substitute atoms that the current path fixed"""
        e = ENG
        if e is None or not e.conc:
            return s
        conc = e.conc
        if not any(a in conc for m in s.n for a in m) and not any(
                a in conc for f in s.d for m, _ in f for a in m):
            return s
        r = Sym(p_subst(s.n, conc), (), s.k)
        for f in s.d:
            r = r / Sym(p_subst(dict(f), conc))
        r.k = s.k
        return r

    # -- arithmetic
    def __add__(a, b):
        if b.__class__ is not Sym:
            b = lift(b)
            if b is NotImplemented:
                return b
        k = 'i' if a.k == 'i' and b.k == 'i' else 'f'
        if a.d == b.d:
            n = p_add(a.n, b.n)
            return mk(n, a.d, k)
        # least common multiple of the factor multisets
        da, db = list(a.d), list(b.d)
        missing_a = list(db)
        missing_b = []
        for f in da:
            if f in missing_a:
                missing_a.remove(f)
            else:
                missing_b.append(f)
        na, nb = a.n, b.n
        for f in missing_a:
            na = p_mul(na, dict(f))
        for f in missing_b:
            nb = p_mul(nb, dict(f))
        return mk(p_add(na, nb), tuple(sorted(da + missing_a)), k)

    __radd__ = __add__

    def __neg__(a):
        return Sym(p_neg(a.n), a.d, a.k)

    def __pos__(a):
        return a

    def __sub__(a, b):
        if b.__class__ is not Sym:
            b = lift(b)
            if b is NotImplemented:
                return b
        return a + Sym(p_neg(b.n), b.d, b.k)

    def __rsub__(a, b):
        b = lift(b)
        if b is NotImplemented:
            return b
        return b - a

    def __mul__(a, b):
        if b.__class__ is not Sym:
            b = lift(b)
            if b is NotImplemented:
                return b
        if not a.n:
            return Sym({}, (), 'i' if a.k == 'i' and b.k == 'i' else 'f')
        k = 'i' if a.k == 'i' and b.k == 'i' else 'f'
        n = p_mul(a.n, b.n)
        if not a.d and not b.d:
            return Sym(n, (), k)
        return mk(n, tuple(sorted(a.d + b.d)), k)

    __rmul__ = __mul__

    def __truediv__(a, b):
        if b.__class__ is not Sym:
            b = lift(b)
            if b is NotImplemented:
                return b
        c = b.const()
        if c is not None:
            if c == 0:
                return ENG.division_by_zero(a)
            if isinstance(c, float):
                inv = 1.0 / c
            else:
                inv = norm_c(Fraction(1) / c)
            return Sym(p_scale(a.n, inv), a.d, 'f')
        b = b.simp()
        if b.isconst():
            return a / b
        ENG.need_nonzero(b)
        if not a.n:
            return Sym({}, (), 'f')
        # a * (prod b.d) / b.n
        n = a.n
        d = list(a.d)
        for f in b.d:
            if f in d:
                d.remove(f)
            else:
                n = p_mul(n, dict(f))
        fac, lead = monic(b.n)
        n = p_scale(n, norm_c(Fraction(1) / lead) if not isinstance(lead, float) else 1.0 / lead)
        if len(fac) == 1 and len(fac[0][0]) > 1:
            d += [(((at,), 1),) for at in fac[0][0]]
        else:
            d.append(fac)
        return mk(n, tuple(sorted(d)), 'f')

    def __rtruediv__(a, b):
        b = lift(b)
        if b is NotImplemented:
            return b
        return b / a

    def __floordiv__(a, b):
        return floor(a / b)

    def __rfloordiv__(a, b):
        return floor(lift(b) / a)

    def __mod__(a, b):
        b = lift(b)
        q = floor(a / b)
        r = a - q * b
        if a.k == 'i' and b.k == 'i':
            r.k = 'i'
        return r

    def __rmod__(a, b):
        return lift(b) % a

    def __divmod__(a, b):
        return a // b, a % b

    def __pow__(a, b, mod=None):
        return power(a, b)

    def __rpow__(a, b):
        return power(lift(b), a)

    def __abs__(a):
        c = a.const()
        if c is not None:
            return Sym({(): abs(c)} if c != 0 else {}, (), a.k)
        neg = a < 0
        return ite(neg, -a, a)

    # -- comparisons
    def _cmp(a, b, op):
        if b.__class__ is not Sym:
            b = lift(b)
            if b is NotImplemented:
                return b
        d = a - b
        return cmp0(d, op)

    def __eq__(a, b):
        if a is b:
            return True
        return a._cmp(b, '==')

    def __ne__(a, b):
        if a is b:
            return False
        r = a._cmp(b, '==')
        if r is NotImplemented:
            return r
        return s_not(r)

    def __lt__(a, b):
        return a._cmp(b, '<')

    def __le__(a, b):
        return a._cmp(b, '<=')

    def __gt__(a, b):
        return a._cmp(b, '>')

    def __ge__(a, b):
        return a._cmp(b, '>=')

    def __bool__(a):
        r = a != 0
        return bool(r)

    def __hash__(a):
        c = a.const()
        if c is None:
            c = a.simp().const()
        if c is None:
            if a.k == 'i':
                c = ENG.concretise(a)
            else:
                raise Unsupported('hash of a symbolic real')
        return hash(c)

    def __index__(a):
        c = a.const()
        if c is None:
            c = a.simp().const()
        if c is None:
            if a.k != 'i' and not ENG.surely_int(a):
                raise TypeError('symbolic real cannot be interpreted as an index')
            c = ENG.concretise(a)
        if int(c) != c or (a.k != 'i' and not isinstance(c, int)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if a.k != 'i':
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(c)

    def __int__(a):
        c = a.const()
        if c is None:
            c = a.simp().const()
        if c is None:
            t = trunc(a)
            return ENG.concretise(t)
        return int(c)

    def __float__(a):
        c = a.const()
        if c is None:
            c = a.simp().const()
        if c is None:
            raise Unsupported('float() of a symbolic value')
        return float(c)

    def __complex__(a):
        return complex(float(a))

    def __trunc__(a):
        return trunc(a)

    def __floor__(a):
        return floor(a)

    def __ceil__(a):
        return -floor(-a)

    def __round__(a, nd=None):
        r = round_(a, nd or 0)
        if nd is None:
            r.k = 'i'
        return r

    # object-array ufunc hooks
    def sqrt(a):
        return sqrt(a)

    def exp(a):
        return exp(a)

    def log(a):
        return log(a)

    def conjugate(a):
        return a

    def rint(a):
        return round_(a, 0)

    def floor(a):
        return floor(a)

    def ceil(a):
        return -floor(-a)

    def astype(a, t, *args, **kw):
        from . import nps
        return nps.cast_scalar(a, t)

    def item(a):
        return a

    def tolist(a):
        return a

    def copy(a):
        return a

    def __copy__(a):
        return a

    def __deepcopy__(a, memo):
        return a

    def reshape(a, *shape, **kw):
        from . import nps
        return nps.asarr(a).reshape(*shape)

    def flatten(a):
        return a.reshape(1)

    ravel = flatten

    def squeeze(a, *x):
        return a

    @property
    def real(a):
        return a

    @property
    def imag(a):
        return Sym({}, (), a.k)

    @property
    def shape(a):
        return ()

    @property
    def ndim(a):
        return 0

    @property
    def size(a):
        return 1

    @property
    def T(a):
        return a

    @property
    def dtype(a):
        import numpy
        return numpy.dtype(int if a.k == 'i' else float)

    def is_integer(a):
        return a == floor(a)

    def __format__(a, spec):
        c = a.const()
        if c is not None:
            try:
                return format(float(c) if a.k == 'f' else int(c), spec)
            except Exception:
                return str(c)
        if ENG is None or ENG.quiet:
            return '<sym>'
        if a.k == 'i':
            return format(a.__index__(), spec)
        # a mark that printed() turns back into the value
        tk = ENG.memo.setdefault('printed', [])
        for j, b in enumerate(tk):
            if b.key() == a.key():
                return '\u27e6%d\u27e7' % j
        tk.append(a)
        return '\u27e6%d\u27e7' % (len(tk) - 1)

    def __repr__(a):
        c = a.const()
        if c is not None:
            return 'S(%s)' % (c,)
        return 'S<%s>' % p_str(a.n, a.d)

    def __str__(a):
        if ENG is not None and not ENG.quiet and a.k == 'i':
            return str(a.__index__())
        return repr(a)


numbers.Real.register(Sym)


def p_str(n, d=()):
    def ps(p):
        return ' + '.join('%s%s' % (c, ''.join('*' + (ATOMS[a].name or 'a%d' % a) for a in m))
                          for m, c in list(p.items())[:6]) + (' ...' if len(p) > 6 else '')
    s = ps(n)
    if d:
        s = '(%s)/%s' % (s, ''.join('(%s)' % ps(dict(f)) for f in d))
    return s


def p_subst(p, conc):
    r = {}
    for m, c in p.items():
        mm = []
        for a in m:
            v = conc.get(a)
            if v is None:
                mm.append(a)
            else:
                c = c * v
        mm = tuple(mm)
        v = r.get(mm, 0) + c
        if v == 0:
            r.pop(mm, None)
        else:
            r[mm] = norm_c(v)
    return r


def monic(p):
    lead_m = min(p)
    # choose the smallest monomial as the leading one (deterministic)
    lead = p[lead_m]
    if lead == 1:
        return tuple(sorted(p.items())), 1
    inv = (1.0 / lead) if isinstance(lead, float) else norm_c(Fraction(1) / lead)
    q = p_scale(p, inv)
    return tuple(sorted(q.items())), lead


def mk(n, d, k):
    """Sym with cancellation of denominator factors"""
    if not n:
        return Sym({}, (), k)
    if d:
        if len(n) >= 2:
            fac, lead = monic(n)
            if fac in d:
                d = list(d)
                d.remove(fac)
                return Sym({(): lead}, tuple(d), k)
        # polynomial division attempt by each distinct factor (exact only)
        for f in set(d):
            if len(n) >= len(f) and len(f) >= 2 and len(n) <= 2000:
                q = p_divexact(n, dict(f))
                if q is not None:
                    dd = list(d)
                    dd.remove(f)
                    return mk(q, tuple(dd), k)
            elif len(f) == 1:
                m = f[0][0]
                q = p_divmono(n, m)
                if q is not None:
                    dd = list(d)
                    dd.remove(f)
                    return mk(q, tuple(dd), k)
    return Sym(n, d, k)


def p_divmono(n, m):
    r = {}
    for mm, c in n.items():
        l = list(mm)
        for a in m:
            if a in l:
                l.remove(a)
            else:
                return None
        r[tuple(l)] = c
    return r


def _order(m):
    return (len(m), m)


def p_divexact(n, f):
    """n / f if exact (graded order), else None; only for indicator-free polys"""
    for p in (n, f):
        for m, c in p.items():
            if isinstance(c, float):
                return None
            for a in m:
                if ISIND[a]:
                    return None
    fl = max(f, key=_order)
    fc = f[fl]
    r = dict(n)
    q = {}
    steps = 0
    while r:
        rl = max(r, key=_order)
        t = p_divmono({rl: r[rl]}, fl)
        if t is None:
            return None
        (tm, tc), = t.items()
        tc = norm_c(Fraction(tc) / fc)
        q[tm] = tc
        r = p_add(r, p_neg(p_mul({tm: tc}, f)))
        steps += 1
        if steps > 500:
            return None
    return q


def lift(x):
    c = x.__class__
    if c is Sym:
        return x
    if c is int:
        return Sym({(): x} if x else {}, (), 'i')
    if c is float:
        v = to_num(x)
        return Sym({(): v} if v != 0 else {}, (), 'f')
    if c is SymBool:
        return x.num()
    if c is bool:
        return Sym({(): 1} if x else {}, (), 'i')
    if c is Fraction:
        return Sym({(): norm_c(x)} if x else {}, (), 'f')
    import numpy
    if isinstance(x, numpy.ndarray):
        return NotImplemented
    if isinstance(x, (numpy.bool_,)):
        return lift(bool(x))
    if isinstance(x, numbers.Number) and not isinstance(x, complex):
        k = 'i' if isinstance(x, numbers.Integral) else 'f'
        v = to_num(x)
        return Sym({(): v} if v != 0 else {}, (), k)
    return NotImplemented


def num(x, k=None):
    r = lift(x)
    if r is NotImplemented:
        raise Unsupported('not a number: %r' % type(x))
    return r


def approx(x):
    """constant from a numerical kernel: keeps float coefficients"""
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float')
    if x == 0:
        return Sym({}, (), 'f')
    return Sym({(): x}, (), 'f')


def cmp0(d, op):
    """comparison of d with zero -> bool or SymBool"""
    c = d.const()
    if c is None:
        d = d.simp()
        c = d.const()
    if c is not None:
        return {'==': c == 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[op]
    n = d.n
    real = not p_isint(n)
    if op == '==':
        if not real and len(n) <= 2 and not d.d:
            # single atom against a constant
            nonc = [m for m in n if m]
            if len(nonc) == 1 and len(nonc[0]) == 1:
                a = nonc[0][0]
                coef = n[nonc[0]]
                c0 = n.get((), 0)
                if ISIND[a]:
                    v = Fraction(-c0, 1) / coef
                    if v == 1:
                        return SymBool(ATOMS[a].cond)
                    if v == 0:
                        return SymBool(z3.Not(ATOMS[a].cond))
                    return False
                if c0 % coef != 0:
                    return False
        return SymBool(mkcond(n, '==', real), atoms=p_atoms(n))
    t = n
    for f in d.d:
        t = p_mul(t, dict(f))
        real = True
    return SymBool(mkcond(t, op, real), atoms=p_atoms(t))


_CONDS = {}


def mkcond(n, op, real):
    key = (frozenset(n.items()), op, real)
    c = _CONDS.get(key)
    if c is None:
        c = _CONDS[key] = _mkcond(n, op, real)
    return c


_ANDOR = {}


def z3_andor(op, ts):
    if len(ts) == 1:
        return ts[0]
    key = (op, tuple(t.get_id() for t in ts))
    r = _ANDOR.get(key)
    if r is None:
        r = z3.And(*ts) if op else z3.Or(*ts)
        _ANDOR[key] = r
        _KEEP.extend(ts)
    return r


def _mkcond(n, op, real):
    # normalise sign/scale so that syntactically equal conditions coincide
    if op in ('>', '>='):
        n = p_neg(n)
        op = {'>': '<', '>=': '<='}[op]
    c0 = n.get((), 0)
    body = {m: c for m, c in n.items() if m}
    lead_m = min(body)
    lead = body[lead_m]
    sc = abs(lead)
    if sc != 1 and real and not isinstance(sc, float):
        inv = norm_c(Fraction(1) / sc)
        body = p_scale(body, inv)
        c0 = c0 * inv
    neg = body[lead_m] < 0
    if neg:
        body = p_neg(body)
        rhs = norm_c(c0)
    else:
        rhs = norm_c(-c0)
    lhs = p_z3(body, real)
    if real:
        r = z3num(rhs)
    else:
        r = z3.IntVal(rhs)
    if op == '==':
        c = lhs == r
    elif op == '<':
        c = z3.Not(lhs <= r) if neg else z3.Not(lhs >= r)
    else:
        c = (lhs >= r) if neg else (lhs <= r)
    return c


# ------------------------------------------------------------------ SymBool
class SymBool:
    __slots__ = ('t', 'at')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(s, t, atoms=None):
        s.t = t
        s.at = atoms

    def __bool__(s):
        return ENG.branch(s.t)

    def num(s):
        if ENG is not None:
            k = ENG.known(s.t)
            if k is not None:
                return Sym({(): 1} if k else {}, (), 'i')
        return ind(s.t)

    def __and__(a, b):
        b = as_bool(b)
        if b is True:
            return a
        if b is False:
            return False
        return SymBool(z3_andor(True, [a.t, b.t]))

    __rand__ = __and__

    def __or__(a, b):
        b = as_bool(b)
        if b is True:
            return True
        if b is False:
            return a
        return SymBool(z3_andor(False, [a.t, b.t]))

    __ror__ = __or__

    def __xor__(a, b):
        b = as_bool(b)
        if b is True:
            return ~a
        if b is False:
            return a
        return SymBool(z3.Xor(a.t, b.t))

    __rxor__ = __xor__

    def __invert__(a):
        return SymBool(z3.Not(a.t))

    def logical_not(a):
        return ~a

    def __eq__(a, b):
        if isinstance(b, (SymBool, bool)):
            b = as_bool(b)
            if b is True:
                return a
            if b is False:
                return ~a
            return SymBool(a.t == b.t)
        return a.num() == b

    def __ne__(a, b):
        return s_not(a == b)

    def __hash__(a):
        return hash(bool(a))

    def __index__(a):
        return int(bool(a))

    def __int__(a):
        return int(bool(a))

    def __float__(a):
        return float(bool(a))

    def __add__(a, b):
        return a.num() + b

    __radd__ = __add__

    def __sub__(a, b):
        return a.num() - b

    def __rsub__(a, b):
        return b - a.num()

    def __mul__(a, b):
        return a.num() * b

    __rmul__ = __mul__

    def __truediv__(a, b):
        return a.num() / b

    def __lt__(a, b):
        return a.num() < b

    def __le__(a, b):
        return a.num() <= b

    def __gt__(a, b):
        return a.num() > b

    def __ge__(a, b):
        return a.num() >= b

    def __repr__(a):
        return 'B<%s>' % str(a.t)[:80]

    def all(a):
        return a

    def any(a):
        return a

    def item(a):
        return a


def as_bool(b):
    if isinstance(b, SymBool):
        return b
    if isinstance(b, bool):
        return b
    if isinstance(b, Sym):
        r = b != 0
        return r
    return bool(b)


def s_not(b):
    if isinstance(b, SymBool):
        return ~b
    return not b


def s_and(*bs):
    ts = []
    for b in bs:
        b = as_bool(b)
        if b is False:
            return False
        if b is True:
            continue
        ts.append(b.t)
    if not ts:
        return True
    return SymBool(z3_andor(True, ts))


def s_or(*bs):
    ts = []
    for b in bs:
        b = as_bool(b)
        if b is True:
            return True
        if b is False:
            continue
        ts.append(b.t)
    if not ts:
        return False
    return SymBool(z3_andor(False, ts))


def bterm(b):
    b = as_bool(b)
    if b is True:
        return z3.BoolVal(True)
    if b is False:
        return z3.BoolVal(False)
    return b.t


def ind(t):
    """indicator value of a z3 condition, as Sym"""
    neg = False
    while z3.is_not(t):
        t = t.arg(0)
        neg = not neg
    if z3.is_true(t):
        v = 0 if neg else 1
        return Sym({(): 1} if v else {}, (), 'i')
    if z3.is_false(t):
        v = 1 if neg else 0
        return Sym({(): 1} if v else {}, (), 'i')
    key = ('ind', t.get_id())
    a = ATOMKEY.get(key)
    if a is None:
        _KEEP.append(t)
        a = new_atom(key, None, 'ind', name='[%d]' % t.get_id(), cond=t)
    if neg:
        return Sym({(): 1, (a.id,): -1}, (), 'i')
    return Sym({(a.id,): 1}, (), 'i')


def ite(c, a, b):
    if isinstance(c, SymBool):
        k = ENG.known(c.t)
        if k is not None:
            return a if k else b
    else:
        return a if c else b
    a2, b2 = lift(a), lift(b)
    if a2 is NotImplemented or b2 is NotImplemented:
        # non-numeric alternatives: decide
        return a if bool(c) else b
    if a2.d == b2.d and a2.n == b2.n:
        return a2
    i = ind(c.t)
    r = b2 + i * (a2 - b2)
    r.k = 'i' if a2.k == 'i' and b2.k == 'i' else 'f'
    return r


# ------------------------------------------------- library function atoms
def _fresh(prefix, kind, key, axf, name=None):
    """atom with key; axf(term) -> list of z3 axioms"""
    a = ATOMKEY.get(key)
    if a is None:
        nm = '%s!%d' % (prefix, len(ATOMS))
        t = z3.Int(nm) if kind == 'i' else z3.Real(nm)
        deps, axioms = axf(t)
        a = new_atom(key, t, kind, axioms=axioms, name=name or nm, deps=deps)
    return Sym({(a.id,): 1}, (), kind)


def sqrt(x):
    x = num(x)
    c = x.const()
    if c is not None:
        if c < 0:
            raise Unsupported('sqrt of a negative constant')
        if not isinstance(c, float):
            f = Fraction(c)
            import math
            rn, rd = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if rn * rn == f.numerator and rd * rd == f.denominator:
                return num(Fraction(rn, rd)) if rd != 1 else Sym({(): rn} if rn else {}, (), 'f')
        return approx(float(c) ** 0.5)
    xz = x.z3()

    def ax(t):
        return x.atoms(), [t >= 0, t * t == xz]
    r = _fresh('sqrt', 'f', ('sqrt', x.key()), ax)
    SQRT[next(iter(r.n))[0]] = x
    return r


SQRT = {}


def exp(x):
    x = num(x)
    c = x.const()
    if c is not None:
        import math
        if c == 0:
            return Sym({(): 1}, (), 'f')
        return approx(math.exp(min(700.0, float(c))))
    # exp(-y) = 1/exp(y): canonical sign
    lead = x.n[min(x.n)]
    if lead < 0:
        return 1 / exp(-x)
    xz = x.z3()

    def ax(t):
        return x.atoms(), [t > 0, (xz > 0) == (t > 1), (xz < 0) == (t < 1)]
    r = _fresh('exp', 'f', ('exp', x.rkey()), ax)
    aid = next(iter(r.n))[0]
    ENG.fn_apps.setdefault('exp', {})[aid] = x
    ENG.nonzero.add(p_key(r.n))
    return r


def log(x):
    x = num(x)
    c = x.const()
    if c is not None:
        import math
        return approx(math.log(float(c)))

    def ax(t):
        return x.atoms(), []
    return _fresh('log', 'f', ('log', x.key()), ax)


def power(a, b):
    a, b = num(a), num(b)
    cb = b.const()
    if cb is None:
        cb = b.simp().const()
    if cb is not None:
        if isinstance(cb, float) and cb == int(cb):
            cb = int(cb)
        if isinstance(cb, int):
            if cb >= 0:
                if cb > 64:
                    raise Unsupported('large power')
                r = Sym({(): 1}, (), 'i')
                base = a
                e = cb
                while e:
                    if e & 1:
                        r = r * base
                    e >>= 1
                    if e:
                        base = base * base
                r = Sym(r.n, r.d, 'i' if a.k == 'i' and b.k == 'i' else 'f')
                return r
            return 1 / power(a, -cb)
        if cb == Fraction(1, 2):
            return sqrt(a)
        if cb == Fraction(-1, 2):
            return 1 / sqrt(a)
        ca = a.const()
        if ca is not None:
            return approx(float(ca) ** float(cb))
    ca = a.const()
    # a**(-b) = 1/a**b
    if cb is None:
        lead = b.n[min(b.n)]
        if lead < 0:
            return 1 / power(a, -b)
    elif cb < 0:
        return 1 / power(a, -b)
    az, bz = a.z3(), b.z3()

    def ax(t):
        return a.atoms() | b.atoms(), [
            z3.Implies(az > 0, t > 0),
            z3.Implies(bz == 0, t == 1), z3.Implies(az == 1, t == 1)]
    r = _fresh('pow', 'f', ('pow', a.rkey(), b.rkey()), ax)
    if ca is not None and ca > 0:
        ENG.nonzero.add(p_key(r.n))
    return r


def round_(x, nd=0):
    x = num(x)
    if isinstance(nd, Sym):
        nd = nd.__index__()
    nd = int(nd)
    c = x.const()
    if c is not None:
        if isinstance(c, float):
            return approx(round(c, nd)) if nd or True else c
        r = round(Fraction(c), nd)
        r = norm_c(Fraction(r))
        return Sym({(): r} if r != 0 else {}, (), x.k)
    if x.k == 'i' and nd >= 0:
        return x
    xz = x.z3()
    sc = Fraction(10) ** nd
    half = z3.Q(1, 2)

    def ax(t):
        y = xz * z3num(norm_c(sc))
        return x.atoms(), [z3.ToReal(t) - y <= half, y - z3.ToReal(t) <= half]
    k = _fresh('rnd', 'i', ('round', x.key(), nd), ax)
    r = Sym(p_scale(k.n, norm_c(1 / sc)), (), 'f')
    return r


def floor(x):
    x = num(x)
    c = x.const()
    if c is not None:
        import math
        v = math.floor(c)
        return Sym({(): v} if v else {}, (), x.k)
    if x.k == 'i' and not x.d and p_isint(x.n):
        return x
    xz = x.z3()

    def ax(t):
        return x.atoms(), [z3.ToReal(t) <= xz, xz < z3.ToReal(t) + 1]
    r = _fresh('floor', 'i', ('floor', x.key()), ax)
    r.k = x.k
    return r


def trunc(x):
    x = num(x)
    if x.k == 'i':
        return x
    c = x.const()
    if c is not None:
        v = int(c)
        return Sym({(): v} if v else {}, (), 'i')
    if not x.d and p_isint(x.n):
        return Sym(x.n, (), 'i')
    f = floor(x)
    g = -floor(-x)
    r = ite(x >= 0, Sym(f.n, f.d, 'i'), Sym(g.n, g.d, 'i'))
    return Sym(r.n, r.d, 'i')


def s_max(a, b):
    c = a < b
    return ite(c, b, a) if isinstance(c, SymBool) else (b if c else a)


def s_min(a, b):
    c = b < a
    return ite(c, b, a) if isinstance(c, SymBool) else (b if c else a)


# ------------------------------------------------------------------- engine
class Path:
    pass


class Engine:
    """one symbolic case: explores all paths of body(env)"""

    def __init__(s, timeout=120.0, query_ms=8000, max_paths=100000):
        s.deadline = time.time() + timeout
        s.query_ms = query_ms
        s.max_paths = max_paths
        s.stats = dict(paths=0, completed=0, aborted=0, infeasible=0, branches=0, queries=0,
                       trivial=0, sat=0, unsat=0, unknown=0, solver_s=0.0, cuts={})
        s.poison = False
        s.quiet = False     # set while a failure is described
        s.path_reset([])

    # -- per path state
    def path_reset(s, prefix):
        s.prefix = prefix
        s.trace = []        # entries (kind, value, alternatives_left)
        s.pc = []
        s.solver = z3.Solver()
        s.solver.set('timeout', s.query_ms)
        s.solver.set('random_seed', 0)
        s.known_c = {}
        s.conc = {}
        s.activated = set()
        s.nonzero = set()
        s.fn_apps = {}
        s.divs = []
        s.keep = []
        s.fresh_n = {}
        s.memo = {}
        s.syms = {}

    def tick(s):
        if time.time() > s.deadline:
            raise Budget('time')

    # -- axioms of atoms
    def activate(s, term):
        """assert axioms of library atoms occurring in a z3 term"""
        if not NLIB[0] and not TERMATOM:
            return
        todo = [term]
        while todo:
            t = todo.pop()
            for nm in lib_names(t):
                if nm in s.activated:
                    continue
                s.activated.add(nm)
                a = TERMATOM.get(nm)
                if a is None:
                    i = int(nm.rsplit('!', 1)[1])
                    a = ATOMS[i] if i < len(ATOMS) else None
                if a is not None:
                    for axm in a.axioms:
                        s.solver.add(axm)
                        s.pc.append(axm)
                        todo.append(axm)

    def _check(s, *extra, ms=None):
        s.tick()
        for e in extra:
            s.activate(e)
        t0 = time.time()
        left = max(200, min(s.query_ms, ms or s.query_ms, int((s.deadline - t0) * 1000)))
        s.solver.set('timeout', left)
        r = s.solver.check(*extra)
        s.stats['solver_s'] += time.time() - t0
        s.stats['queries'] += 1
        if r == z3.unknown:
            # non-linear fallback: fresh solver (nlsat)
            t0 = time.time()
            f = z3.SolverFor('QF_NRA') if not s.has_int(extra) else z3.Solver()
            f.set('timeout', left)
            f.add(*s.pc)
            f.add(*extra)
            r = f.check()
            s.stats['solver_s'] += time.time() - t0
            s.stats['queries'] += 1
            s.last = f
        else:
            s.last = s.solver
        s.stats[str(r)] += 1
        return r

    def has_int(s, extra):
        return True if s._ints else False

    _ints = False

    def add(s, t):
        s.activate(t)
        s.pc.append(t)
        s.solver.add(t)

    def known(s, t):
        return s._known(t.get_id(), t)

    def _known(s, i, t):
        k = s.known_c.get(i)
        if k is not None:
            return k
        inf = _TINFO.get(i)
        if inf is None:
            inf = tinfo(t)
        d, ch = inf[1], inf[2]
        if d == 0:
            return None
        if d == 1:
            k = s._known(*ch[0])
            return None if k is None else not k
        if d == 4:
            return inf[3]
        dom = d == 3
        every = True
        for c in ch:
            k = s._known(*c)
            if k is dom:
                return dom
            if k is None:
                every = False
        if every:
            return not dom
        return None

    def learn(s, t, v):
        i = t.get_id()
        inf = tinfo(t)
        s.known_c[i] = v
        d, ch = inf[1], inf[2]
        if d == 1:
            s.learn(ch[0][1], not v)
        elif d == (2 if v else 3):
            for _, c in ch:
                s.learn(c, v)
        elif v and d == 0 and inf[3] is not None:
            s.conc[inf[3][0]] = inf[3][1]

    def branch(s, t):
        k = s.known(t)
        if k is not None:
            return k
        s.stats['branches'] += 1
        i = len(s.trace)
        if i < len(s.prefix):
            ent = s.prefix[i]
            if ent[0] != 'b':
                raise Unsupported('nondeterministic re-execution')
            v = ent[1]
            s.trace.append(ent)
            s.add(t if v else z3.Not(t))
            s.learn(t, v)
            return v
        rt = s._check(t)
        if rt == z3.unsat:
            v, alt = False, False
        else:
            rf = s._check(z3.Not(t))
            if rf == z3.unsat:
                v, alt = True, False
            else:
                v, alt = True, True
        s.trace.append(('b', v, alt))
        s.add(t if v else z3.Not(t))
        s.learn(t, v)
        return v

    def concretise(s, x):
        """fork over the values of symbolic integer x"""
        x = x.simp()
        c = x.const()
        if c is not None:
            return int(c)
        t = x.z3(real=not p_isint(x.n))
        tried = []
        while True:
            i = len(s.trace)
            if i < len(s.prefix):
                ent = s.prefix[i]
                if ent[0] != 'v':
                    raise Unsupported('nondeterministic re-execution')
                _, v, eq, alt = ent
                s.trace.append(ent)
            else:
                s.stats['branches'] += 1
                r = s._check()
                if r == z3.unsat:
                    raise PathAbort('infeasible')
                if r == z3.unknown:
                    raise Unsupported('cannot concretise')
                m = s.last.model()
                v = m.eval(t, model_completion=True)
                v = z3val(v)
                if v != int(v):
                    raise Unsupported('non-integral concretisation')
                v = int(v)
                ne = s._check(t != v)
                eq, alt = True, ne != z3.unsat
                s.trace.append(('v', v, eq, alt))
            if eq:
                s.add(t == v)
                for m, cc in x.n.items():
                    if m and len(m) == 1 and len(x.n) <= 2 and not x.d and not ISIND[m[0]]:
                        a = m[0]
                        s.conc[a] = norm_c(Fraction(v - x.n.get((), 0)) / cc)
                return v
            s.add(t != v)
            tried.append(v)
            if len(tried) > 400:
                raise Unsupported('too many values to concretise')

    def surely_int(s, x):
        return False

    def need_nonzero(s, b):
        key = p_key(b.n)
        if key in s.nonzero:
            return
        t = mkcond(b.n, '==', not p_isint(b.n)) if not b.isconst() else None
        k = s.known(t)
        if k is None:
            r = s._check(t, ms=600)
            if r == z3.unsat:
                s.add(z3.Not(t))
                s.learn(t, False)
                s.nonzero.add(key)
                return
            # zero divisor possible: outside the claim (cut), recorded
            s.stats['cuts']['zero divisor excluded'] = s.stats['cuts'].get('zero divisor excluded', 0) + 1
            if s.poison:
                if s.branch(t):
                    raise ZeroDivisionError('division by zero')
            else:
                if s._check(z3.Not(t), ms=600) == z3.unsat:
                    raise PathAbort('zero divisor')
                s.add(z3.Not(t))
                s.learn(t, False)
        elif k:
            if s.poison:
                raise ZeroDivisionError('division by zero')
            raise PathAbort('zero divisor')
        s.nonzero.add(key)

    def division_by_zero(s, a):
        raise ZeroDivisionError('division by zero')

    def fresh(s, prefix, kind='f', lo=None, hi=None):
        """fresh path-local symbol (deterministic naming)"""
        n = s.fresh_n.get(prefix, 0)
        s.fresh_n[prefix] = n + 1
        return s.symbol('%s#%d' % (prefix, n), kind, lo, hi)

    def symbol(s, name, kind='f', lo=None, hi=None):
        key = ('sym', name, kind)
        a = ATOMKEY.get(key)
        if a is None:
            t = z3.Int(name) if kind == 'i' else z3.Real(name)
            a = new_atom(key, t, kind, name=name)
        if kind == 'i':
            s._ints = True
        s.syms[name] = (a.term, kind)
        if lo is not None and hi is not None:
            BOUND[a.id] = max(abs(float(lo)), abs(float(hi)))
        if lo is not None:
            s.add(a.term >= (lo if kind == 'i' else z3num(to_num(lo))))
        if hi is not None:
            s.add(a.term <= (hi if kind == 'i' else z3num(to_num(hi))))
        return Sym({(a.id,): 1}, (), kind)

    def assume(s, c):
        c = as_bool(c)
        if c is True:
            return
        if c is False:
            raise PathAbort('assume')
        k = s.known(c.t)
        if k is True:
            return
        if k is False:
            raise PathAbort('assume')
        s.add(c.t)
        s.learn(c.t, True)
        if len(s.trace) >= len(s.prefix):
            if s._check() == z3.unsat:
                raise PathAbort('assume')

    def next_prefix(s, trace):
        """last decision with an unexplored alternative"""
        i = len(trace) - 1
        while i >= 0:
            e = trace[i]
            if e[0] == 'b' and e[2]:
                return list(trace[:i]) + [('b', not e[1], False)]
            if e[0] == 'v' and e[3]:
                return list(trace[:i]) + [('v', e[1], False, False)]
            i -= 1
        return None


TERMATOM = {}
_TINFO = {}


def tinfo(t):
    """(term, 0 atom / 1 not / 2 and / 3 or / 4 constant, [(id, child)], extra); terms are kept alive"""
    i = t.get_id()
    r = _TINFO.get(i)
    if r is None:
        d = t.decl().kind()
        if d == z3.Z3_OP_NOT:
            c = t.arg(0)
            r = (t, 1, [(c.get_id(), c)], None)
        elif d == z3.Z3_OP_AND or d == z3.Z3_OP_OR:
            r = (t, 2 if d == z3.Z3_OP_AND else 3, [(c.get_id(), c) for c in t.children()], None)
        elif d == z3.Z3_OP_TRUE or d == z3.Z3_OP_FALSE:
            r = (t, 4, (), d == z3.Z3_OP_TRUE)
        else:
            x = None
            if d == z3.Z3_OP_EQ:
                a = ATOMTERM.get(t.arg(0).get_id())
                if a is not None and z3.is_int_value(t.arg(1)):
                    x = (a, t.arg(1).as_long())
            r = (t, 0, (), x)
        _TINFO[i] = r
    return r



def lib_names(term):
    """names of the library atoms in a z3 term (memoised over the shared sub-terms)"""
    c = _LIBNAMES.get(term.get_id())
    if c is not None:
        return c[1]
    stack = [term]
    while stack:
        t = stack[-1]
        i = t.get_id()
        if i in _LIBNAMES:
            stack.pop()
            continue
        ch = t.children()
        if not ch:
            r = ()
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if '!' in nm:
                    r = (nm,)
            _LIBNAMES[i] = (t, r)
            stack.pop()
            continue
        new = [x for x in ch if x.get_id() not in _LIBNAMES]
        if new:
            stack.extend(new)
            continue
        names = set()
        for x in ch:
            names.update(_LIBNAMES[x.get_id()][1])
        _LIBNAMES[i] = (t, tuple(sorted(names)))
        stack.pop()
    return _LIBNAMES[term.get_id()][1]



def z3val(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return norm_c(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return norm_c(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise Unsupported('model value %s' % v)


def eval_sym(x, model):
    """value of Sym/SymBool under a z3 model"""
    if isinstance(x, SymBool):
        return z3val(model.eval(x.t, model_completion=True))
    if isinstance(x, Sym):
        c = x.const()
        if c is not None:
            return c
        n = z3val(model.eval(p_z3(x.n), model_completion=True))
        for f in x.d:
            dv = z3val(model.eval(p_z3(dict(f)), model_completion=True))
            n = Fraction(n) / Fraction(dv)
        return n
    return x
