"""Harness environments.  A harness is written once against this interface and runs

SymEnv   over symbolic inputs: every check is a solver query over all values of the current path
RealEnv  over concrete values on the real code (replay of counterexamples, validation of paths)
"""
import contextlib, io, math, os, random as _random, re, sys
from fractions import Fraction
import numpy as _np
from . import core, nps, pds
from .core import Sym, SymBool, Unsupported, PathAbort, num
from .nps import SArr

z3 = core.z3
DEBUGREL = bool(os.environ.get('VP_RELERR'))


class Skip(BaseException):
    """assumption of the harness is not met by these concrete values"""


class Refused(Exception):
    pass


class Ragged(Exception):
    pass


# ------------------------------------------------------------ normalisation
def norm_arr(x):
    """array-like -> (shape, flat list)"""
    if hasattr(x, 'toarray'):
        x = x.toarray()
    elif hasattr(x, 'detach') and not isinstance(x, SArr):
        x = x.detach().cpu().numpy()
    elif isinstance(x, SArr):
        pass
    elif hasattr(x, 'to_numpy'):
        x = x.to_numpy()
    if isinstance(x, _np.ndarray):
        raw = x.raw if isinstance(x, SArr) else _np.asarray(x)
        if raw.dtype == object:
            return tuple(raw.shape), list(raw.ravel())
        return tuple(raw.shape), raw.ravel().tolist()
    if isinstance(x, (list, tuple)):
        parts = [norm_arr(v) for v in x]
        if not parts:
            return (0,), []
        if any(p[0] != parts[0][0] for p in parts):
            raise Ragged([p[0] for p in parts])
        l = []
        for p in parts:
            l += p[1]
        return (len(parts),) + parts[0][0], l
    if isinstance(x, _np.generic):
        return (), [x.item()]
    return (), [x]


def pyval(x):
    """nested python structure of scalars for structural comparison"""
    if isinstance(x, (Sym, SymBool, str, bytes)) or x is None:
        return x
    if hasattr(x, 'toarray') or isinstance(x, _np.ndarray) or hasattr(x, 'detach') or (
            hasattr(x, 'to_numpy') and not isinstance(x, dict)):
        sh, l = norm_arr(x)

        def build(sh, l):
            if not sh:
                return l[0]
            if sh[0] == 0:
                return []
            k = len(l) // sh[0]
            return [build(sh[1:], l[i * k:(i + 1) * k]) for i in range(sh[0])]
        return build(sh, l)
    if isinstance(x, _np.generic):
        return x.item()
    if isinstance(x, dict):
        return {pyval(k): pyval(v) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(pyval(v) for v in x)
    if isinstance(x, list):
        return [pyval(v) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted((pyval(v) for v in x), key=repr)
    return x


class Env:
    """shared part"""
    real_mode = False
    tol = 1e-6

    def __init__(s, world, case, tier='quick'):
        s.w, s.case, s.tier = world, case, tier
        s.scale = (case or {}).get('_scale', 1)     # order of magnitude of the flows and of the tolerance
        s.ints = (case or {}).get('_ints', False)   # flows are arrays of integers
        s._files = 0

    # ---- modules
    def load(s, name):
        return s.w.load(name)

    def cls(s, name):
        mod, _, a = name.rpartition('.')
        return getattr(s.w.load(mod), a)

    # ---- structural truth
    def same(s, a, b):
        """truth value of structural equality (exact)"""
        a, b = pyval(a), pyval(b)
        out = []
        if not s._same(a, b, out):
            return False
        return core.s_and(*out) if out else True

    def _same(s, a, b, out):
        if isinstance(a, (list, tuple)):
            if not isinstance(b, (list, tuple)) or len(a) != len(b):
                return False
            return all(s._same(x, y, out) for x, y in zip(a, b))
        if isinstance(b, (list, tuple)):
            return False
        if isinstance(a, dict):
            if not isinstance(b, dict) or len(a) != len(b):
                return False
            for k in b:
                if k not in a or not s._same(a[k], b[k], out):
                    return False
            return True
        if isinstance(b, dict):
            return False
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return type(a) == type(b) and a == b if not (a is None or b is None) else a is b
        r = a == b
        if isinstance(r, SymBool):
            out.append(r)
            return True
        return bool(r)

    def eq(s, label, got, want):
        try:
            c = s.same(got, want)
        except (Ragged, TypeError, ValueError) as e:
            c = False
        s.check(label, c, lambda: 'got %s want %s' % (short(got), short(want)))

    def raises(s, label, exc, f, /, *a, **k):
        """f must raise exc"""
        try:
            r = f(*a, **k)
        except exc:
            s.check(label, True)
            return True
        except Exception as e:
            s.check(label, False, lambda: 'raised %s: %s instead of %s' % (type(e).__name__, e, exc.__name__))
            return False
        s.check(label, False, lambda: 'did not raise %s but returned %s' % (exc.__name__, short(r)))
        return False

    def runs(s, label, f, /, *a, **k):
        """f must not raise; returns (ok, result)"""
        try:
            r = f(*a, **k)
        except Exception as e:
            s.check(label, False, lambda: 'raised %s: %s' % (type(e).__name__, e))
            return False, None
        s.check(label, True)
        return True, r

    def check_len(s, label, l, n):
        s.check(label, len(l) == n, lambda: '%d instead of %d' % (len(l), n))
        return len(l) == n

    def noise(s, k):
        """the k-th standard normal sample drawn from numpy's generator"""
        return s.real('randn#%d' % k, -5, 5)

    def corr(s, x, y):
        n = len(x)
        a, b = sum(x) / n, sum(y) / n
        x, y = [v - a for v in x], [v - b for v in y]
        return sum(u * v for u, v in zip(x, y)) / s.sqrt(sum(u * u for u in x)) / s.sqrt(sum(v * v for v in y))

    # ---- conversions
    def mat(s, x):
        sh, l = norm_arr(x)
        if len(sh) != 2:
            raise Ragged('not a matrix: %s' % (sh,))
        return [l[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]

    def vec(s, x):
        sh, l = norm_arr(x)
        return l

    def shape(s, x):
        return norm_arr(x)[0]

    def reals(s, name, n, lo=-8, hi=8):
        return [s.real('%s%d' % (name, i), lo, hi) for i in range(n)]

    def flow(s, name, n, lo=-8, hi=8):
        if s.ints:
            return s.np.array([s.int('%s%d' % (name, i), math.ceil(lo), math.floor(hi)) for i in range(n)], dtype=int)
        return s.np.array([x * s.scale for x in s.reals(name, n, lo, hi)] if s.scale != 1 else s.reals(name, n, lo, hi))

    def pick(s, name, options):
        """one of the options, chosen by a symbolic index (forks)"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = s.int(name, 0, len(options) - 1)
        return options[s.fork(i)]

    def close(s, label, got, want, tol=None):
        """entrywise equal up to numerical accuracy"""
        try:
            gs, g = norm_arr(got)
            ws, w = norm_arr(want)
        except Ragged as e:
            s.check(label, False, lambda: 'ragged result %s' % e)
            return
        if gs != ws:
            s.check(label, False, lambda: 'shape %s instead of %s' % (gs, ws))
            return
        for x, y in zip(g, w):
            if (x is None) != (y is None) or isinstance(x, str) != isinstance(y, str):
                s.check(label, False, lambda: 'got %r want %r' % (x, y))
                return
        pairs = [(x, y) for x, y in zip(g, w) if x is not None]
        if not pairs:
            s.check(label, True)
            return
        s._close(label, pairs, (tol or s.tol) * s.scale)


def short(x, n=300):
    try:
        r = repr(pyval(x))
    except BaseException as e:
        r = '<%s>' % type(x).__name__
    return r if len(r) <= n else r[:n] + '...'


# ------------------------------------------------------------------ symbolic
class SymEnv(Env):
    def __init__(s, world, case, tier, rec):
        super().__init__(world, case, tier)
        if s.scale != 1:
            s.scale = Fraction(s.scale)
        s.rec = rec             # Recorder of the case
        s.np = world.table['numpy']
        s.sp = world.table['scipy.sparse']
        s.e = core.ENG
        s.e.spectra = []
        s.cheb_log = world.cheb_log

    @property
    def torch(s):
        return s.w.table['torch']

    @property
    def gpytorch(s):
        return s.w.table['gpytorch']

    def toy(s, theta):
        """(model, likelihood): predictions theta * x, log-likelihood minus half the sum of squares"""
        from . import tos
        s.gpytorch.mlls.ExactMarginalLogLikelihood = tos.toy_mll
        return tos.Toy(theta), s.gpytorch.likelihoods.GaussianLikelihood()

    @property
    def cp_log(s):
        return s.e.cp_log

    def drawn(s):
        """number of values taken from numpy's random generator"""
        return sum(s.e.fresh_n.get(k, 0) for k in ('randn', 'rand', 'choice', 'perm', 'randint'))

    def spectral(s, Q, w):
        """symmetric matrix with eigenvalues w (ascending) and the columns of Q as eigenvectors: (rows, array)"""
        k = len(w)
        L = [[sum([num(Q[i][a] * Q[j][a]) * w[a] for a in range(k)], num(0)) for j in range(k)] for i in range(k)]
        M = nps.from_list([x for r in L for x in r], (k, k), 'f')
        s.e.spectra.append((M.copy(), nps.from_list(list(w), (k,), 'f'),
                            nps.from_list([num(x) for r in Q for x in r], (k, k), 'f')))
        return L, M

    # ---- inputs
    def int(s, name, lo, hi):
        return s.e.symbol(name, 'i', lo, hi)

    def real(s, name, lo=-8, hi=8):
        return s.e.symbol(name, 'f', lo, hi)

    def bool(s, name):
        return s.e.symbol(name, 'i', 0, 1) == 1

    def fork(s, x):
        """concrete value of a symbolic integer or truth value (forks the path)"""
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, Sym):
            return s.e.concretise(x)
        return x

    def assume(s, c):
        s.e.assume(c)

    # ---- logic
    def all(s, *cs):
        return core.s_and(*_flat(cs))

    def any(s, *cs):
        return core.s_or(*_flat(cs))

    def not_(s, c):
        return core.s_not(c)

    def implies(s, a, b):
        return core.s_or(core.s_not(a), b)

    def iff(s, a, b):
        a, b = core.as_bool(a), core.as_bool(b)
        return core.s_or(core.s_and(a, b), core.s_and(core.s_not(a), core.s_not(b)))

    def ite(s, c, a, b):
        return core.ite(c, a, b)

    def sqrt(s, x):
        return core.sqrt(num(x))

    def exp(s, x):
        return core.exp(num(x))

    def pow(s, a, b):
        return core.power(num(a), num(b))

    def abs(s, x):
        return abs(num(x))

    def round(s, x, nd):
        return core.round_(num(x), nd)

    def isconst(s, x):
        return not isinstance(x, Sym) or x.isconst()

    # ---- checks
    def check(s, label, c, detail=None):
        c = core.as_bool(c)
        st = s.rec.label(label)
        st['reached'] += 1
        if c is True:
            st['trivial'] += 1
            return
        if c is False:
            r = s.e._check()
            if r == z3.unsat:
                st['unsat'] += 1
                return
            if r == z3.unknown:
                s.rec.candidate(label, s.model_inputs(None), detail)
                st['unknown'] += 1
                return
            st['sat'] += 1
            s.rec.candidate(label, s.model_inputs(s.e.last.model(), []), detail)
            return
        k = s.e.known(c.t)
        if k is True:
            st['trivial'] += 1
            return
        neg = z3.Not(c.t)
        r = s.e._check(neg)
        if r == z3.unsat:
            st['unsat'] += 1
            return
        if r == z3.unknown:
            st['unknown'] += 1
            s.rec.undecided(label)
            return
        st['sat'] += 1
        s.rec.candidate(label, s.model_inputs(s.e.last.model(), [neg]), detail)
        # go on where the property holds, so that other checks are still decided
        if s.e._check(c.t) == z3.unsat:
            raise PathAbort('violated')
        s.e.add(c.t)

    def _close(s, label, pairs, tol):
        st = s.rec.label(label)
        st['reached'] += 1
        ds = []
        for x, y in pairs:
            x, y = num(x), num(y)
            d = (x - y).simp()
            if d.n and d.const() is None and any(isinstance(v, float) for v in d.n.values()):
                # coefficients that only differ by rounding errors
                M = max([abs(float(v)) for v in list(x.n.values()) + list(y.n.values())])
                d = Sym({k: v for k, v in d.n.items() if not isinstance(v, float) or abs(v) > 1e-12 * M}, d.d, d.k)
                if not d.n:
                    continue
            c = d.const()
            if c is not None:
                if abs(c) <= tol * (1 + abs(approxconst(y))):
                    continue
                if s.e._check() == z3.unsat:
                    return
                st['sat'] += 1
                s.rec.candidate(label, s.model_inputs(s.e.last.model(), []),
                                lambda: 'got %s want %s' % (short([p[0] for p in pairs]), short([p[1] for p in pairs])))
                return
            if d.n and core.SQRT:
                d = core.sq_reduce(d)
                if not d.n:
                    continue
            b = core.bound(d)
            if b is not None and b <= tol:
                continue        # bounded by the ranges of the inputs
            ds.append(d)
        if not ds:
            st['trivial'] += 1
            return

        def viol(d, m):
            mm = num(m)
            return core.s_or(d > mm, d < -mm)
        c = core.as_bool(core.s_or(*[viol(d, tol) for d in ds]))
        if c is False:
            st['trivial'] += 1
            return
        t = c.t if c is not True else z3.BoolVal(True)
        r = s.e._check(t)
        if r == z3.unknown and len(ds) > 1:
            r = z3.unsat
            for d in ds:
                c1 = core.as_bool(viol(d, tol))
                if c1 is False:
                    continue
                t = c1.t if c1 is not True else z3.BoolVal(True)
                r1 = s.e._check(t)
                if r1 == z3.sat:
                    r = z3.sat
                    break
                if r1 == z3.unknown:
                    r = z3.unknown
        if r == z3.unsat:
            st['unsat'] += 1
            return
        if r == z3.unknown:
            st['unknown'] += 1
            s.rec.undecided(label)
            return
        st['sat'] += 1
        best, ext = s.e.last.model(), [t]
        for m in (1, 1e-2, 1e-4):
            c = core.as_bool(core.s_or(*[viol(d, m) for d in ds]))
            if c is False:
                continue
            t2 = c.t if c is not True else z3.BoolVal(True)
            if s.e._check(t2) == z3.sat:
                best, ext = s.e.last.model(), [t2]
                break
        s.rec.candidate(label, s.model_inputs(best, ext),
                        lambda: 'got %s want %s' % (short([p[0] for p in pairs]), short([p[1] for p in pairs])))

    def relerr(s, label, got, x, t, tol=None):
        """got is the norm of x - t relative to the norm of t"""
        x, t = [num(v) for v in s.vec(x)], [num(v) for v in s.vec(t)]
        if len(x) != len(t):
            s.check(label, False, lambda: 'lengths %d %d' % (len(x), len(t)))
            return
        N = sum([(a - b) * (a - b) for a, b in zip(x, t)], num(0))
        T = sum([b * b for b in t], num(0))
        g = num(got)
        if (g - core.sqrt(N) / core.sqrt(T)).simp().n:
            sq = core.square_of_ratio(g)
            if sq is not None:
                # got and the wanted value are not negative and differ by at most the root of |got^2 - N/T|
                fac, lead = core.monic(T.n) if not T.d else ((), 1)
                if fac in sq.d:
                    d = list(sq.d)
                    d.remove(fac)
                    e = Sym(sq.n, tuple(d), 'f') * lead - N
                else:
                    e = sq * T - N
                b = core.bound(e)
                lo = core.as_bool(T >= 1)
                if b is not None and b <= (tol or 1e-4) ** 2 and (lo is True or (lo is not False and s.e.known(lo.t) is True)):
                    st = s.rec.label(label)
                    st['reached'] += 1
                    st['trivial'] += 1
                    return
                if s.e.has_int(()) is False and DEBUGREL:
                    print('relerr', label, b, short(e))
        s.close(label, got, core.sqrt(N) / core.sqrt(T), tol)

    def capture_cvxpy(s):
        pass

    @contextlib.contextmanager
    def pristine(s):
        """(context manager) an environment whose modules of the code have just been loaded: nothing that happened before can matter to it"""
        import copy
        q = copy.copy(s)
        q.w = s.w.fresh()
        yield q

    def mark(s):
        return dict(s.e.fresh_n)

    def rewind(s, m):
        """the random draws from here on give the same values as those after the mark"""
        s.e.fresh_n = dict(m)

    def plotting(s):
        """recorder of everything that is drawn (matplotlib.pyplot's interface)"""
        return s.w.plt

    # ---- models
    def model_inputs(s, model, extra=None):
        """inputs of this path under a model; values are moved to round numbers where the solver allows it"""
        e = s.e
        if model is None:
            return {n: None for n in e.syms}
        vals = {}
        for n, (t, k) in e.syms.items():
            vals[n] = core.z3val(model.eval(t, model_completion=True))
        if extra is not None:
            import time
            pins = []
            stop = time.time() + 3.0
            for n, (t, k) in e.syms.items():
                v = vals[n]
                if k == 'i' or time.time() > stop:
                    continue
                if isinstance(v, int) or Fraction(v).denominator in (1, 2, 4, 8):
                    continue
                for den in (1, 2, 8, 64):
                    q = Fraction(round(v * den), den)
                    p = t == core.z3num(core.norm_c(q))
                    try:
                        if e._check(*(extra + pins + [p])) == z3.sat:
                            pins.append(p)
                            m = e.last.model()
                            for n2, (t2, k2) in e.syms.items():
                                vals[n2] = core.z3val(m.eval(t2, model_completion=True))
                            break
                    except core.Budget:
                        stop = 0
                        break
        return {n: (int(v) if k == 'i' else float(v)) for (n, (t, k)), v in
                ((it, vals[it[0]]) for it in e.syms.items())}

    # ---- files
    root = '/vfs'

    def table(s, columns, rows, sep=',', meta=0, header=True, rel=None):
        s._files += 1
        p = '/vfs/' + (rel or 'table%d.csv' % s._files)
        s.w.vfs[p] = pds.VFile(columns, rows, sep, meta, header)
        return p

    def pickled(s, rel, obj):
        from . import stubs
        s.w.vfs['/vfs/' + rel] = stubs.PickleFile(obj)
        return '/vfs/' + rel

    def no_file(s):
        p = '/vfs/missing.csv'
        s.w.gone.add(p)
        return p

    def listing(s, rel, names):
        s.w.dirs['/vfs/' + rel if rel else '/vfs'] = list(names)

    def resources(s):
        """package data is looked up below the virtual root from now on"""
        s.w.table['pkg_resources'].resource_filename = lambda pkg, p: '/vfs/' + p

    def touched(s, path):
        return path in s.w.touched

    # ---- standard output
    @contextlib.contextmanager
    def printed(s):
        """lines printed inside the block"""
        old, s.w.out = s.w.out, []
        res = []
        try:
            yield res
        finally:
            res.extend(''.join(s.w.out).split('\n'))
            s.w.out = old

    def number(s, text):
        """the number at the start of text, None when there is none"""
        m = re.match(r'[\s\[(]*(?:tensor\()?\[*\u27e6(\d+)\u27e7', text)
        if m:
            return s.e.memo['printed'][int(m.group(1))]
        return plain_number(text)

    def setattr(s, obj, name, val):
        setattr(obj, name, val)

    # ---- global random state
    def rng_state(s):
        return (repr(s.w.glob_random.key), s.w.glob_random.i, len(s.w.rng_events), s.e.fresh_n.get('randn', 0),
                s.e.fresh_n.get('rand', 0))

    def disturb_rng(s):
        s.w.glob_random.key, s.w.glob_random.i = ('disturbed',), 3

    def real_random(s):
        pass


def approxconst(y):
    c = y.const() if isinstance(y, Sym) else y
    return 0 if c is None else c


def _flat(cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)) or hasattr(c, '__next__'):
            out += _flat(c)
        else:
            out.append(c)
    return out


class RealProblem:
    def __init__(s, p):
        s.p = p
        s.v, = p.variables()
        s.val = s.v.value

    def _at(s, x, f):
        old = s.v.value
        s.v.value = _np.array(x, dtype=float).reshape(s.v.shape)
        try:
            return f()
        finally:
            s.v.value = old

    def obj_at(s, x):
        sign = -1 if type(s.p.objective).__name__ == 'Maximize' else 1
        return s._at(x, lambda: sign * float(s.p.objective.args[0].value))

    def residuals_at(s, x):
        def f():
            out = []
            for c in s.p.constraints:
                op = '==' if type(c).__name__ in ('Equality', 'Zero') else '<='
                e = c.args[0] - c.args[1] if len(c.args) == 2 else c.args[0]
                out += [(op, float(y)) for y in _np.asarray(e.value).ravel()]
            return out
        return s._at(x, f)

    def solution(s):
        return s.val


# ---------------------------------------------------------------------- real
class RealEnv(Env):
    real_mode = True

    def __init__(s, world, case, tier, inputs, seed=0):
        super().__init__(world, case, tier)
        s.np = _np
        import scipy.sparse as sp
        s.sp = sp
        s.inputs, s.seed = inputs, seed
        s.failures = []
        s.checked = {}
        s.used = {}
        s._patch_random()
        s._inject_chebpy()
        s._cp_log = None

    @property
    def torch(s):
        import torch
        return torch

    @property
    def gpytorch(s):
        import gpytorch
        return gpytorch

    def toy(s, theta):
        import torch, gpytorch

        class Toy(torch.nn.Module):
            def __init__(m):
                super().__init__()
                m.theta = torch.nn.Parameter(torch.tensor(float(theta)))

            def value(m):
                return m.theta.item()

            def forward(m, x):
                return m, m.theta * x + (0 if m.training else 1)

        def mll(likelihood, model):
            def f(out, y, *a, **k):
                m, pred = out
                assert m is model and pred.shape == y.shape
                return -(1.0 if likelihood.training else 0.5) * ((pred - y) ** 2).sum() / 2
            return f
        s.w.patch(gpytorch.mlls, 'ExactMarginalLogLikelihood', mll)
        return Toy(), gpytorch.likelihoods.GaussianLikelihood()

    @property
    def cp_log(s):
        return s._cp_log

    @contextlib.contextmanager
    def pristine(s):
        main = s.w.swap({})
        try:
            yield s
        finally:
            s.w.swap(main)

    def mark(s):
        return dict(s._draws)

    def rewind(s, m):
        s._draws.clear()
        s._draws.update(m)

    def plotting(s):
        import sys as _sys, networkx, matplotlib.pyplot
        from . import stubs
        plt = s.w.plt
        for n, m in stubs.mpl_modules(plt).items():
            s.w.patch_item(_sys.modules, n, m)
        for n, f in stubs.nxdraw(plt).items():
            s.w.patch(networkx, n, f)
        return plt

    def capture_cvxpy(s):
        """problems are recorded; the variables get the given values instead of a solver's"""
        import cvxpy
        s._cp_log = []

        def solve(p, *a, **k):
            for v in p.variables():
                v.value = _np.array([s.rng_next('cpval', 'f', -20, 20) for _ in range(v.size)]).reshape(v.shape)
            p._vp_value = [v.value for v in p.variables()]
            s._cp_log.append(RealProblem(p))
        s.w.patch(cvxpy.Problem, 'solve', solve)

    def drawn(s):
        return sum(v for k, v in s._draws.items() if k in ('randn', 'rand', 'choice', 'perm', 'randint'))

    def _inject_chebpy(s):
        """stand-in for the chebpy package (not installed): n arbitrary coefficients"""
        import sys as _sys, types
        from . import stubs
        s.cheb_log = []
        m = types.ModuleType('chebpy')

        def chebfun(f=None, domain=None, n=None):
            cs = _np.array([s.rng_next('chebcoef', 'f', -10, 10) for _ in range(int(n))])
            s.cheb_log.append(dict(f=f, domain=domain, n=n, coeffs=cs))
            return stubs.Chebfun(cs, f)
        m.chebfun = chebfun
        s.w.patch_item(_sys.modules, 'chebpy', m)

    def _default(s, name, kind, lo, hi):
        r = _random.Random('%s/%s' % (s.seed, name))
        lo = -8 if lo is None else lo
        hi = 8 if hi is None else hi
        if kind == 'i':
            return r.randint(lo, hi)
        return round(r.uniform(float(lo), float(hi)) * 16) / 16 if hi - lo > 1 else r.uniform(float(lo), float(hi))

    def _val(s, name, kind, lo, hi):
        v = s.inputs.get(name)
        if v is None:
            v = s._default(name, kind, lo, hi)
        s.used[name] = v
        return int(v) if kind == 'i' else float(v)

    def int(s, name, lo, hi):
        return s._val(name, 'i', lo, hi)

    def real(s, name, lo=-8, hi=8):
        return s._val(name, 'f', lo, hi)

    def bool(s, name):
        return s._val(name, 'i', 0, 1) == 1

    def fork(s, x):
        return x

    def assume(s, c):
        if not c:
            raise Skip()

    def all(s, *cs):
        return all(bool(c) for c in _flat(cs))

    def any(s, *cs):
        return any(bool(c) for c in _flat(cs))

    def not_(s, c):
        return not c

    def implies(s, a, b):
        return (not a) or bool(b)

    def iff(s, a, b):
        return bool(a) == bool(b)

    def ite(s, c, a, b):
        return a if c else b

    def sqrt(s, x):
        return float(_np.sqrt(x))

    def exp(s, x):
        return float(_np.exp(x))

    def pow(s, a, b):
        return float(a) ** b

    def abs(s, x):
        return abs(x)

    def round(s, x, nd):
        return float(_np.round(x, nd))

    def isconst(s, x):
        return True

    def relerr(s, label, got, x, t, tol=None):
        x, t = _np.array(s.vec(x), dtype=float), _np.array(s.vec(t), dtype=float)
        if x.shape != t.shape:
            s.check(label, False, lambda: 'shapes %s %s' % (x.shape, t.shape))
            return
        with _np.errstate(all='ignore'):
            want = float(_np.linalg.norm(x - t) / _np.linalg.norm(t))
        s.close(label, got, want, tol)

    def check(s, label, c, detail=None):
        s.checked[label] = s.checked.get(label, 0) + 1
        if not bool(c):
            try:
                d = detail() if callable(detail) else detail
            except Exception:
                d = ''
            s.failures.append((label, d))

    def _close(s, label, pairs, tol):
        s.checked[label] = s.checked.get(label, 0) + 1
        sc = max([float(s.scale)] + [abs(float(y)) for x, y in pairs if float(y) == float(y) and abs(float(y)) < 1e300])
        for x, y in pairs:
            x, y = float(x), float(y)
            if x == y:
                continue
            if not abs(x - y) <= max(tol / s.scale, 1e-6) * sc:
                s.failures.append((label, 'got %s want %s' % (short([p[0] for p in pairs]), short([p[1] for p in pairs]))))
                return

    def spectral(s, Q, w):
        k = len(w)
        L = [[float(sum(float(Q[i][a] * Q[j][a]) * w[a] for a in range(k))) for j in range(k)] for i in range(k)]
        return L, _np.array(L)

    # ---- controlled randomness
    def _patch_random(s):
        w = s.w
        R = _np.random
        cnt = s._draws = {}

        def nxt(prefix, kind, lo, hi):
            n = cnt.get(prefix, 0)
            cnt[prefix] = n + 1
            return s._val('%s#%d' % (prefix, n), kind, lo, hi)

        def arr(prefix, shape, lo, hi, kind='f'):
            if shape == () or shape is None:
                return nxt(prefix, kind, lo, hi)
            shape = (shape,) if isinstance(shape, (int, _np.integer)) else tuple(shape)
            n = int(_np.prod(shape))
            return _np.array([nxt(prefix, kind, lo, hi) for _ in range(n)]).reshape(shape)

        def distinct(prefix, n, m):
            out = []
            for _ in range(m):
                v = nxt(prefix, 'i', 0, n - 1)
                while v in out:
                    v = (v + 1) % n
                out.append(v)
            return _np.array(out, dtype=int)

        def choice(a, size=None, replace=True, p=None):
            pool = _np.arange(a) if isinstance(a, (int, _np.integer)) else _np.asarray(a)
            n = len(pool)
            if size is None:
                return pool[nxt('choice', 'i', 0, n - 1)]
            size = int(size)
            if replace:
                return pool[_np.array([nxt('choice', 'i', 0, n - 1) for _ in range(size)], dtype=int)]
            if size > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            return pool[distinct('choice', n, size)]

        def permutation(x):
            if isinstance(x, (int, _np.integer)):
                return distinct('perm', int(x), int(x))
            x = _np.asarray(x)
            return x[distinct('perm', len(x), len(x))]

        def shuffle(l):
            p = distinct('perm', len(l), len(l))
            l[:] = [l[i] for i in p]
        over = dict(
            randn=lambda *sh: arr('randn', sh, -5, 5),
            standard_normal=lambda size=None: arr('randn', size, -5, 5),
            normal=lambda loc=0.0, scale=1.0, size=None: loc + scale * arr('randn', size, -5, 5),
            rand=lambda *sh: arr('rand', sh, 0, 1),
            random=lambda size=None: arr('rand', size, 0, 1),
            random_sample=lambda size=None: arr('rand', size, 0, 1),
            uniform=lambda low=0.0, high=1.0, size=None: low + (high - low) * arr('rand', size, 0, 1),
            seed=lambda *a: None,
            choice=choice, permutation=permutation, shuffle=shuffle,
            randint=lambda low, high=None, size=None, dtype=int: arr(
                'randint', size, 0 if high is None else int(low), (int(low) if high is None else int(high)) - 1, 'i'))
        for n, f in over.items():
            w.patch(R, n, f)
        o = type('Gen', (), {n: staticmethod(f) for n, f in over.items()})
        o.integers = o.randint
        w.patch(R, 'default_rng', lambda seed=None: o)
        s.rng_next = nxt

    # ---- files
    @property
    def root(s):
        return s.w.scratch

    def table(s, columns, rows, sep=',', meta=0, header=True, rel=None):
        s._files += 1
        p = os.path.join(s.w.scratch, rel or 'table%d.csv' % s._files)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            for i in range(meta):
                f.write('<META %d> line\n' % i)
            if header:
                f.write(sep.join(str(c) for c in columns) + '\n')
            for r in rows:
                f.write(sep.join(cell(v) for v in r) + '\n')
        return p

    def pickled(s, rel, obj):
        import pickle
        p = os.path.join(s.w.scratch, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            pickle.dump(obj, f)
        return p

    def no_file(s):
        return os.path.join(s.w.scratch, 'missing.csv')

    def listing(s, rel, names):
        for n in names:
            os.makedirs(os.path.join(s.w.scratch, rel, n), exist_ok=True)

    def resources(s):
        import pkg_resources, pandas
        s.w.patch(pkg_resources, 'resource_filename', lambda pkg, p: os.path.join(s.w.scratch, p))
        s._touched = set()
        orig, oex = pandas.read_csv, os.path.exists

        def rc(p, *a, **k):
            s._touched.add(str(p))
            return orig(p, *a, **k)

        def ex(p):
            s._touched.add(str(p))
            return oex(p)
        import builtins
        oopen = builtins.open

        def op(p, *a, **k):
            s._touched.add(str(p))
            return oopen(p, *a, **k)
        s.w.patch(builtins, 'open', op)
        s.w.patch(pandas, 'read_csv', rc)
        s.w.patch(os.path, 'exists', ex)

    def touched(s, path):
        return path in s._touched

    @contextlib.contextmanager
    def printed(s):
        buf = io.StringIO()
        res = []
        try:
            with contextlib.redirect_stdout(buf):
                yield res
        finally:
            res.extend(buf.getvalue().split('\n'))

    def number(s, text):
        return plain_number(text)

    def setattr(s, obj, name, val):
        s.w.patch(obj, name, val)

    # ---- global random state
    def rng_state(s):
        st = _np.random.get_state()
        return (hash(_random.getstate()), hash(st[1].tobytes()), st[2], st[3])

    def disturb_rng(s):
        _random.seed(987)
        _random.random()
        s.w.close()
        _np.random.seed(987)
        _np.random.rand(3)

    def real_random(s):
        """undo the control over numpy.random"""
        s.w.close()


def plain_number(text):
    m = re.match(r'[\s\[(]*(?:tensor\()?\[*([-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|nan|inf))', text)
    return float(m.group(1)) if m else None


def cell(v):
    if isinstance(v, float):
        return repr(v)
    return str(v)
