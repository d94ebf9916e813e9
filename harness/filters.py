"""C20-C25: denoising, least-squares, grid-based and Chebyshev filters, building blocks."""
import numpy as _n
from .registry import spec
from .common import *

BF = 'pytspl.filters.base_filter.BaseFilter'
EFD = 'pytspl.filters.edge_flow_denoising.EdgeFlowDenoising'
LSF = 'pytspl.filters.ls_filter_design.LSFilterDesign'
GBF = 'pytspl.filters.grid_based_filter_design.GridBasedFilterDesign'
CHF = 'pytspl.filters.chebyshev_filter_design.ChebyshevFilterDesign'
KEYS = ('filter', 'f_estimated', 'frequency_responses', 'extracted_component_error', 'filter_error')


def op(n, E, T, p):
    low, up = lap_LU(n, E, T)
    return dict(L1=addm(low, up), L1L=low, L1U=up)[p]


def npm(M):
    return _n.array([[float(x) for x in r] for r in M])


def nonzero(env, x):
    """the vector is not close to zero"""
    env.assume(sum([a * a for a in env.vec(x)]) >= 1)


def same_history(env, label, a, b):
    for k in KEYS:
        env.check('%s: %s recorded' % (label, k), (a.get(k) is None) == (b.get(k) is None))
        if a.get(k) is not None and b.get(k) is not None:
            env.close('%s: %s' % (label, k), a[k], b[k])


# ----------------------------------------------------------------- C20
def c20(env, top, p, few=False):
    """concrete parameters, symbolic flows"""
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    P = op(n, E, T, p)
    f, ft = env.flow('f', m), env.flow('t', m)
    nonzero(env, ft)
    flt = env.cls(EFD)(sc)
    mus = env.pick('mu', [[0.5], [2.0, 0.25], [0.0, 1.0, 8.0], [1, 3], [0], [1000.0, 2.0 ** -10, 40.0], [0.5, 0.5], [0.125 * i for i in range(12, 0, -1)]] if not few else [[2.0, 0.25]])
    how = env.pick('how', ['fresh', 'used', 'default' if mus == [0.5] else 'fresh2'])
    if how == 'used':
        flt.denoise(env.flow('x', m), ft, 'L1', mu_vals=[3.0, 1.0, 0.125, 7.0])
    kw = {} if how == 'default' else dict(mu_vals=env.np.array(mus) if how != 'used' else list(mus))
    flt.denoise(f=f, f_true=ft, p_choice=p, **kw)
    h = flt.history
    w = const_eigvals(P)
    fl = env.vec(f)
    est = {}
    for mu in mus:
        inv = _finv([[Fr(int(i == j)) + Fr(mu) * P[i][j] for j in range(m)] for i in range(m)])
        est[mu] = frmul(env, inv, fl)
    inv = _finv([[Fr(int(i == j)) + Fr(mus[-1]) * P[i][j] for j in range(m)] for i in range(m)])
    env.close('filter is the inverse of I + mu P', h['filter'], [[float(x) for x in r] for r in inv])
    env.close('estimate solves (I + mu P) x = f', h['f_estimated'], est[mus[-1]])
    err = env.vec(h['extracted_component_error'])
    env.check('one error per parameter', len(err) == len(mus), lambda: repr(len(err)))
    for mu, e in zip(mus, err):
        env.relerr('error of its own parameter', e, est[mu], ft)
    env.close('frequency responses', h['frequency_responses'], [[1 / (1 + mu * x) for x in w] for mu in mus])


def _finv(A):
    n = len(A)
    M = [list(map(Fr, A[i])) + [Fr(int(i == j)) for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c])
        M[c], M[p] = M[p], M[c]
        M[c] = [x / M[c][c] for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                k = M[r][c]
                M[r] = [x - k * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def c20_mu(env, top, p):
    """symbolic parameter"""
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    P = op(n, E, T, p)
    f = env.flow('f', m)
    ft = env.np.array([1.0] * m)
    mu = env.real('mu', 0, 6)
    flt = env.cls(EFD)(sc)
    flt.denoise(f, ft, p, [mu])
    x = env.vec(flt.history['f_estimated'])
    M = [[(1 if i == j else 0) + mu * P[i][j] for j in range(m)] for i in range(m)]
    env.close('estimate solves (I + mu P) x = f', mulv(M, x), env.vec(f))
    env.close('filter is the inverse of I + mu P', mulm(M, env.mat(flt.history['filter'])), eye_(m))
    env.relerr('error of the estimate', env.vec(flt.history['extracted_component_error'])[0], x, ft)
    w = const_eigvals(P)
    if all(abs(x - round(x)) < 1e-9 for x in w):
        env.close('frequency response', env.vec(env.mat(flt.history['frequency_responses'])[0]), [1 / (1 + mu * int(round(x))) for x in w])


@spec('C20', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] (true flow of norm >= 1); parameter lists of 1 to 12 values from 0 and 2^-10 to 1000, integers and repeated ones (list or array) on 4 complexes up to 6 edges with all three operators, and a complex of 14 edges; '
                        'any single parameter in [0,6] on complexes up to 4 edges; integer flows',
                  thorough='as quick with 9 complexes up to 10 edges; symbolic parameter up to 5 edges'))
def C20(tier):
    tops = ('tri', 'paw', 'house', 'path') + (('disc', 'hole', 'k4one', 'papermix', 'twoedges') if tier == 'thorough' else ())
    for t in tops:
        for p in ('L1', 'L1L', 'L1U'):
            yield c20, dict(top=t, p=p)
    for t in ('tri', 'path', 'hole', 'paw') + (('diamond', 'twoedges') if tier == 'thorough' else ()):
        for p in ('L1', 'L1L', 'L1U'):
            yield c20_mu, dict(top=t, p=p), dict(query_ms=4000)
    for p in ('L1', 'L1L', 'L1U'):
        yield c20, dict(top='paw', p=p, _ints=True)
        yield c20, dict(top='near', p=p, few=True)


# ----------------------------------------------------------------- C21
def vander_fit(pts, vals, L):
    """least-squares polynomial of degree below L"""
    V = _n.array([[x ** i for i in range(L)] for x in pts])
    return _n.linalg.lstsq(V, _n.array(vals, dtype=float), rcond=None)[0]


def poly_op(P, h):
    A = npm(P)
    R, X = _n.zeros_like(A), _n.eye(len(A))
    for c in h:
        R = R + c * X
        X = X @ A
    return R


def ls_case(env, run, n, E, T, comp, p, L, pts, vals, f, fresh, single=True):
    """checks of the record of a filter fitted to vals at pts; fresh(l) is a new filter object after a run of size l"""
    m = len(E)
    P = op(n, E, T, p)
    h = run.history
    fl = env.vec(f)
    true = frmul(env, hodge_projectors(n, E, T)[comp], fl) if isinstance(comp, str) else env.vec(comp)
    w = const_eigvals(P)
    co = vander_fit(pts, vals, L)
    H = poly_op(P, co)
    env.close('filter is the fitted polynomial', h['filter'], H.tolist(), tol=1e-5)
    env.close('estimate is the filter applied to the flow', h['f_estimated'], [dot([float(x) for x in r], fl) for r in H], tol=1e-4)
    env.close('estimate is the recorded filter applied to the flow', h['f_estimated'], mulv(env.mat(h['filter']), fl))
    err = env.vec(h['extracted_component_error'])
    env.check('one error per size', len(err) == L, lambda: repr(len(err)))
    fr = env.mat(h['frequency_responses'])
    env.check('one response per size', len(fr) == L)
    for l in range(1, L + 1):
        g = vander_fit(pts, vals, l)
        env.close('frequency response of every size', fr[l - 1], [sum(c * x ** i for i, c in enumerate(g)) for x in w], tol=1e-5)
        est = h['f_estimated'] if l == L else fresh(l).history['f_estimated']
        env.relerr('error of every size', err[l - 1], est, true)


def distinct(w, tol=1e-6):
    out = []
    for x in w:
        x = 0.0 if abs(x) < tol else x
        if not out or abs(x - out[-1]) > 1e-9:
            out.append(x)
    return out


def c21_two(env, top, comp, L):
    n, E, T = complex_of(top)
    sc = make_sc(env, n, E, T)
    p = dict(gradient='L1L', curl='L1U')[comp]
    pts = distinct(const_eigvals(op(n, E, T, p)))
    vals = [1 if x > 0 else 0 for x in pts]
    f = env.flow('f', len(E))
    true = frmul(env, hodge_projectors(n, E, T)[comp], env.vec(f))
    nonzero(env, true)

    def run(l):
        o = env.cls(LSF)(sc)
        o.subcomponent_extraction_type_two(f=f, component=comp, L=l)
        return o
    o = run(L)
    ls_case(env, o, n, E, T, comp, p, L, pts, vals, f, run)
    if L >= len(pts):
        env.close('large enough filter is exact', o.history['f_estimated'], true, tol=1e-5)


def c21_one(env, top, comp, L):
    n, E, T = complex_of(top)
    sc = make_sc(env, n, E, T)
    low, up = lap_LU(n, E, T)
    hw = const_eigvals(addm(low, up))
    other = dict(gradient=const_eigvals(low), curl=const_eigvals(up))
    left = [x for x in other.get(comp, []) if x > 1e-3]
    vals = []
    if comp == 'harmonic':
        vals = [1 if abs(x) < 1e-3 else 0 for x in hw]
    else:
        # share of the component in each eigenspace: the least-squares fit only sees this average
        for x in hw:
            k = sum(1 for y in left if abs(x - y) < 1e-6)
            mult = sum(1 for y in hw if abs(x - y) < 1e-6)
            vals.append(k / mult)
    f = env.flow('f', len(E))
    true = frmul(env, hodge_projectors(n, E, T)[comp], env.vec(f))
    nonzero(env, true)

    def run(l):
        o = env.cls(LSF)(sc)
        o.subcomponent_extraction_type_one(f=f, component=comp, L=l)
        return o
    ls_case(env, run(L), n, E, T, comp, 'L1', L, hw, vals, f, run)


def c21_refuse(env, top):
    sc, n, E, T = topo(env, top)
    o = env.cls(LSF)(sc)
    f = env.flow('f', len(E))
    c = env.pick('component', ['harmonic', 'Gradient', '', 'divergence', 'curl '])
    env.raises('type two refuses other components', ValueError, o.subcomponent_extraction_type_two, f=f, component=c, L=2)
    o.subcomponent_extraction_type_two(f=f, component='gradient', L=2)
    o2 = env.cls(LSF)(sc)
    o2.subcomponent_extraction_type_two(f=f, component='gradient', L=2)
    same_history(env, 'after a refused call', o.history, o2.history)


@spec('C21', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] with a component of norm >= 1; 5 complexes up to 7 edges, all components, sizes 1..4 (two with 9), one of 14 edges with close eigenvalues, one of 81 edges; integer flows',
                  thorough='10 complexes up to 10 edges, sizes 1..7'))
def C21(tier):
    tops = ('paw', 'house', 'tri', 'disc', 'diamond') + (('k4one', 'bowtie', 'wheel', 'papermix', 'path') if tier == 'thorough' else ())
    for t in tops:
        n, E, T = complex_of(t)
        d = component_dims(n, E, T)
        for c in ('gradient', 'curl', 'harmonic'):
            if not d[c]:
                continue
            for L in ((1, 4) if tier == 'quick' else (2, 3, 5, 7)):
                yield c21_one, dict(top=t, comp=c, L=L)
                if c != 'harmonic':
                    yield c21_two, dict(top=t, comp=c, L=L)
    yield c21_two, dict(top='k4full', comp='gradient', L=2)      # no zero response needed for exactness
    yield c21_two, dict(top='edge', comp='gradient', L=2)        # Laplacian without the eigenvalue zero
    yield c21_two, dict(top='papermix', comp='gradient', L=9)
    yield c21_one, dict(top='paw', comp='gradient', L=9)
    yield c21_one, dict(top='near', comp='curl', L=3)
    yield c21_two, dict(top='near', comp='curl', L=3)
    yield c21_two, dict(top=WIRE, comp='gradient', L=2)
    yield c21_one, dict(top='paw', comp='gradient', L=2, _ints=True)
    yield c21_two, dict(top='paw', comp='gradient', L=2, _ints=True)
    yield c21_two, dict(top='paw', comp='curl', L=2, _ints=True)
    yield c21_refuse, dict(top='paw')


# ----------------------------------------------------------------- C22
def power_max(P):
    A = npm(P)
    v = _n.ones(len(A))
    with _n.errstate(all='ignore'):
        for _ in range(50):
            v = A @ v
            v = v / _n.linalg.norm(v)
        v = v + _n.finfo(float).eps
        return float(_n.mean(A @ v / v)), v


def converged(top, p):
    """the power iteration from the all-ones vector finds the largest eigenvalue here"""
    n, E, T = complex_of(top)
    P = op(n, E, T, p)
    lam, v = power_max(P)
    return lam == lam and abs(lam - const_eigvals(P)[-1]) < 1e-7 and _n.abs(v).min() > 1e-4


def c22_denoise(env, top, p, L, mu):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    lam = const_eigvals(op(n, E, T, p))[-1]
    f, ft = env.flow('f', m), env.flow('t', m)
    nonzero(env, ft)
    kw = {} if mu is None else dict(mu=mu)

    def run(l):
        o = env.cls(GBF)(sc)
        o.denoise(f=f, f_true=ft, p_choice=p, L=l, **kw)
        return o
    mu = 0.5 if mu is None else mu
    pts = _n.linspace(0, lam, m)
    ls_case(env, run(L), n, E, T, ft, p, L, pts, [1 / (1 + mu * x) for x in pts], f, run)


def c22_extract(env, top, p, comp, L, ns, cut, steep):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    lam = const_eigvals(op(n, E, T, p))[-1]
    f = env.flow('f', m)
    nonzero(env, frmul(env, hodge_projectors(n, E, T)[comp], env.vec(f)))
    kw = {}
    if ns:
        kw['num_of_samples'] = ns
    if cut is not None:
        kw.update(cut_off_frequency=cut, steep=steep)

    def run(l):
        o = env.cls(GBF)(sc)
        o.subcomponent_extraction(f=f, component=comp, p_choice=p, L=l, **kw)
        return o
    cut, steep = (0.01, 100) if cut is None else (cut, steep)
    pts = _n.linspace(0, lam, ns or 10)
    ls_case(env, run(L), n, E, T, comp, p, L, pts, [1 / (1 + _n.exp(-steep * (x - cut))) for x in pts], f, run)


@spec('C22', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] (true signal of norm >= 1); complexes and operators of the family on which the power iteration converges, sizes 1..4, '
                        'parameters from 0 to 1000, 2 to 60 sample points; integer flows', thorough='as quick with sizes up to 6'),
      assumptions=['the power-iteration estimate of the largest eigenvalue has converged (its accuracy elsewhere is not claimed)'])
def C22(tier):
    got = 0
    for t in ('paw', 'house', 'tri', 'k4one', 'diamond', 'papermix', 'disc', 'wheel', 'star', 'path'):
        for p in ('L1', 'L1L', 'L1U'):
            if not converged(t, p):
                continue
            for L in ((3,) if tier == 'quick' else (1, 2, 4, 6)):
                for mu in ((None, 2.0) if got % 2 else (0.25, 0, 1000.0)[:1 + 2 * (got % 4 == 0)]):
                    yield c22_denoise, dict(top=t, p=p, L=L, mu=mu)
                n, E, T = complex_of(t)
                d = component_dims(n, E, T)
                comp = {'L1': 'gradient', 'L1L': 'gradient', 'L1U': 'curl'}[p]
                if p == 'L1' and d['harmonic']:
                    comp = 'harmonic'
                for ns, cut, steep in (((None, None, None), (5, 0.8, 2)) if got % 2 else ((7, 0.5, 10),)):
                    yield c22_extract, dict(top=t, p=p, comp=comp, L=L, ns=ns, cut=cut, steep=steep)
            got += 1
    yield c22_denoise, dict(top='diamond', p='L1L', L=2, mu=0.25, _ints=True)
    yield c22_denoise, dict(top='diamond', p='L1L', L=2, mu=0, _ints=True)
    yield c22_extract, dict(top='diamond', p='L1L', comp='gradient', L=2, ns=5, cut=0.8, steep=2, _ints=True)
    yield c22_extract, dict(top='diamond', p='L1L', comp='gradient', L=4, ns=60, cut=0, steep=3)
    yield c22_extract, dict(top='diamond', p='L1L', comp='gradient', L=4, ns=2, cut=1, steep=1)
    yield c22_extract, dict(top='diamond', p='L1L', comp='gradient', L=7, ns=30, cut=0.4, steep=40)


# ----------------------------------------------------------------- C23
def c23(env, top, kind, L1, L2, tol=None):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    f = env.flow('f', m)
    P = hodge_projectors(n, E, T)
    for c in (('gradient',) if L1 else ()) + (('curl',) if L2 else ()):
        nonzero(env, frmul(env, P[c], env.vec(f)))
    cls = env.cls(LSF if kind == 'ls' else GBF)

    def single(o, c, L, x=None):
        if kind == 'ls':
            o.subcomponent_extraction_type_two(f=f if x is None else x, component=c, L=L, tolerance=1e-3 if tol is None else tol)
        else:
            o.subcomponent_extraction(f=f if x is None else x, component=c, p_choice={'gradient': 'L1L', 'curl': 'L1U'}[c], L=L)
        return o
    o = cls(sc)
    pre = env.pick('before', ['new', 'single', 'general'])
    if pre == 'single':
        single(o, 'curl', 2)
    elif pre == 'general':
        o.general_filter(f, 2, 1)
    fh, fc, fg = o.general_filter(f=f, L1=L1, L2=L2, **({} if tol is None else dict(tolerance=tol)))
    hist = o.history
    want = {}
    for c, L, key, got in (('gradient', L1, 'L1', fg), ('curl', L2, 'L2', fc)):
        env.check('history has both branches', key in hist)
        if L:
            ref = single(cls(sc), c, L)
            want[c] = env.vec(ref.history['f_estimated'])
            env.close('%s estimate is that of the extraction' % c, got, want[c])
            env.check('branch record kept', hist[key] is not None)
            if hist[key] is not None:
                same_history(env, 'record of the %s branch' % c, hist[key], ref.history)
        else:
            want[c] = [0] * m
            v = env.vec(got)
            env.close('%s estimate is zero' % c, v, [0] * len(v))
            env.check('no record of a skipped branch', hist[key] is None)
    env.close('harmonic estimate is the rest', fh, [a - b - c for a, b, c in zip(env.vec(f), want['gradient'], want['curl'])])
    kept = {k: {q: list(env.vec(v)) for q, v in hist[k].items() if v is not None} for k in ('L1', 'L2') if hist[k] is not None}
    # usable again as if new, and the earlier record stays as it was
    single(o, 'gradient', 2)
    same_history(env, 'run after the general filter', o.history, single(cls(sc), 'gradient', 2).history)
    for k in kept:
        for q in kept[k]:
            env.close('earlier record unchanged', env.vec(hist[k][q]), kept[k][q])


@spec('C23', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] with components of norm >= 1 on 2 complexes; sizes 0..3 for both branches; new and used filter objects; integer flows; tolerances 1e-3, 1.5, 3.5',
                  thorough='as quick on 5 complexes, sizes up to 5'))
def C23(tier):
    for t in (('k4one', 'house') if tier == 'quick' else ('k4one', 'house', 'wheel', 'papermix', 'bowtie')):
        for L1, L2 in (((0, 2), (2, 0), (3, 1), (1, 3), (0, 0)) if tier == 'quick' else ((0, 3), (5, 0), (2, 3), (4, 2), (0, 0))):
            for kind in ('ls', 'grid'):
                yield c23, dict(top=t, kind=kind, L1=L1, L2=L2)
    for kind in ('ls', 'grid'):
        yield c23, dict(top='k4one', kind=kind, L1=2, L2=1, _ints=True)
        yield c23, dict(top='k4one', kind=kind, L1=0, L2=2, _ints=True)
    for tol in (1.5, 3.5):      # larger than some of the eigenvalues (of both branches in the second case)
        yield c23, dict(top='house', kind='ls', L1=2, L2=2, tol=tol)


# ----------------------------------------------------------------- C24
def cheb_T(X, k, n):
    """explicit Chebyshev polynomials"""
    I = [[int(i == j) for j in range(n)] for i in range(n)]
    pw = [I]
    for _ in range(k):
        pw.append(mulm(pw[-1], X))
    co, nx = [1], [0, 1]
    for _ in range(k):
        co, nx = nx, [2 * b - a for a, b in zip(co + [0, 0], [0] + nx)]
    return [[sum(c * pw[e][i][j] for e, c in enumerate(co) if c) for j in range(n)] for i in range(n)]


def c24_series(env, size, top, K, given):
    """arbitrary operator (size x size), scale and coefficients"""
    if top:
        n, E, T = complex_of(top)
        P = op(n, E, T, 'L1')
        size = len(P)
    else:
        P = [[env.real('p%d%d' % (i, j), -3, 3) for j in range(size)] for i in range(size)]
        n, E, T = TOPO['tri']
    sc = make_sc(env, n, E, T)
    al = env.real('alpha', 0.25, 4)
    c = [env.real('c%d' % i, -4, 4) for i in range(given)]
    o = env.cls(CHF)(sc)
    H = o._chebyshev_filter_approximate(P=env.np.array([[x if not isinstance(x, int) else float(x) for x in r] for r in P]),
                                        coefficients=env.np.array(c), alpha=al, order=K)
    X = [[(P[i][j] - (al if i == j else 0)) / al for j in range(size)] for i in range(size)]
    want = [[0] * size for _ in range(size)]
    for k in range(min(K, given)):
        want = addm(want, [[c[k] * x for x in r] for r in cheb_T(X, k, size)])
    env.close('truncated Chebyshev series', H, want)


def c24_apply(env, top, p, comp, L, nn):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    f = env.flow('f', m)
    exact = frmul(env, hodge_projectors(n, E, T)[comp], env.vec(f))
    nonzero(env, exact)
    o = env.cls(CHF)(sc)
    kw = {} if nn is None else dict(n=nn)
    how = env.pick('kw', ['given', 'default'])
    if how == 'given':
        kw.update(cut_off_frequency=0.3, steep=7)
    o.apply(f=f, p_choice=p, component=comp, L=L, **kw)
    env.check('one approximation', len(env.cheb_log) == 1)
    log = env.cheb_log[0]
    P = op(n, E, T, p)
    lam = const_eigvals(P)[-1]
    env.close('domain is [0, largest eigenvalue]', list(log['domain']), [0, lam])
    env.check('number of points', log['n'] == (nn or L))
    cut, st = (0.3, 7) if how == 'given' else (0.01, 100)
    for x in (0.0, 0.3, lam / 3, lam):
        env.close('approximated response', log['f'](x), 1 / (1 + _n.exp(-st * (x - cut))))
    h = o.history
    F = h['filter']
    sh = env.shape(F)
    env.check('L filters', sh == (L, m, m), lambda: repr(sh))
    env.check('L estimates', env.shape(h['f_estimated']) == (L, m))
    env.check('L responses', env.shape(h['frequency_responses']) == (L, m))
    env.check('L errors', env.shape(h['extracted_component_error']) == (L,) and env.shape(h['filter_error']) == (L,))
    c = env.vec(log['coeffs'])
    al = lam / 2
    X = [[(float(P[i][j]) - (al if i == j else 0)) / al for j in range(m)] for i in range(m)]
    want = [[0] * m for _ in range(m)]
    for k in range(min(L, len(c))):
        want = addm(want, [[c[k] * x for x in r] for r in cheb_T(X, k, m)])
    env.close('last filter uses the first L coefficients', F[L - 1], want, tol=1e-5)
    U, w = env.load('pytspl.decomposition.eigendecomposition').get_eigendecomposition(sc.hodge_laplacian_matrix(rank=1).toarray())
    Ut = tr(env.mat(U), m)
    coef = o.get_component_coefficients(component=comp)
    ideal = o.get_ideal_frequency(component_coeffs=coef)
    err, fe = env.vec(h['extracted_component_error']), env.vec(h['filter_error'])
    for j in range(L):
        est = env.vec(h['f_estimated'][j])
        env.close('estimate is the filter of the same index applied to the flow', est, mulv(env.mat(F[j]), env.vec(f)))
        env.close('response is the estimate in the Hodge eigenbasis', h['frequency_responses'][j], mulv(Ut, est))
        env.relerr('error relative to the exact component', err[j], est, exact)
        env.close('filter error relative to the ideal filter', fe[j], env.np.linalg.norm(F[j] - ideal, ord=2))


@spec('C24', quick_s=200, thorough_s=600,
      bounds=dict(quick='arbitrary 2x2 operators with entries in [-3,3] and 3-edge Laplacians, scale in [0.25,4], up to 4 coefficients, orders 1..4; '
                        'apply on 3 complexes with arbitrary coefficients, sizes 1..3 and 8, flows in [-8,8]; integer flows',
                  thorough='3x3 operators, orders up to 6, apply on 5 complexes with sizes up to 5'),
      assumptions=['chebpy is replaced by a stand-in returning arbitrary coefficients'])
def C24(tier):
    for K, g in ((1, 1), (2, 2), (3, 4), (4, 4), (4, 2), (3, 1)) + (((6, 6), (6, 3)) if tier == 'thorough' else ()):
        yield c24_series, dict(size=2, top=None, K=K, given=g)
        yield c24_series, dict(size=0, top='tri', K=K, given=g)
    if tier == 'thorough':
        yield c24_series, dict(size=3, top=None, K=3, given=3)
    for t, p, comp in (('paw', 'L1L', 'gradient'), ('house', 'L1L', 'gradient'), ('tri', 'L1U', 'curl'), ('k4one', 'L1L', 'gradient'), ('diamond', 'L1L', 'curl'), ('bowtie', 'L1U', 'curl'),
                       ('house', 'L1', 'gradient')):
        if not converged(t, p):
            continue
        for L, nn in (((1, None), (3, None), (3, 2), (2, 4)) if tier == 'quick' else ((4, None), (5, 3), (3, 6))):
            yield c24_apply, dict(top=t, p=p, comp=comp, L=L, nn=nn)
    yield c24_apply, dict(top='diamond', p='L1L', comp='gradient', L=2, nn=None, _ints=True)
    yield c24_apply, dict(top='diamond', p='L1L', comp='gradient', L=8, nn=12)
    yield c24_apply, dict(top='diamond', p='L1L', comp='gradient', L=7, nn=4)


# ----------------------------------------------------------------- C25
def c25_err(env, k, unit=1):
    x, t = env.flow('x', k), env.flow('t', k)
    nonzero(env, t)
    if unit != 1:
        x, t = x * unit, t * unit       # signals of small (large) norm
    env.relerr('relative error', env.cls(BF).calculate_error_NRMSE(x, t), x, t)


def c25_logistic(env, arr):
    cut, st = env.real('cut', -2, 2), env.real('steep', -50, 50)
    xs = [env.real('x%d' % i, -3, 3) for i in range(2)]
    for x in xs:
        env.assume(env.all((x - cut) * st <= 30, (x - cut) * st >= -30))
    g = env.cls(BF).logistic_function(cut_off_frequency=cut, steep=st)
    if arr:
        got = env.vec(g(env.np.array(xs)))
    else:
        got = [g(x) for x in xs]
    env.close('logistic response', got, [1 / (1 + env.exp(-st * (x - cut))) for x in xs], tol=1e-9)
    env.close('one half at the cut-off', g(cut), 0.5, tol=1e-9)
    d = env.cls(BF).logistic_function()
    y = env.real('y', -0.2, 0.2)
    env.close('default parameters', d(y), 1 / (1 + env.exp(-100 * (y - 0.01))), tol=1e-9)


def c25_saturated(env):
    """far from the cut-off, flat, and at numbers that are not in the range of the other case"""
    o = env.cls(BF)
    for cut, st, x, want in ((0.01, 100, 12.0, 1.0), (0.01, 100, -12.0, 0.0), (3, 0, 7.5, 0.5), (40, 2, 41.0, 1 / (1 + _n.exp(-2))), (40.5, -1, 41.0, 1 / (1 + _n.exp(0.5))),
                             (0, 1e4, 0.5, 1.0), (0, 1e4, -0.5, 0.0), (0, -1e4, 0.25, 0.0), (5.0, 3, 0.0, 1 / (1 + _n.exp(15))), (-6.0, 0.5, -2.0, 1 / (1 + _n.exp(-2)))):
        g = o.logistic_function(cut_off_frequency=cut, steep=st)
        env.close('logistic response at %s' % ((cut, st, x),), [g(x)] + env.vec(g(env.np.array([x, cut]))), [want, want, 0.5], tol=1e-9)


def c25_true(env, top):
    n, pairs, T = complex_of(top)
    E = orient_fork(env, pairs) if len(pairs) <= 8 else list(pairs)
    sc = make_sc(env, n, E, T)
    f = env.flow('f', len(E))
    o = env.cls(BF)(sc)
    c = env.pick('component', ['gradient', 'curl', 'harmonic'])
    env.close('true signal is the exact component', o.get_true_signal(f=f, component=c), frmul(env, hodge_projectors(n, E, T)[c], env.vec(f)))


def c25_p(env, top):
    n, pairs, T = complex_of(top)
    E = orient_fork(env, pairs) if len(pairs) <= 8 else list(pairs)
    sc = make_sc(env, n, E, T)
    o = env.cls(BF)(sc)
    for p in ('L1', 'L1L', 'L1U'):
        env.close('operator %s' % p, o.get_p_matrix(p), op(n, E, T, p))
    env.close('default operator', o.get_p_matrix(), op(n, E, T, 'L1'))
    bad = env.pick('bad', ['L0', 'l1', 'L1l', '', 'L2', 'LU1', None, 'L1 '])
    env.raises('other choices refused', ValueError, o.get_p_matrix, bad)


def c25_power(env, k, it):
    """arbitrary matrix with positive entries"""
    P = [[env.real('p%d%d' % (i, j), 0.125, 4) for j in range(k)] for i in range(k)]
    A = env.np.array(P)
    v = env.cls(BF).power_iteration(P=A, iterations=it)
    u = [1] * k
    for _ in range(it):
        u = mulv(P, u)
        nn = env.sqrt(sum(x * x for x in u))
        u = [x / nn for x in u]
    env.close('normalised power', v, u, tol=1e-9)


def c25_power_top(env, top, p):
    n, E, T = complex_of(top)
    P = op(n, E, T, p)
    it = env.pick('iterations', [None, 1, 2, 3, 10, 50, 64])
    kw = {} if it is None else dict(iterations=it)
    v = env.cls(BF).power_iteration(P=env.np.array([[float(x) for x in r] for r in P]), **kw)
    u = [Fr(1)] * len(P)
    for _ in range(it or 50):
        u = mulv(P, u)
    M = max(abs(x) for x in u)
    u = [float(x / M) for x in u]
    nn = sum(x * x for x in u) ** 0.5
    env.close('normalised power', v, [x / nn for x in u], tol=1e-7)


@spec('C25', quick_s=200, thorough_s=600,
      bounds=dict(quick='vectors of length 1..4 and 30 in [-8,8]; logistic parameters: cut-off in [-2,2], steepness in [-50,50] and ten points beyond; complexes up to 5 edges in every '
                        'stored direction; power iteration of arbitrary positive 2x2 matrices (1..2 iterations) and of Laplacians (up to 64); integer flows; signals in units of 2^-6 and 2^10; five complexes of 14 to 56 edges',
                  thorough='as quick with 3x3 matrices and 3 iterations'))
def C25(tier):
    for k in (1, 2, 4):
        yield c25_err, dict(k=k)
        yield c25_err, dict(k=k, _ints=True)
    for u in (2.0 ** -6, 2.0 ** 10):
        yield c25_err, dict(k=2, unit=u)
    for a in (0, 1):
        yield c25_logistic, dict(arr=a)
    yield c25_saturated, {}
    yield c25_err, dict(k=30)
    for t in ('paw', 'tri', 'hole') + (('diamond2', 'house') if tier == 'thorough' else ()):
        yield c25_true, dict(top=t)
        yield c25_p, dict(top=t)
    yield c25_true, dict(top='paw', _ints=True)
    for t in LONG + (BIG,):
        yield c25_true, dict(top=t)
        yield c25_p, dict(top=t)
    for k, it in ((2, 1), (2, 2)) + (((3, 1), (3, 2), (2, 3)) if tier == 'thorough' else ()):
        yield c25_power, dict(k=k, it=it)
    for t, p in (('paw', 'L1L'), ('house', 'L1'), ('papermix', 'L1L')):
        yield c25_power_top, dict(top=t, p=p)
