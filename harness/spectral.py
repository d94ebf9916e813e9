"""C15-C19: Hodge decomposition, eigenpairs, masks, embeddings."""
from .registry import spec
from .common import *

ED = 'pytspl.decomposition.eigendecomposition'
HD = 'pytspl.decomposition.hodge_decomposition'
COMPS = ('gradient', 'curl', 'harmonic')
SMALL = ('tri', 'hole', 'paw', 'path', 'edge', 'diamond2')
ALL = ('square', 'diamond', 'star', 'twoedges', 'disc', 'isolated', 'k4full', 'k4one', 'bowtie', 'house', 'papermix', 'wheel')
# ----------------------------------------------------------------- C15
def c15(env, top, orientations, functions=False):
    n, pairs, T = complex_of(top)
    E = orient_fork(env, pairs) if orientations else list(pairs)
    m = len(E)
    sc = make_sc(env, n, E, T)
    f = env.flow('f', m)
    P = hodge_projectors(n, E, T)
    fl = env.vec(f)
    if functions:
        hd = env.load(HD)
        B1, B2 = sc.incidence_matrix(rank=1), sc.incidence_matrix(rank=2)

        def comp(c, x):
            if c == 'gradient':
                return hd.get_gradient_flow(B1, x, round_fig=False)
            if c == 'curl':
                return hd.get_curl_flow(B2, x, round_fig=False)
            return hd.get_harmonic_flow(B1, B2, x, round_fig=False)
    else:
        def comp(c, x):
            return sc.get_component_flow(flow=x, component=c, round_fig=False)
    R = {c: comp(c, f) for c in COMPS}
    V = {c: env.vec(R[c]) for c in COMPS}
    for c in COMPS:
        if len(V[c]) != m:
            env.check('one value per edge', False, lambda: repr(V[c]))
            return
    env.close('components add up to the flow', [a + b + c for a, b, c in zip(V['gradient'], V['curl'], V['harmonic'])], fl)
    env.close('gradient part is induced by a potential', V['gradient'], frmul(env, P['gradient'], V['gradient']))
    env.close('curl part is induced by a triangle signal', V['curl'], frmul(env, P['curl'], V['curl']))
    B1m, B2m = conc_B1(n, E), conc_B2(E, T)
    env.close('harmonic part has no divergence', mulv(B1m, V['harmonic']), [0] * n)
    env.close('harmonic part has no curl', mulv(tr(B2m, len(T)), V['harmonic']), [0] * len(T))
    if top == BIG:  # the four statements above already determine the components
        return
    for a, b in (('gradient', 'curl'), ('gradient', 'harmonic'), ('curl', 'harmonic')):
        env.close('%s and %s are orthogonal' % (a, b), dot(V[a], V[b]) + 0, 0, 1e-6 * env.scale)
    al = env.real('alpha', -4, 4)
    g = env.flow('g', m)
    for c in COMPS:
        env.close('%s is linear' % c, comp(c, f * al + g), [al * x + y for x, y in zip(V[c], env.vec(comp(c, g)))])
        for d in COMPS:
            env.close('%s of the %s component' % (d, c), comp(d, R[c]), V[c] if c == d else [0] * m)


@spec('C15', quick_s=200, thorough_s=900,
      bounds=dict(quick='flows in [-8,8]; complexes up to 5 edges and 2 triangles in every stored direction, and 12 further ones up to 10 edges, '
                        'with and without triangles, disconnected, with isolated nodes; integer flows; flows in units of 2^-40 and 2^30; five complexes of 14 to 56 edges',
                  thorough='as quick, complexes up to 8 edges in every stored direction'),
      assumptions=['exact arithmetic; tolerance 1e-6'])
def C15(tier):
    for t in ('tri', 'paw', 'hole', 'twoedges', 'edge') + (('diamond2', 'k4full', 'k4one', 'bowtie', 'house', 'disc', 'isolated', 'wheel') if tier == 'thorough' else ()):
        yield c15, dict(top=t, orientations=True)
    for t in ALL + ('diamond2', 'path', 'paper'):
        yield c15, dict(top=t, orientations=False)
    for t in ('diamond2', 'house', 'path'):
        yield c15, dict(top=t, orientations=False, functions=True)
    for t in LONG + (BIG,):
        yield c15, dict(top=t, orientations=False)
    for sc in (TINY, HUGE):
        yield c15, dict(top='diamond2', orientations=False, _scale=sc)
        yield c15, dict(top='house', orientations=False, _scale=sc)
    for t in ('tri', 'house'):
        yield c15, dict(top=t, orientations=False, _ints=True)


# ----------------------------------------------------------------- C16
def c16(env, top, few=None):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    f = env.flow('f', m)
    comp = env.pick('component', COMPS)
    exact = frmul(env, hodge_projectors(n, E, T)[comp], env.vec(f))
    how = env.pick('how', ['default', 'decimals', 'decimals only', 'off', 'off+decimals', 'off+default'] if few is None else few)
    nd = 2
    if how in ('decimals', 'decimals only', 'off+decimals'):
        nd = env.pick('nd', [0, 1, 2, 3, 5, -1, -2])
    kw = {'default': {}, 'decimals': dict(round_fig=True, round_sig_fig=nd), 'decimals only': dict(round_sig_fig=nd), 'off': dict(round_fig=False),
          'off+decimals': dict(round_fig=False, round_sig_fig=nd), 'off+default': dict(round_fig=False, round_sig_fig=2)}[how]
    f0 = list(env.vec(f))
    r = env.vec(sc.get_component_flow(flow=f, component=comp, **kw))
    if how.startswith('off'):
        env.close('not rounded', r, exact)
    else:
        h = 0.5 * 10.0 ** -nd + 1e-7
        env.check('within half a unit of the exact component', env.all([env.all(a - b <= h, b - a <= h) for a, b in zip(r, exact)]),
                  lambda: 'got %s exact %s' % (r, exact))
        env.close('has the requested number of decimals', r, [env.round(x, nd) for x in r], tol=1e-9)
    env.eq('flow unchanged', f, f0)


@spec('C16', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] on complexes up to 6 edges; decimals 0,1,2,3,5,-1,-2; all rounding options; integer flows',
                  thorough='as quick with complexes up to 8 edges'))
def C16(tier):
    for t in ('tri', 'paw', 'house', 'path') + (('diamond', 'k4one', 'k4full', 'bowtie', 'disc', 'wheel') if tier == 'thorough' else ()):
        yield c16, dict(top=t)
    for t in ('tri', 'paw'):
        yield c16, dict(top=t, _ints=True)
    yield c16, dict(top='paw', _scale=1e3)
    yield c16, dict(top=BIG, few=['off', 'default'])


# ----------------------------------------------------------------- C17
def check_pairs(env, what, U, w, L, m, lo, hi, want):
    """U, w: eigenpairs of L; w in the requested range, as many as there are"""
    U, w = env.mat(U), env.vec(w)
    env.check(what + ': one row per edge', len(U) == m, lambda: repr((len(U), m)))
    if len(U) != m:
        return
    k = len(w)
    env.check(what + ': one column per eigenvalue', all(len(r) == k for r in U))
    env.check(what + ': number of eigenpairs', k == want, lambda: 'got %d want %d' % (k, want))
    LU = mulm(L, U)
    env.close(what + ': L u = lambda u', LU, [[U[i][j] * w[j] for j in range(k)] for i in range(m)])
    Ut = tr(U, k)
    env.close(what + ': orthonormal', mulm(Ut, U) if k else [], [[int(i == j) for j in range(k)] for i in range(k)] if k else [])
    env.check(what + ': ascending', env.all([w[i] <= w[i + 1] for i in range(k - 1)]))
    for x in w:
        if lo is not None:
            env.check(what + ': above the tolerance', x > lo)
        if hi is not None:
            env.check(what + ': not above the tolerance', x <= hi)


def c17_top(env, top, via):
    """concrete complex, every tolerance"""
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    low, up = lap_LU(n, E, T)
    hod = addm(low, up)
    ws = dict(gradient=const_eigvals(low), curl=const_eigvals(up), harmonic=const_eigvals(hod))
    if via == 'default':
        tol, args = 1e-3, {}
    else:
        tol = env.real('tol', 0, 8)
        env.assume(tol > 1e-6)
        for l in ws.values():
            for x in l:
                env.assume(env.any(tol < x - 1e-6, tol > x + 1e-6))
        args = dict(tolerance=tol)
    ed = env.load(ED)
    mats = dict(gradient=low, curl=up, harmonic=hod)
    cnt = 0
    for c in COMPS:
        if via == 'function':
            U, w = getattr(ed, 'get_%s_eigenpair' % c)(env.np.array([[float(x) for x in r] for r in mats[c]]), **args)
        else:
            U, w = sc.get_component_eigenpair(component=c, **args)
        if c == 'harmonic':
            want = sum([env.ite(x <= tol, 1, 0) for x in ws[c]])
        else:
            want = sum([env.ite(x > tol, 1, 0) for x in ws[c]])
        want = env.fork(want)
        check_pairs(env, c, U, w, mats[c], m, tol if c != 'harmonic' else None, tol if c == 'harmonic' else None, want)
        cnt += len(env.vec(w))
    if via == 'default':
        env.check('counts add up to the number of edges', cnt == m)


ROT = {  # rational orthogonal matrices
    1: [[1]],
    2: [[Fr(3, 5), Fr(-4, 5)], [Fr(4, 5), Fr(3, 5)]],
    3: [[Fr(2, 3), Fr(-2, 3), Fr(1, 3)], [Fr(1, 3), Fr(2, 3), Fr(2, 3)], [Fr(2, 3), Fr(1, 3), Fr(-2, 3)]],
    4: [[Fr(1, 2), Fr(1, 2), Fr(1, 2), Fr(1, 2)], [Fr(1, 2), Fr(-1, 2), Fr(1, 2), Fr(-1, 2)],
        [Fr(1, 2), Fr(1, 2), Fr(-1, 2), Fr(-1, 2)], [Fr(1, 2), Fr(-1, 2), Fr(-1, 2), Fr(1, 2)]],
}


def c17_spec(env, k, comp):
    """matrix with a symbolic spectrum"""
    w = [env.real('w%d' % i, 0, 6) for i in range(k)]
    for a, b in zip(w, w[1:]):
        env.assume(b - a >= 1e-3)
    tol = env.real('tol', 0, 6)
    env.assume(tol >= 1e-3)
    for x in w:
        env.assume(env.any(x - tol > 1e-6, tol - x > 1e-6))
    L, M = env.spectral(ROT[k], w)
    ed = env.load(ED)
    if comp == 'all':
        U, v = ed.get_eigendecomposition(M, tolerance=tol)
        v = env.vec(v)
        env.close('small eigenvalues are zero, the others unchanged', v, [env.ite(x < tol, 0, x) for x in w])
        U = env.mat(U)
        env.check('all eigenvectors', len(U) == k and all(len(r) == k for r in U))
        env.close('every column belongs to its own eigenvalue', mulm(L, U), [[U[i][j] * w[j] for j in range(k)] for i in range(k)])
        return
    U, v = getattr(ed, 'get_%s_eigenpair' % comp)(M, tolerance=tol)
    sel = [x for x in w if (env.fork(x <= tol) if comp == 'harmonic' else env.fork(x > tol))]
    env.close('eigenvalues selected', env.vec(v), sel)
    check_pairs(env, comp, U, v, L, k, None, None, len(sel))


@spec('C17', quick_s=200, thorough_s=600,
      bounds=dict(quick='every tolerance in (0,8] (1e-6 away from an eigenvalue) on 8 complexes up to 10 edges; symmetric matrices of size 1..3 with every '
                        'spectrum in [0,6] and every tolerance in [1e-3,6]; default tolerance on five complexes of 14 to 56 edges and one of 81 (eigenvalues from 0.0015 on)',
                  thorough='as quick with 16 complexes and matrices of size 4'),
      assumptions=['eigenvectors come from the linear algebra library (its contract is trusted and cross-checked on the sampled models)'])
def C17(tier):
    tops = ('tri', 'paw', 'house', 'path', 'disc', 'papermix', 'k4full', 'hole') + (ALL if tier == 'thorough' else ())
    for t in dict.fromkeys(tops):
        yield c17_top, dict(top=t, via='default')
        yield c17_top, dict(top=t, via='given')
    for t in ('house', 'paw'):
        yield c17_top, dict(top=t, via='function')
    for t in LONG + (BIG, WIRE):
        yield c17_top, dict(top=t, via='default')
    for k in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for c in COMPS + ('all',):
            yield c17_spec, dict(k=k, comp=c)


# ----------------------------------------------------------------- C18
def c18(env, top):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    low, up = lap_LU(n, E, T)
    hw = const_eigvals(addm(low, up))
    dims = component_dims(n, E, T)
    cheb = env.cls('pytspl.filters.chebyshev_filter_design.ChebyshevFilterDesign')(sc)
    masks = {c: env.vec(cheb.get_component_coefficients(component=c)) for c in COMPS}
    for c in COMPS:
        env.check('%s mask has one entry per position' % c, len(masks[c]) == m)
        env.check('%s mask is 0/1' % c, all(x == 0 or x == 1 for x in masks[c]), lambda: repr(masks[c]))
        env.check('%s mask marks its dimension' % c, sum(masks[c]) == dims[c], lambda: '%s %s' % (masks[c], dims))
    env.close('masks are disjoint and cover everything', [sum(x) for x in zip(*masks.values())], [1] * m)
    # the marked positions carry the eigenvalues of the component
    ev = dict(gradient=[x for x in const_eigvals(low) if x > 1e-3], curl=[x for x in const_eigvals(up) if x > 1e-3], harmonic=[0.0] * dims['harmonic'])
    for c in COMPS:
        env.close('%s: marked eigenvalues' % c, sorted(h for h, k in zip(hw, masks[c]) if k == 1), ev[c])
    # ideal operator of arbitrary coefficients
    if any(abs(a - b) < 1e-3 for a, b in zip(hw, hw[1:])):
        # repeated eigenvalues: coefficients constant on each eigenspace
        a = []
        for i, x in enumerate(hw):
            a.append(a[-1] if i and abs(x - hw[i - 1]) < 1e-3 else env.real('a%d' % i, -4, 4))
    else:
        a = [env.real('a%d' % i, -4, 4) for i in range(m)]
    H = env.mat(cheb.get_ideal_frequency(component_coeffs=env.np.array(a)))
    import numpy
    L = numpy.array([[float(x) for x in r] for r in addm(low, up)])
    w, U = numpy.linalg.eigh(L)
    env.close('ideal operator is U diag(mask) U\'', H, [[dot([float(U[i][k] * U[j][k]) for k in range(m)], a) for j in range(m)] for i in range(m)])
    f = env.flow('f', m)
    Hh = env.mat(cheb.get_ideal_frequency(component_coeffs=cheb.get_component_coefficients(component='harmonic')))
    env.close('harmonic mask gives the exact harmonic component', mulv(Hh, env.vec(f)),
              frmul(env, hodge_projectors(n, E, T)['harmonic'], env.vec(f)))


@spec('C18', quick_s=200, thorough_s=600,
      bounds=dict(quick='10 complexes up to 10 edges; symbolic mask coefficients in [-4,4] and flows in [-8,8]; five complexes of 14 to 56 edges and one of 81 (eigenvalues from 0.0015 on)', thorough='all 19 complexes of the family'))
def C18(tier):
    tops = ('tri', 'hole', 'paw', 'path', 'diamond', 'house', 'disc', 'papermix', 'k4one', 'edge')
    for t in (tops + LONG if tier == 'quick' else TOPO):
        yield c18, dict(top=t)
    for t in (BIG, WIRE):
        yield c18, dict(top=t)


# ----------------------------------------------------------------- C19
def c19(env, top):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    dims = component_dims(n, E, T)
    P = hodge_projectors(n, E, T)
    f, g = env.flow('f', m), env.flow('g', m)
    al = env.real('alpha', -4, 4)
    emb = sc.get_simplicial_embeddings(f)
    env.check('three embeddings', len(emb) == 3)
    embg = sc.get_simplicial_embeddings(g)
    embs = sc.get_simplicial_embeddings(f * al + g)
    for i, c in enumerate(('harmonic', 'curl', 'gradient')):
        x = env.vec(emb[i])
        env.check('%s embedding has its dimension' % c, len(x) == dims[c], lambda: '%d %s' % (len(x), dims))
        if len(x) != dims[c]:
            continue
        env.close('%s embedding is linear' % c, embs[i], [al * p + q for p, q in zip(x, env.vec(embg[i]))])
        U, w = sc.get_component_eigenpair(component=c)
        U = env.mat(U)
        env.close('%s embedding: coordinates in the eigenvectors' % c, x, mulv(tr(U, len(x)), env.vec(f)))
        # same norm as the exact component (polarised, so that it is linear in each flow)
        y = env.vec(embg[i])
        fl, gl = env.vec(f), env.vec(g)
        env.close('%s embedding has the norm of the component' % c, dot(x, y) + 0, dot(fl, frmul(env, P[c], gl)) + 0, 1e-6 * env.scale)
    L0 = addm([[0] * n for _ in range(n)], [[(sum(1 for u, v in E if i in (u, v)) if i == j else -int((i, j) in E or (j, i) in E))
                                              for j in range(n)] for i in range(n)])
    env.close('total variance is the spectrum of the node Laplacian', [v * env.scale for v in env.vec(sc.get_total_variance())],
              [v * env.scale for v in const_eigvals(L0)])
    if env.scale != 1:
        return
    env.close('total variance of a given Laplacian', sorted(env.vec(env.load(ED).get_total_variance(env.np.array([[float(x) for x in r] for r in L0])))),
              const_eigvals(L0))


def c19_tv(env, k):
    w = [env.real('w%d' % i, 0, 6) for i in range(k)]
    for a, b in zip(w, w[1:]):
        env.assume(b - a >= 1e-3)
    L, M = env.spectral(ROT[k], w)
    env.close('total variance is the spectrum', env.load(ED).get_total_variance(M), w)


@spec('C19', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] on 10 complexes up to 10 edges; node Laplacians with a symbolic spectrum of size up to 3; integer flows; flows in units of 2^-40 and 2^30; five complexes of 14 to 56 edges and one of 81 (eigenvalues from 0.0015 on)',
                  thorough='all 19 complexes of the family'))
def C19(tier):
    tops = ('tri', 'hole', 'paw', 'path', 'diamond', 'house', 'disc', 'papermix', 'k4one', 'edge')
    for t in (tops + LONG if tier == 'quick' else TOPO):
        yield c19, dict(top=t)
    for t in (BIG, WIRE):
        yield c19, dict(top=t)
    for s in (TINY, HUGE):
        yield c19, dict(top='house', _scale=s)
    yield c19, dict(top='house', _ints=True)
    for k in (1, 2, 3):
        yield c19_tv, dict(k=k)
