"""C26-C29: simplicial trend filters."""
from .registry import spec
from .common import *

STF = 'pytspl.filters.simplicial_trend_filter.SimplicialTrendFilter'


def shift(n, E, T, comp, k):
    m = len(E)
    if comp == 'divergence':
        B, L = conc_B1(n, E), lap_LU(n, E, T)[0]
    else:
        B, L = tr(conc_B2(E, T), len(T)), lap_LU(n, E, T)[1]
    X = eye_(m)
    for _ in range((k + 1) // 2):
        X = mulm(X, L)
    return X if k % 2 else mulm(B, X)


# ----------------------------------------------------------------- C26
def c26(env, top, comp):
    n, pairs, T = complex_of(top)
    E = orient_fork(env, pairs)
    m = len(E)
    sc = make_sc(env, n, E, T)
    o = env.cls(STF)(sc)
    f = env.flow('f', m)
    x = env.vec(f)
    d = mulv(conc_B1(n, E) if comp == 'divergence' else tr(conc_B2(E, T), len(T)), x)
    P = hodge_projectors(n, E, T)[dict(divergence='gradient', curl='curl')[comp]]
    free = [a - b for a, b in zip(x, frmul(env, P, x))]         # a flow without divergence (curl)
    for k in env.pick('order', [(0, 3), (1, 4), (2, 5), (6,), (7, 8), (9, 10)] + ([(16, 25)] if m < 5 else [])),:
        for q in k:
            S = o.get_shift_operator(component=comp, order=q)
            env.close('shift operator of order %d' % q, S, shift(n, E, T, comp, q))
            y = env.vec(S @ f)
            env.close('applied to a flow (order %d)' % q, y, mulv(shift(n, E, T, comp, q), x))
            env.close('vanishes without divergence or curl', env.vec(S @ env.np.array(free)), [0] * len(y), tol=1e-6 if q < 16 else 1)
            if q == 0:
                env.close('order 0 measures divergence or curl', y, d)
    r = env.pick('neg', [-1, -2, -7])
    env.raises('negative order refused', ValueError, o.get_shift_operator, comp, r)


@spec('C26', quick_s=200, thorough_s=600,
      bounds=dict(quick='orders 0..10 (up to 4 edges also 16 and 25), both components, flows in [-8,8], 5 complexes up to 6 edges (every stored direction up to 5 edges)',
                  thorough='9 complexes up to 10 edges'))
def C26(tier):
    for t in ('tri', 'paw', 'diamond2', 'path', 'disc') + (('house', 'k4full', 'k4one', 'bowtie', 'wheel') if tier == 'thorough' else ()):
        for c in ('divergence', 'curl'):
            if c == 'curl' and not complex_of(t)[2]:
                continue
            yield c26, dict(top=t, comp=c)


# ------------------------------------------------------------ C27, C28, C29
def noise(env, flow, snrs, m, R):
    """noisy flow of every level and realisation"""
    out = {}
    x = env.vec(flow)
    nrm = env.sqrt(sum(a * a for a in x))
    k = 0
    for i, db in enumerate(snrs):
        p = nrm / (10 ** (db / 10)) / m
        for j in range(R):
            r = [env.noise(k + e) for e in range(m)]
            k += m
            out[i, j] = [a + p * b for a, b in zip(x, r)]
    return out


def nontrivial(env, flow):
    x = env.vec(flow)
    env.assume(sum(a * a for a in x) >= 1)


def cases(env, top, comp):
    n, E, T = complex_of(top)
    sc = make_sc(env, n, E, T)
    f = env.flow('f', len(E))
    nontrivial(env, f)
    return n, E, T, len(E), sc, f


def column(h, env, i, j):
    fr = h['frequency_responses']
    return env.vec(fr[:, i, j])


def c27(env, top, comp, snrs, R, mu):
    n, E, T, m, sc, f = cases(env, top, comp)
    o = env.cls(STF)(sc)
    kw = {} if mu is None else dict(mu=env.real('mu', 0, 8) if mu == 'any' else mu)
    o.denoising_l2_regularizer(flow=f, component=comp, num_realizations=R, snr_db=env.np.array([float(x) for x in snrs]), **kw)
    h = o.history
    mu = kw.get('mu', 0.5)
    L = lap_LU(n, E, T)[0 if comp == 'divergence' else 1]
    M = [[(1 if i == j else 0) + mu * L[i][j] for j in range(m)] for i in range(m)]
    env.check('one estimate per edge, level and realisation', tuple(h['frequency_responses'].shape) == (m, len(snrs), R))
    ns = noise(env, f, snrs, m, R)
    for (i, j), y in ns.items():
        env.close('estimate solves (I + mu L) x = noisy flow', mulv(M, column(h, env, i, j)), y)
    env.close('filter is the inverse of I + mu L', mulm(M, env.mat(h['filter'])), eye_(m))


def c27_refuse(env, top, how):
    n, E, T, m, sc, f = cases(env, top, 'curl')
    o = env.cls(STF)(sc)
    c = env.pick('component', ['gradient', 'harmonic', 'Curl', '', 'div'])
    if how == 'l2':
        env.raises('other components refused', ValueError, o.denoising_l2_regularizer, flow=f, component=c, num_realizations=1, snr_db=env.np.array([1.0]))
    elif how == 'l1':
        env.raises('other components refused', ValueError, o.denoising_l1_regularizer, flow=f, component=c, num_realizations=1, snr_db=env.np.array([1.0]))
    else:
        env.raises('other components refused', ValueError, o.interpolation_l1_regularizer, flow=f, component=c, ratio=[0.5], num_realizations=1)


@spec('C27', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] of norm >= 1, noise samples in [-5,5], level lists (1..3 levels), 1..2 realisations, mu in {default, 0, 0.5, 2, 500} and any mu in '
                        '[0,8], levels from -30 to 40 dB, both components, 4 complexes up to 5 edges and one of 14; integer flows; more realisations than levels', thorough='8 complexes up to 8 edges, 3 realisations'))
def C27(tier):
    tops = ('paw', 'tri', 'diamond', 'disc') + (('house', 'k4one', 'bowtie', 'wheel') if tier == 'thorough' else ())
    for t in tops:
        for c in ('divergence', 'curl'):
            yield c27, dict(top=t, comp=c, snrs=(0, 10), R=2, mu=None), dict(query_ms=2500)
            yield c27, dict(top=t, comp=c, snrs=(-10, 5, 20), R=1 if tier == 'quick' else 3, mu=2.0), dict(query_ms=2500)
    for c in ('divergence', 'curl'):
        yield c27, dict(top='tri', comp=c, snrs=(3,), R=1, mu='any'), dict(query_ms=2500)
        yield c27, dict(top='tri', comp=c, snrs=(-5, 10), R=3, mu=1.0), dict(query_ms=2500)
    yield c27, dict(top='paw', comp='curl', snrs=(3,), R=1, mu='any'), dict(query_ms=2500)
    yield c27, dict(top='tri', comp='divergence', snrs=(40, -30, 2.5, 2.5), R=1, mu=0), dict(query_ms=2500)
    yield c27, dict(top='tri', comp='curl', snrs=(-2.5,), R=5, mu=0.0), dict(query_ms=2500)
    yield c27, dict(top='paw', comp='divergence', snrs=(1,), R=1, mu=500), dict(query_ms=2500)
    yield c27, dict(top='near', comp='curl', snrs=(1,), R=1, mu=0.75), dict(query_ms=2500)
    for c in ('divergence', 'curl'):
        yield c27, dict(top='tri', comp=c, snrs=(0, 10), R=1, mu=None, _ints=True), dict(query_ms=2500)
    yield c27_refuse, dict(top='paw', how='l2')


def c28_denoise(env, top, comp, order, snrs, R, reg):
    n, E, T, m, sc, f = cases(env, top, comp)
    o = env.cls(STF)(sc)
    env.capture_cvxpy()
    kw = {}
    if reg is not None:
        kw['regularization'] = 0 if reg == 'none' else env.real('reg', 0, 8)
    if order is not None:
        kw['order'] = order
    o.denoising_l1_regularizer(flow=f, component=comp, num_realizations=R, snr_db=env.np.array([float(x) for x in snrs]), **kw)
    h = o.history
    reg, order = kw.get('regularization', 0.5), order or 0
    S = shift(n, E, T, comp, order)
    ns = noise(env, f, snrs, m, R)
    probs = env.cp_log
    if not env.check_len('one problem per level and realisation', probs, len(ns)):
        return
    x = env.reals('x', m)
    for p, (i, j) in zip(probs, sorted(ns)):
        y = ns[i, j]
        want = env.sqrt(sum((a - b) * (a - b) for a, b in zip(y, x))) + reg * sum(env.abs(v) for v in mulv(S, x))
        env.close('objective', p.obj_at(env.np.array(x)), want)
        env.check('denoising is unconstrained', len(p.residuals_at(env.np.array(x))) == 0)
        env.close('recorded estimate is the minimiser of its own problem', column(h, env, i, j), env.vec(p.solution()))


def c28_interp(env, top, comp, order, ratios, R, reg):
    n, E, T, m, sc, f = cases(env, top, comp)
    o = env.cls(STF)(sc)
    env.capture_cvxpy()
    kw = {}
    if reg is not None:
        kw['regularization'] = 0 if reg == 'none' else env.real('reg', 0, 8)
    if order is not None:
        kw['order'] = order
    d0 = env.drawn()
    o.interpolation_l1_regularizer(flow=f, component=comp, ratio=list(ratios), num_realizations=R, **kw)
    h = o.history
    reg, order = kw.get('regularization', 0.5), order or 0
    S = shift(n, E, T, comp, order)
    probs = env.cp_log
    if not env.check_len('one problem per ratio and realisation', probs, len(ratios) * R):
        return
    fl = env.vec(f)
    x = env.reals('x', m)
    counts = [int(m * r) for r in ratios]
    env.check('observed edges drawn anew for every realisation', env.drawn() == d0 or env.drawn() - d0 >= sum(counts) * R)
    for q, p in enumerate(probs):
        i, j = divmod(q, R)
        # which edges are pinned by the constraints
        base = p.residuals_at(env.np.array(fl))
        env.close('constraints hold for the given flow', [v for o_, v in base], [0] * len(base))
        env.check('constraints are equations', all(o_ == '==' for o_, v in base))
        obs = []
        for e in range(m):
            bumped = [v + (1 if a == e else 0) for a, v in enumerate(fl)]
            obs.append(env.any([env.any(v > 0.5, v < -0.5) for o_, v in p.residuals_at(env.np.array(bumped))]))
        env.check('exactly the floor of ratio times edges is observed', sum(env.ite(b, 1, 0) for b in obs) == counts[i],
                  lambda: '%r for %d' % (obs, counts[i]))
        # no other constraint
        mixed = [env.ite(b, v, w) for b, v, w in zip(obs, fl, x)]
        res = p.residuals_at(env.np.array(mixed))
        env.close('other edges are free', [v for o_, v in res], [0] * len(res))
        masked = [env.ite(b, v, 0) for b, v in zip(obs, fl)]
        want = env.sqrt(sum((a - b) * (a - b) for a, b in zip(masked, x))) + reg * sum(env.abs(v) for v in mulv(S, x))
        env.close('objective', p.obj_at(env.np.array(x)), want)
        col = column(h, env, i, j)
        env.close('recorded estimate is the minimiser of its own problem', col, env.vec(p.solution()))
        for b, a, v in zip(obs, col, fl):
            env.check('recorded flow equals the given flow on observed edges', env.implies(b, env.all(a - v <= 1e-4, v - a <= 1e-4)))


@spec('C28', preload=['cvxpy', 'scipy.stats'], quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] of norm >= 1, noise in [-5,5], any weight in [0,8] and the default, orders 0..3 (and 7), ratios from 0 to 1, any evaluation point in [-8,8]^m, '
                        'every sampling mask, 3 complexes up to 5 edges; integer flows', thorough='6 complexes up to 6 edges, orders 0..5'),
      assumptions=['the convex solver returns the minimiser of the problem handed to it'])
def C28(tier):
    tops = ('paw', 'tri') + (('diamond', 'disc', 'house', 'diamond2') if tier == 'thorough' else ())
    for t in tops:
        for c in ('divergence', 'curl'):
            for k, reg in ((None, None), (1, 1), (2, 1), (3, None)) + (((4, 1), (5, None)) if tier == 'thorough' else ()):
                yield c28_denoise, dict(top=t, comp=c, order=k, snrs=(0, 10), R=2, reg=reg)
    for t in ('tri', 'paw') + (('disc', 'diamond') if tier == 'thorough' else ()):
        for c in ('divergence', 'curl'):
            for k, reg, rs, R in ((None, None, (0.3, 0.8) if t == 'tri' or tier == 'thorough' else (0.5,), 1),
                                  (1, 1, (0.75,) if t == 'tri' or tier == 'thorough' else (0.3,), 2), (2, None, (0.4,), 1)):
                yield c28_interp, dict(top=t, comp=c, order=k, ratios=rs, R=R, reg=reg)
    yield c28_denoise, dict(top='tri', comp='curl', order=1, snrs=(0,), R=1, reg=1, _ints=True)
    yield c28_denoise, dict(top='tri', comp='divergence', order=7, snrs=(0,), R=1, reg='none')
    yield c28_denoise, dict(top='tri', comp='divergence', order=0, snrs=(-20, 20), R=3, reg=None)
    yield c28_interp, dict(top='tri', comp='divergence', order=7, ratios=(0.5,), R=1, reg=1)
    yield c28_interp, dict(top='tri', comp='divergence', order=0, ratios=(1.0, 0.0, 0.4, 0.4), R=1, reg='none')
    yield c28_interp, dict(top='tri', comp='curl', order=1, ratios=(0.5,), R=1, reg=1, _ints=True)
    for h in ('l1', 'interpolation'):
        yield c27_refuse, dict(top='paw', how=h)


def c29(env, top, comp, how, levels, R):
    n, E, T, m, sc, f = cases(env, top, comp)
    o = env.cls(STF)(sc)
    env.capture_cvxpy()
    fl = env.vec(f)
    mean = sum(fl) / m
    env.assume(sum((a - mean) * (a - mean) for a in fl) >= 1)
    if how == 'l2':
        o.denoising_l2_regularizer(flow=f, component=comp, num_realizations=R, snr_db=env.np.array([float(x) for x in levels]), mu=1.0)
    elif how == 'l1':
        o.denoising_l1_regularizer(flow=f, component=comp, num_realizations=R, snr_db=env.np.array([float(x) for x in levels]), order=1, regularization=0.25)
    else:
        o.interpolation_l1_regularizer(flow=f, component=comp, ratio=list(levels), num_realizations=R, order=0, regularization=0.25)
    h = o.history
    env.check('one estimate per edge, level and realisation', tuple(h['frequency_responses'].shape) == (m, len(levels), R))
    for k in ('errors', 'component_flow', 'correlations'):
        if not env.check_len('one value per level (%s)' % k, env.vec(h[k]), len(levels)):
            return
    B = conc_B1(n, E) if comp == 'divergence' else tr(conc_B2(E, T), len(T))
    T2 = env.sqrt(sum(a * a for a in fl))
    for i in range(len(levels)):
        er, cf, co = [], [], []
        for j in range(R):
            x = column(h, env, i, j)
            if how != 'l2':
                mx = sum(x) / m
                env.assume(sum((a - mx) * (a - mx) for a in x) >= 1)
            er.append(env.sqrt(sum((a - b) * (a - b) for a, b in zip(x, fl))) / T2)
            cf.append(env.sqrt(sum(a * a for a in mulv(B, x))))
            co.append(env.corr(fl, x))
        env.close('mean relative error of its own level', env.vec(h['errors'])[i], sum(er) / R, tol=1e-5)
        env.close('mean divergence or curl of its own level', env.vec(h['component_flow'])[i], sum(cf) / R, tol=1e-5)
        env.close('mean correlation of its own level', env.vec(h['correlations'])[i], sum(co) / R, tol=1e-5)


def c29_power(env, top, k):
    n, E, T = complex_of(top)
    sc = make_sc(env, n, E, T)
    f = env.flow('f', len(E))
    o = env.cls(STF)(sc)
    db = env.reals('db', k, -60, 60)
    p, snr = o.get_power_noise(flow=f, snr_db=env.np.array(db))
    nrm = env.sqrt(sum(a * a for a in env.vec(f)))
    lin = [env.pow(10, d / 10) for d in db]
    env.close('linear ratio', env.vec(snr), lin, tol=1e-7)
    env.close('noise power of its own level', env.vec(p), [nrm / s / len(E) for s in lin], tol=1e-7)


@spec('C29', preload=['cvxpy', 'scipy.stats'], quick_s=200, thorough_s=600,
      bounds=dict(quick='flows and estimates in [-8,8] with non-zero variance, noise in [-5,5], 2 levels, 2 realisations, all three procedures, 2 complexes up to 4 edges; '
                        'levels repeated and not ascending; any levels in [-60,60] dB for the noise power; integer flows; three realisations', thorough='5 complexes up to 6 edges, 3 levels, 3 realisations'))
def C29(tier):
    for t in ('paw', 'tri') + (('diamond', 'disc', 'house') if tier == 'thorough' else ()):
        for c in ('divergence', 'curl'):
            R = 2 if tier == 'quick' else 3
            yield c29, dict(top=t, comp=c, how='l2', levels=(0, 10), R=R)
            yield c29, dict(top=t, comp=c, how='l1', levels=(5, 10) if tier == 'quick' else (0, 5, 10), R=R)
            yield c29, dict(top=t, comp=c, how='int', levels=(0.2, 0.4) if tier == 'quick' else (0.4, 0.5), R=2)
    yield c29, dict(top='tri', comp='curl', how='l1', levels=(5,), R=3)
    yield c29, dict(top='path', comp='divergence', how='l2', levels=(5,), R=3)
    yield c29, dict(top='path', comp='divergence', how='int', levels=(0.7,), R=3)
    yield c29, dict(top='tri', comp='divergence', how='l2', levels=(5,), R=2, _ints=True)
    yield c29, dict(top='tri', comp='divergence', how='l2', levels=(10, -10, 10), R=1)
    yield c29, dict(top='path', comp='divergence', how='int', levels=(0.9, 0.4, 0.4), R=1)
    for t in ('tri', 'paw'):
        for k in (1, 3):
            yield c29_power, dict(top=t, k=k)
