"""C30-C33: Gaussian-process kernels and trainer."""
import itertools, math
import types as _types
import numpy as _n
from .registry import spec
from .common import *

FX = 'pytspl.hogde_gp.forex.'
KERNELS = dict(
    matern=(FX + 'matern.MaternKernelForex', ('kappa_down', 'kappa_up', 'kappa', 'mu', 'mu_down', 'mu_up', 'h', 'h_down', 'h_up')),
    matern_non_hc=(FX + 'matern_non_hc.MaternNonHCKernelForex', ('kappa_down', 'kappa_up', 'kappa', 'mu', 'mu_down', 'mu_up', 'h', 'h_down', 'h_up')),
    diffusion=(FX + 'diffusion.DiffusionKernelForex', ('kappa_down', 'kappa_up', 'h', 'h_down', 'h_up')),
    diffusion_non_hc=(FX + 'diffusion_non_hc.DiffusionNonHCKernelForex', ('kappa_down', 'kappa_up', 'h', 'h_down', 'h_up')),
    laplacian=(FX + 'laplacian.LaplacianKernelForex', ('kappa_down', 'kappa_up', 'mu')))
PRE = ['torch', 'gpytorch', 'sklearn.model_selection', 'torcheval.metrics.functional', 'scipy.stats']
TRN = 'pytspl.hogde_gp.hodge_gp_trainer.HodgeGPTrainer'


def matern(env, mu, kappa, lam):
    return env.pow(2 * mu / (kappa * kappa) + lam, -mu)


def weights(env, kind, p, vals):
    """(weight, spectral function) per component; vals: eigenvalues of harmonic, gradient, curl"""
    h, g, c = vals
    if kind == 'matern':
        return [(p['h'], [p['mu'] for x in h]), (p['h_down'], [matern(env, p['mu_down'], p['kappa_down'], x) for x in g]),
                (p['h_up'], [matern(env, p['mu_up'], p['kappa_up'], x) for x in c])]
    if kind == 'matern_non_hc':
        return [(1, [matern(env, p['mu_down'], p['kappa_down'], x) for x in l]) for l in (h, g, c)]
    if kind == 'diffusion':
        return [(p['h'], [env.exp(-x) for x in h]), (p['h_down'], [env.exp(-p['kappa_down'] * x) for x in g]),
                (p['h_up'], [env.exp(-p['kappa_up'] * x) for x in c])]
    if kind == 'diffusion_non_hc':
        return [(1, [env.exp(-x) for x in h]), (1, [env.exp(-p['kappa_down'] * x) for x in g]), (1, [env.exp(-p['kappa_down'] * x) for x in c])]
    return [(p['mu'], [1 / (0.001 + x) for x in h]), (p['kappa_down'], [1 / x for x in g]), (p['kappa_up'], [1 / x for x in c])]


def covariance(ws, vecs, i, j):
    r = 0
    for (w, gs), U in zip(ws, vecs):
        for k, g in enumerate(gs):
            r = r + w * U[i][k] * g * U[j][k]
    return r


def eigenpairs(env, n, dims, top=40):
    vecs = [[env.reals('u%d_%d_' % (c, i), d, -2, 2) for i in range(n)] for c, d in enumerate(dims)]
    vals = [[env.real('l%d_%d' % (c, k), 0 if c == 0 else 0.25, 0.01 if c == 0 else top) for k in range(d)] for c, d in enumerate(dims)]
    t = env.torch
    mk = lambda rows, d: t.tensor(env.np.array(rows) if d else env.np.zeros((n, 0)), dtype=t.float32)
    mkv = lambda l: t.tensor(env.np.array(l), dtype=t.float32)
    return vecs, vals, [mk(v, d) for v, d in zip(vecs, dims)] + [mkv(l) for l in vals]


def params(env, kind):
    p = {}
    for n in KERNELS[kind][1]:
        lo, hi = {'k': (0.5, 2), 'm': (0.25, 2.5), 'h': (0.125, 4)}[n[0]]
        p[n] = env.real('p_' + n, lo, hi)
    return p


def c30(env, kind, n, dims):
    vecs, vals, ep = eigenpairs(env, n, dims)
    k = env.cls(KERNELS[kind][0])(ep)
    p = params(env, kind)
    for q, v in p.items():
        setattr(k, q, v)
    ws = weights(env, kind, p, vals)
    t = env.torch
    how = env.pick('indices', ['all', 'some', 'column', 'none', 'diag', 'diagnone', 'diagcross'])
    x1 = list(range(n)) if how in ('all', 'diag') else [n - 1, 0, n - 1]
    x2 = [0] if how == 'some' else [n - 1, 0] if how == 'column' else x1[1:] + x1[:1] if how == 'diagcross' else x1
    a1, a2 = t.tensor(x1), t.tensor(x2)
    if how in ('column', 'some'):
        a1, a2 = a1.unsqueeze(-1), a2.unsqueeze(-1)
    if how in ('none', 'diagnone'):
        a2 = None
    args = (a1,) if a2 is None else (a1, a2)
    if how.startswith('diag'):
        K = k.forward(*args, diag=True)
        env.close('diagonal option', K, [covariance(ws, vecs, i, j) for i, j in zip(x1, x2)], tol=1e-4)
        return
    K = k.forward(*args)
    env.close('covariance', K, [[covariance(ws, vecs, i, j) for j in x2] for i in x1], tol=1e-4)
    if how == 'all':
        M = env.mat(K)
        env.close('symmetric', M, tr(M), tol=1e-4)


def c30_positive(env, kind):
    """one eigenpair per component: the diagonal is not negative"""
    vecs, vals, ep = eigenpairs(env, 2, (1, 1, 1))
    k = env.cls(KERNELS[kind][0])(ep)
    p = params(env, kind)
    for q, v in p.items():
        setattr(k, q, v)
    d = env.vec(k.forward(env.torch.tensor([0, 1]), diag=True))
    for x in d:
        env.check('diagonal not negative', x >= (-1e-4 if env.real_mode else 0))


@spec('C30', quick_s=200, thorough_s=600, preload=PRE,
      bounds=dict(quick='any eigenvectors in [-2,2] and eigenvalues (harmonic [0,0.01], others [0.25,40]); up to 3 edges and 2 eigenpairs per component, including none; '
                        'kappa in [0.5,2], mu in [0.25,2.5], weights in [0.125,4]; 7 index patterns; all kernels',
                  thorough='up to 4 edges and 3 eigenpairs per component'))
def C30(tier):
    for kind in KERNELS:
        for n, d in ((3, (1, 2, 1)), (3, (2, 1, 2)), (2, (0, 1, 0)), (2, (1, 0, 2))) + (((4, (3, 2, 3)), (3, (0, 3, 1)), (4, (1, 3, 2))) if tier == 'thorough' else ()):
            yield c30, dict(kind=kind, n=n, dims=d)
        yield c30_positive, dict(kind=kind)


# ----------------------------------------------------------------- C31
def c31(env, kind, steps):
    vecs, vals, ep = eigenpairs(env, 2, (1, 1, 1))
    k = env.cls(KERNELS[kind][0])(ep)
    names = KERNELS[kind][1]
    t = env.torch
    first = env.vec(getattr(k, names[0]))[0]
    env.check('positive from the start', first > 0)
    cur = {}
    for q in names:
        env.close('all start at the same value', env.vec(getattr(k, q)), [first], tol=1e-5)
        cur[q] = first
    for s in range(steps):
        q = env.pick('which%d' % s, names)
        v = env.real('v%d' % s, 2.0 ** -8, 1024)
        how = env.pick('how%d' % s, ['number', 'tensor'] if s else ['number', 'tensor', 'matrix'])
        setattr(k, q, v if how == 'number' else t.tensor(v) if how == 'tensor' else t.tensor([[v]]))
        cur[q] = v
        for r in names:
            got = env.vec(getattr(k, r))
            env.close('assigned value' if r == q else 'others keep their value', got, [cur[r]], tol=1e-4)
            env.check('positive', got[0] > 0)
            env.check('to a relative accuracy', env.all(got[0] - cur[r] <= 1e-4 * cur[r], cur[r] - got[0] <= 1e-4 * cur[r]))
    if kind != 'laplacian':
        env.check('parameters keep their shape', tuple(getattr(k, names[0]).shape) == (1, 1))


def c31_serial(env, kind):
    n = 2
    vecs, vals, ep = eigenpairs(env, n, (1, 2, 1))
    k = env.cls('pytspl.hogde_gp.kernel_serializer.KernelSerializer')().serialize(eigenpairs=ep, kernel_type=kind, data_name='forex')
    env.check('requested type', type(k) is env.cls(KERNELS[kind][0]), lambda: type(k).__name__)
    p = {q: env.real('p_' + q, 0.5, 2) for q in KERNELS[kind][1]}
    for q, v in p.items():
        setattr(k, q, v)
    for q, v in p.items():
        env.close('parameters of the kernel', env.vec(getattr(k, q)), [v], tol=1e-4)
    ws = weights(env, kind, p, vals)
    K = k.forward(env.torch.tensor([0, 1]), env.torch.tensor([1, 0]))
    env.close('eigenpairs in their order', K, [[covariance(ws, vecs, i, j) for j in (1, 0)] for i in (0, 1)], tol=1e-4)


@spec('C31', quick_s=200, thorough_s=600, preload=PRE,
      bounds=dict(quick='all values in [2^-8,1024], every sequence of 2 assignments of any hyperparameter (numbers and tensors), all kernels; kernels requested by name with '
                        'any eigenpairs', thorough='every sequence of 3 assignments'))
def C31(tier):
    for kind in KERNELS:
        yield c31, dict(kind=kind, steps=2 if tier == 'quick' else 3)
        yield c31_serial, dict(kind=kind)


# ----------------------------------------------------------------- C32
def c32_split(env, top, ratio):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    y = env.flow('y', m)
    tr_ = env.cls(TRN)(sc, y)
    seed = env.int('seed', 0, 2 ** 32 - 1)
    kw = {} if ratio is None else dict(train_ratio=ratio)
    if env.fork(env.int('default_seed', 0, 1)):
        pass
    else:
        kw['seed'] = seed
    ratio = 0.8 if ratio is None else ratio
    out = tr_.train_test_split(**kw)
    check_split(env, out, y, m, ratio)
    # the same seed gives the same split, whatever else happened
    env.disturb_rng()
    again = env.cls(TRN)(make_sc(env, n, E, T), y).train_test_split(**kw)
    for a, b in zip(out, again):
        env.close('same seed, same split', a, b)
    third = tr_.train_test_split(**kw)
    for a, b in zip(out, third):
        env.close('same seed, same split on the same trainer', a, b)


def check_split(env, out, y, m, ratio):
    xtr, ytr, xte, yte, x, yy = [env.vec(v) for v in out]
    yl = env.vec(y)
    env.check('all edges', [int(v) for v in x] == list(range(m)), lambda: repr(x))
    env.close('all targets in order', yy, yl, tol=1e-5)
    env.check('partition of the edges', sorted(int(v) for v in xtr + xte) == list(range(m)), lambda: '%r %r' % (xtr, xte))
    env.check('requested fraction', abs(len(xtr) - ratio * m) < 1 and len(xtr) + len(xte) == m, lambda: '%d of %d' % (len(xtr), m))
    env.close('training targets belong to their edges', ytr, [yl[int(i)] for i in xtr], tol=1e-5)
    env.close('test targets belong to their edges', yte, [yl[int(i)] for i in xte], tol=1e-5)


def c32_sizes(env, m, ratio):
    """the requested fraction of more edges (one permutation)"""
    E = [(i, i + 1) for i in range(m)]
    y = env.flow('y', m)
    out = env.cls(TRN)(make_sc(env, m + 1, E, []), y).train_test_split(train_ratio=ratio, seed=env.int('seed', 0, 2 ** 32 - 1))
    check_split(env, out, y, m, ratio)


def standard(env, train, l):
    k = len(train)
    mean = sum(train) / k
    sd = env.sqrt(sum((a - mean) * (a - mean) for a in train) / (k - 1))
    return [(a - mean) / sd for a in l]


def c32_norm(env, k, j):
    sc, n, E, T = topo(env, 'paw')
    t = env.torch
    tr_ = env.cls(TRN)(sc, env.flow('y', len(E)))
    a, b, c = env.reals('a', k), env.reals('b', j), env.reals('c', k + j)
    mean = sum(a) / k
    env.assume(sum((v - mean) * (v - mean) for v in a) >= 1)
    got = tr_.normalize_data(y_train=t.tensor(env.np.array(a)), y_test=t.tensor(env.np.array(b)), y=t.tensor(env.np.array(c)))
    for name, g, l in zip(('training', 'test', 'all'), got, (a, b, c)):
        env.close('%s targets normalised with the training mean and deviation' % name, g, standard(env, a, l), tol=1e-4)


def c32_normsplit(env, top, ratio):
    n, E, T = complex_of(top)
    m = len(E)
    sc = make_sc(env, n, E, T)
    y = env.flow('y', m)
    yl = env.vec(y)
    out = env.cls(TRN)(sc, y).train_test_split(train_ratio=ratio, data_normalization=True, seed=3)
    xtr, ytr, xte, yte, x, yy = [env.vec(v) for v in out]
    tr_ = [yl[int(i)] for i in xtr]
    mean = sum(tr_) / len(tr_)
    env.assume(sum((v - mean) * (v - mean) for v in tr_) >= 1)
    for name, g, idx in zip(('training', 'test', 'all'), (ytr, yte, yy), (xtr, xte, range(m))):
        env.close('%s targets normalised with the training mean and deviation' % name, g, standard(env, tr_, [yl[int(i)] for i in idx]), tol=1e-4)


def c32_matrices(env, top):
    n, pairs, T = complex_of(top)
    E = orient_fork(env, pairs)
    sc = make_sc(env, n, E, T)
    tr_ = env.cls(TRN)(sc, env.flow('y', len(E)))
    low, up = lap_LU(n, E, T)
    got = tr_.get_laplacians()
    env.check('three Laplacians', len(got) == 3)
    for name, g, w in zip(('Hodge', 'lower', 'upper'), got, (addm(low, up), low, up)):
        env.close('%s Laplacian' % name, g, w)
    got = tr_.get_incidence_matrices()
    env.check('two incidence matrices', len(got) == 2)
    env.close('B1', got[0], conc_B1(n, E))
    if T:
        env.close('B2', got[1], conc_B2(E, T))


def c32_pairs(env, top, tol):
    sc, n, E, T = topo(env, top)
    m = len(E)
    tr_ = env.cls(TRN)(sc, env.flow('y', m))
    calls = []
    answers = {}
    dims = dict(harmonic=1, gradient=2, curl=3)
    for c, d in dims.items():
        answers[c] = ([env.reals('%s%d_' % (c, i), d, -1, 1) for i in range(m)], env.reals('l' + c, d, 0, 8))

    def record(component, tolerance=1e-3):
        calls.append((component, tolerance))
        v, w = answers[component]
        return env.np.array(v), env.np.array(w)
    env.setattr(sc, 'get_component_eigenpair', record)
    kw = {}
    if tol == 'given':
        kw['tolerance'] = env.real('tolerance', 1e-6, 0.5)
    got = tr_.get_eigenpairs(**kw)
    env.check('six arrays', len(got) == 6)
    for i, c in enumerate(('harmonic', 'gradient', 'curl')):
        env.close('%s eigenvectors' % c, got[i], answers[c][0], tol=1e-5)
        env.close('%s eigenvalues' % c, got[3 + i], answers[c][1], tol=1e-5)
    for c, t in calls:
        env.close('tolerance passed on', t, kw.get('tolerance', 1e-3), tol=1e-9)


@spec('C32', quick_s=200, thorough_s=600, preload=PRE,
      bounds=dict(quick='targets in [-8,8] (training targets with positive variance), every permutation the splitter may draw for up to 5 edges, training ratios '
                        'default, 0.5, 0.6, 0.34 (and 8 further ratios with one permutation of 7 to 13 edges), any seed in 0..2^32-1, any tolerance, complexes up to 6 edges in every stored direction',
                  thorough='every permutation of up to 6 edges, 8 complexes'))
def C32(tier):
    for t in ('tri', 'paw', 'disc') + (('diamond', 'house') if tier == 'thorough' else ()):
        for r in (None, 0.5, 0.34):
            yield c32_split, dict(top=t, ratio=r)
    for m, r in ((10, 0.7), (10, 0.3), (10, 0.9), (10, 0.29), (7, 0.5), (8, 0.25), (9, 0.8), (13, 0.6)):
        yield c32_sizes, dict(m=m, ratio=r)
    for k, j in ((2, 1), (3, 2), (4, 1)):
        yield c32_norm, dict(k=k, j=j)
    for t, r in (('paw', 0.5), ('paw', 0.75), ('disc', 0.6)) + ((('diamond', 0.6),) if tier == 'thorough' else ()):
        yield c32_normsplit, dict(top=t, ratio=r)
    for t in ('tri', 'paw', 'diamond2') + (('house', 'k4one') if tier == 'thorough' else ()):
        yield c32_matrices, dict(top=t)
    for tol in ('given', 'default'):
        yield c32_pairs, dict(top='paw', tol=tol)


# ----------------------------------------------------------------- C33
NAMES = dict(raw_mu='mu', raw_mu_down='mu_down', raw_mu_up='mu_up', raw_kappa='kappa', raw_kappa_down='kappa_down', raw_kappa_up='kappa_up',
             raw_h='h', raw_h_down='h_down', raw_h_up='h_up')


def trained(env, sc, m, vals, noise, scale, trainer=None):
    t = env.torch
    tr_ = trainer or env.cls(TRN)(sc, env.flow('y', m))
    ep = tr_.get_eigenpairs()
    k = env.cls(KERNELS['matern'][0])(ep)
    lik = env.gpytorch.likelihoods.GaussianLikelihood()
    x, y = t.tensor(list(range(m))), t.tensor([0.5 * i for i in range(m)])
    model = env.cls('pytspl.hogde_gp.exact_gp.ExactGPModel')(x, y, lik, k, mean_function='zero')
    for q, v in vals.items():
        setattr(k, q, v)
    lik.noise = noise
    model.covar_module.outputscale = scale
    tr_.train(model, lik, x, y, training_iters=0)
    return tr_, model, lik, k


def c33_params(env, top):
    sc, n, E, T = topo(env, top)
    m = len(E)
    vals = {q: env.real('p_' + q, 2.0 ** -8, 256) for q in NAMES.values()}
    noise, scale = env.real('noise', 2.0 ** -8, 256), env.real('scale', 2.0 ** -8, 256)
    tr_, model, lik, k = trained(env, sc, m, vals, noise, scale)
    got = tr_.get_model_parameters()
    env.check('names of the parameters', set(got) == set(NAMES) | {'raw_noise', 'raw_outputscale'}, lambda: repr(sorted(got)))
    for r, q in NAMES.items():
        env.close('parameter %s' % q, got[r], vals[q], tol=1e-4)
    env.close('noise', got['raw_noise'], noise, tol=1e-4)
    env.close('output scale', got['raw_outputscale'], scale, tol=1e-4)
    # current values: changes after training are reported
    v = env.real('new', 2.0 ** -6, 100)
    k.kappa_up = v
    lik.noise = v + 1
    got = tr_.get_model_parameters()
    env.close('current value of a parameter', got['raw_kappa_up'], v, tol=1e-4)
    env.close('current value of the noise', got['raw_noise'], v + 1, tol=1e-4)
    env.close('other parameters unchanged', got['raw_kappa_down'], vals['kappa_down'], tol=1e-4)


def c33_kernel(env, top, symb):
    """symb: names of the symbolic hyperparameters, others have fixed distinct values"""
    sc, n, E, T = topo(env, top)
    m = len(E)
    low = 2.0 ** -34 if 'tiny' in symb else 0.5
    vals = {q: (env.real('p_' + q, low, 2.5) if q in symb else 0.75 + 0.125 * i) for i, q in enumerate(NAMES.values())}
    scale = env.real('scale', 2.0 ** -6, 64) if 'scale' in symb else 1.75
    tr_, model, lik, k = trained(env, sc, m, vals, 0.25, scale)
    K, var = tr_.build_matern_kernel()
    W = 0
    want = [[0] * m for _ in range(m)]
    for c, w in (('harmonic', 'h'), ('gradient', 'h_down'), ('curl', 'h_up')):
        V, L = sc.get_component_eigenpair(component=c)
        V, L = env.mat(V), env.vec(L)
        s = dict(h='', h_down='_down', h_up='_up')[w]
        for q, lam in enumerate(L):
            g = vals['mu'] if c == 'harmonic' else matern(env, vals['mu' + s], vals['kappa' + s], lam)
            for i in range(m):
                for j in range(m):
                    want[i][j] = want[i][j] + scale * vals[w] * g * V[i][q] * V[j][q]
    env.close('covariance of the trained model', K, want, tol=1e-4)
    d = [want[i][i] for i in range(m)]
    sh = env.shape(var)
    if sh == ():
        env.close('constant variance is reported as zero', var, 0)
        env.check('zero only when constant', env.all([env.all(a - d[0] <= 1e-3 * (1 + d[0]), d[0] - a <= 1e-3 * (1 + d[0])) for a in d[1:]]))
    else:
        env.close('variance is the diagonal', var, d, tol=1e-4)


def c33_refuse(env, top):
    sc, n, E, T = topo(env, top)
    m = len(E)
    tr_ = env.cls(TRN)(sc, env.flow('y', m))
    env.raises('parameters before training refused', ValueError, tr_.get_model_parameters)
    env.raises('covariance before training refused', ValueError, tr_.build_matern_kernel)
    vals = {q: 1.5 for q in NAMES.values()}
    trained(env, sc, m, vals, 0.25, 2.0, tr_)
    ok, p = env.runs('parameters after training', tr_.get_model_parameters)
    other = env.cls(TRN)(sc, env.flow('y', m))
    env.raises('another trainer is still refused', ValueError, other.get_model_parameters)
    env.raises('another trainer is still refused', ValueError, other.build_matern_kernel)


@spec('C33', quick_s=200, thorough_s=600, preload=PRE,
      bounds=dict(quick='any hyperparameters, noise and scale in [2^-8,256]; covariance with subsets of symbolic hyperparameters on 5 complexes up to 6 edges',
                  thorough='9 complexes up to 10 edges'),
      assumptions=['the optimiser is not part of the claim: a model with any parameter values counts as trained (training_iters=0)'])
def C33(tier):
    for t in ('paw', 'tri'):
        yield c33_params, dict(top=t)
        yield c33_refuse, dict(top=t)
    for t in ('paw', 'tri', 'diamond', 'hole', 'house') + (('k4one', 'disc', 'papermix', 'k4full') if tier == 'thorough' else ()):
        for sy in (('h', 'h_down', 'h_up', 'scale'), ('mu', 'mu_down'), ('mu_up', 'kappa_up'), ('kappa', 'kappa_down')):
            yield c33_kernel, dict(top=t, symb=sy), dict(query_ms=2500)
    for t in ('paw', 'house'):
        yield c33_kernel, dict(top=t, symb=('h', 'h_down', 'h_up', 'tiny')), dict(query_ms=2500)


# ----------------------------------------------------------------- C38
def descend(theta, xs, ys, lr, steps):
    for _ in range(steps):
        theta = theta - lr * sum([(theta * x - y) * x for x, y in zip(xs, ys)], 0 * theta)
    return theta


XS = [0.5, 1.0, -0.75, 0.25]


def toy_run(env, k):
    t = env.torch
    sc, n, E, T = topo(env, 'tri')
    trn = env.cls(TRN)(sc, env.flow('y', 3))
    th = env.real('theta', -2, 2)
    ys = env.reals('t', k, -2, 2)
    model, lik = env.toy(th)
    f = t.float32
    return trn, model, lik, th, ys, t.tensor(XS[:k], dtype=f), t.tensor(env.np.array(ys), dtype=f)


def c38_train(env, k, iters, lr):
    """gradient steps on the negative log-likelihood of the given data"""
    trn, model, lik, th, ys, x, y = toy_run(env, k)
    env.check('untrained before training', trn.model is None)
    trn.train(model, lik, x, y, training_iters=iters, learning_rate=lr, optimizer=env.torch.optim.SGD)
    env.close('parameter after the stated number of steps', model.value(), descend(th, XS, ys, lr, iters), tol=1e-3)
    env.check('the trained model is kept', trn.model is model)
    if iters:
        # a second run starts from the result of the first
        trn.train(model, lik, x, y, training_iters=1, learning_rate=lr, optimizer=env.torch.optim.SGD)
        env.close('training is continued', model.value(), descend(th, XS, ys, lr, iters + 1), tol=1e-3)


def c38_first(env, k, lr):
    """the default optimiser's first step moves by the learning rate against the gradient"""
    trn, model, lik, th, ys, x, y = toy_run(env, k)
    g = sum([(th * a - b) * a for a, b in zip(XS, ys)])
    env.assume(env.abs(g) >= 0.0625)
    kw = {} if lr is None else dict(learning_rate=lr)
    trn.train(model=model, likelihood=lik, x_train=x, y_train=y, training_iters=1, **kw)
    lr = 0.1 if lr is None else lr
    env.close('first step', model.value(), th - env.ite(g > 0, 1, -1) * lr, tol=1e-3)


def c38_resume(env, k, iters):
    """predicting in between does not change what is optimised"""
    trn, model, lik, th, ys, x, y = toy_run(env, k)
    opt = env.torch.optim.SGD
    first = env.fork(env.int('first', 0, 1))
    if first:
        trn.train(model, lik, x, y, training_iters=1, learning_rate=0.25, optimizer=opt)
    model.eval()
    lik.eval()
    trn.train(model, lik, x, y, training_iters=iters, learning_rate=0.25, optimizer=opt)
    env.close('training after a prediction', model.value(), descend(th, XS, ys, 0.25, iters + first), tol=1e-3)


def gram(env, sc, kind, vals, m):
    P = []
    for c in ('harmonic', 'gradient', 'curl'):
        V, L = sc.get_component_eigenpair(component=c)
        P.append(([[float(x) for x in r] for r in env.mat(V)], [float(x) for x in env.vec(L)]))
    ws = weights(_types.SimpleNamespace(pow=pow, exp=math.exp), kind, vals, [l for v, l in P])
    return _n.array([[covariance(ws, [v for v, l in P], i, j) for j in range(m)] for i in range(m)])


def gp_model(env, top, kind, split, mean, noise=0.25, scale=1.5):
    """trained model of the real classes with fixed hyperparameters and symbolic targets"""
    t = env.torch
    sc, n, E, T = topo(env, top)
    m = len(E)
    y = env.reals('y', m, -4, 4)
    trn = env.cls(TRN)(sc, env.np.array(y))
    k = env.cls(KERNELS[kind][0])(trn.get_eigenpairs())
    vals = {q: 0.75 + 0.125 * i for i, q in enumerate(KERNELS[kind][1])}
    for q, v in vals.items():
        setattr(k, q, v)
    tr, te = split
    f = t.float32
    x1, y1 = t.tensor([float(i) for i in tr], dtype=f), t.tensor(env.np.array([y[i] for i in tr]), dtype=f)
    x2, y2 = t.tensor([float(i) for i in te], dtype=f), t.tensor(env.np.array([y[i] for i in te]), dtype=f)
    lik = env.gpytorch.likelihoods.GaussianLikelihood()
    model = env.cls('pytspl.hogde_gp.exact_gp.ExactGPModel')(x1, y1, lik, k, **({} if mean == 'default' else dict(mean_function=mean)))
    mu = 0
    if mean != 'zero':
        mu = env.real('mean', -2, 2)
        model.mean_module.initialize(**{'raw_constant' if hasattr(model.mean_module, 'raw_constant') else 'constant': mu})
    lik.noise = noise
    model.covar_module.outputscale = scale
    trn.train(model, lik, x1, y1, training_iters=0)
    K = scale * gram(env, sc, kind, vals, m)
    return trn, model, lik, (x1, y1, x2, y2), y, mu, K


def posterior(K, noise, tr, te, y, mu):
    A = K[_n.ix_(tr, tr)] + noise * _n.eye(len(tr))
    W = K[_n.ix_(te, tr)] @ _n.linalg.inv(A)
    mean = [sum([float(W[a, b]) * (y[i] - mu) for b, i in enumerate(tr)], mu) for a in range(len(te))]
    cov = K[_n.ix_(te, te)] - W @ K[_n.ix_(tr, te)] + noise * _n.eye(len(te))
    return mean, cov


def c38_prior(env, top, kind, mean):
    """the model's distribution at the training inputs: its mean and output scale times the kernel"""
    m = len(complex_of(top)[1])
    idx = list(range(m))
    trn, model, lik, (x1, y1, x2, y2), y, mu, K = gp_model(env, top, kind, (idx[::-1], idx[:1]), mean)
    d = model(x1)
    env.close('prior mean', d.mean, [mu] * m, tol=1e-3)
    env.close('prior covariance is the scaled kernel', dense(d.covariance_matrix), K[::-1, ::-1].tolist(), tol=1e-3)
    l = lik(d)
    env.close('noise is added on the diagonal', dense(l.covariance_matrix), (K[::-1, ::-1] + 0.25 * _n.eye(m)).tolist(), tol=1e-3)


def dense(x):
    return x.detach() if hasattr(x, 'detach') else x


def c38_predict(env, top, kind, split, mean):
    """prediction is the posterior given the training data"""
    trn, model, lik, (x1, y1, x2, y2), y, mu, K = gp_model(env, top, kind, split, mean)
    with env.printed() as out:
        p = trn.predict(model, lik, x2, y2)
    tr, te = split
    want, cov = posterior(K, 0.25, tr, te, y, mu)
    env.close('predictive mean', p.mean, want, tol=1e-3)
    env.close('predictive covariance', dense(p.covariance_matrix), cov.tolist(), tol=2e-3)
    env.close('predictive variance', dense(p.variance), _n.diag(cov).tolist(), tol=2e-3)
    env.check('the model is not being trained afterwards', not model.training)
    # the reported scores compare the prediction with the test targets
    t = [y[i] for i in te]
    res = [a - b for a, b in zip(want, t)]
    k = len(te)
    mae, mse = sum([env.abs(r) for r in res]) / k, sum([r * r for r in res]) / k
    for line in out:
        if line.startswith('Test MAE:'):
            env.close('reported mean absolute error', env.number(line[9:]), mae, tol=1e-3)
        if line.startswith('Test MSE:'):
            env.close('reported mean squared error', env.number(line[9:]), mse, tol=1e-3)
        if line.startswith('Test R2:'):
            c = sum(t) / k
            tot = sum([(v - c) * (v - c) for v in t])
            env.assume(tot >= 1)
            got = env.number(line[8:])
            env.close('reported R2', got * tot, tot - sum([r * r for r in res]), tol=1e-3)
    # the test targets are only used for the scores
    if mean == 'zero':
        with env.printed():
            q = trn.predict(model, lik, x2, env.torch.tensor(env.np.array(env.reals('other', k, -4, 4)), dtype=env.torch.float32))
        env.close('the prediction does not depend on the test targets', q.mean, want, tol=1e-3)



@spec('C38', quick_s=200, thorough_s=600, preload=PRE,
      bounds=dict(quick='training: start values and targets in [-2,2], 1-4 training points, 0-5 steps, learning rates 0.1 to 2 (with rising loss) and the default, gradient descent and the '
                        'first step of the default optimiser; prediction: any targets in [-4,4] and constant mean in [-2,2], all five kernels at fixed hyperparameters, '
                        'train/test index sets (two or more test edges: the R2 score needs them) on complexes up to 6 edges',
                  thorough='6 steps; complexes up to 9 edges'),
      assumptions=['gpytorch and torch.optim are encoded by their documented meaning (ExactGP posterior, SGD, first Adam step); replays run the real libraries in single precision',
                   'the marginal likelihood in the training part is a sum of squares of a one-parameter model'])
def C38(tier):
    th = tier == 'thorough'
    for k, it, lr in ((1, 0, 0.1), (2, 1, 0.1), (3, 2, 0.25), (4, 4, 0.25), (2, 3, 0.5), (3, 5, 1.5), (4, 4, 2.0)) + (((4, 6, 0.125),) if th else ()):
        yield c38_train, dict(k=k, iters=it, lr=lr)
    for k, lr in ((1, None), (3, None), (2, 0.25)):
        yield c38_first, dict(k=k, lr=lr)
    for k, it in ((2, 1), (3, 3)):
        yield c38_resume, dict(k=k, iters=it)
    for kind in KERNELS:
        for mean in ('zero', 'constant'):
            yield c38_prior, dict(top='paw', kind=kind, mean=mean)
    yield c38_prior, dict(top='tri', kind='matern', mean='default')
    P = (('tri', ([2], [0, 1])), ('paw', ([3, 0], [2, 1])), ('diamond', ([4, 1, 0], [3, 2])), ('house', ([5, 0, 2, 3], [1, 4])))
    if th:
        P += (('k4one', ([1, 5, 2], [0, 4, 3])), ('disc', ([2, 0, 5, 1, 4], [3, 1])), ('papermix', ([0, 9, 4, 2, 6, 8], [1, 3, 5, 7])))
    for j, (t, s) in enumerate(P):
        for i, kind in enumerate(KERNELS):
            if th or (i + j) % 2 == 0 or kind == 'matern':
                yield c38_predict, dict(top=t, kind=kind, split=s, mean=('zero', 'constant')[(i + j // 2) % 2])
