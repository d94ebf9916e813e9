"""C42: what the operations print is what they computed."""
from .registry import spec
from .common import *
from .misc import DEN, LSF, GBF, CHB, STF, TRN, PRE
from .gp import toy_run, descend, XS
from .readers import dl_load
from .trend import noise


def lines(env, out, start):
    return [l for l in out if l.startswith(start)]


def value(env, line, label):
    i = line.find(label)
    if i < 0:
        return None
    return env.number(line[i + len(label):])


def reported(env, what, line, label, want, tol=0.5001e-4):
    v = value(env, line, label)
    env.check('%s is reported' % what, v is not None, lambda: line)
    if v is not None:
        tol += 1e-6 if env.real_mode else 0
        env.check('reported %s' % what, env.any(v == want, v == env.round(want, 4), env.abs(v - want) <= tol), lambda: '%s: %s' % (line, want))


def c42_denoise(env, top, p, k):
    n, E, T = complex_of(top)
    o = env.cls(DEN)(make_sc(env, n, E, T))
    f, ft = env.flow('f', len(E)), env.flow('t', len(E))
    env.assume(sum([a * a for a in env.vec(ft)]) >= 1)
    mus = [env.real('mu', 0, 4)] if k == 1 else [0.5, 2.0, 0.25][:k]
    with env.printed() as out:
        o.denoise(f, ft, p, mus)
    ls = lines(env, out, 'mu:')
    err = env.vec(o.history['extracted_component_error'])
    if env.check_len('a line per parameter', ls, k):
        for l, m, e in zip(ls, mus, err):
            reported(env, 'parameter', l, 'mu:', m, 1e-9)
            reported(env, 'error', l, 'error:', e)


def sizes(env, out, L, err):
    ls = lines(env, out, 'Filter size:')
    if not env.check_len('a line per filter size', ls, L):
        return
    for i, l in enumerate(ls):
        env.check('filter sizes in order', value(env, l, 'Filter size:') == i, lambda: l)
        reported(env, 'error', l, ' Error:', err[i])


def c42_sizes(env, top, how, p, L):
    n, E, T = complex_of(top)
    sc = make_sc(env, n, E, T)
    f, ft = env.flow('f', len(E)), env.flow('t', len(E))
    env.assume(sum([a * a for a in env.vec(ft)]) >= 1)
    o = env.cls(GBF if how.startswith('grid') else LSF)(sc)
    comp = {'L1': 'harmonic', 'L1L': 'gradient', 'L1U': 'curl'}[p]
    with env.printed() as out:
        if how == 'grid_denoise':
            o.denoise(f=f, f_true=ft, p_choice=p, L=L, mu=0.5)
        elif how == 'grid_sub':
            o.subcomponent_extraction(f=f, component=comp, p_choice=p, L=L, num_of_samples=6)
        elif how == 'ls_one':
            o.subcomponent_extraction_type_one(f=f, component=comp, L=L)
        else:
            o.subcomponent_extraction_type_two(f=f, component=comp, L=L)
    sizes(env, out, L, env.vec(o.history['extracted_component_error']))


def c42_cheb(env, top, p, comp, L):
    n, E, T = complex_of(top)
    o = env.cls(CHB)(make_sc(env, n, E, T))
    f = env.flow('f', len(E))
    with env.printed() as out:
        o.apply(f=f, p_choice=p, component=comp, L=L, n=L)
    h = o.history
    ls = lines(env, out, 'Filter size:')
    if env.check_len('a line per filter size', ls, L):
        for i, l in enumerate(ls):
            env.check('filter sizes in order', value(env, l, 'Filter size:') == i, lambda: l)
            reported(env, 'error', l, '- Error:', env.vec(h['extracted_component_error'])[i])
            reported(env, 'filter error', l, 'Filter error:', env.vec(h['filter_error'])[i])


def c42_trend(env, how, comp, levels, R):
    n, E, T = TOPO['tri']
    m = len(E)
    o = env.cls(STF)(make_sc(env, n, E, T))
    env.capture_cvxpy()
    f = env.np.array([1.5, -2.25, 0.5])
    x = [1.5, -2.25, 0.5]
    with env.printed() as out:
        if how == 'interp':
            o.interpolation_l1_regularizer(flow=f, component=comp, ratio=list(levels), num_realizations=R)
        else:
            getattr(o, 'denoising_%s_regularizer' % how)(flow=f, component=comp, num_realizations=R, snr_db=env.np.array([float(v) for v in levels]))
    h = o.history
    ls = lines(env, out, 'Ratio:' if how == 'interp' else 'SNR:')
    if not env.check_len('a line per level', ls, len(levels)):
        return
    err, cor = env.vec(h['errors']), env.vec(h['correlations'])
    ns = noise(env, f, levels, m, R) if how == 'l2' else None
    for i, (l, v) in enumerate(zip(ls, levels)):
        reported(env, 'level', l, 'Ratio:' if how == 'interp' else 'SNR:', v)
        reported(env, 'error', l, dict(l2='l2 error:', l1='l1 error:', interp='error:')[how], err[i])
        reported(env, 'correlation', l, 'corr:', cor[i])
        if ns:
            nrm = env.sqrt(sum(a * a for a in x))
            want = sum(env.sqrt(sum((a - b) * (a - b) for a, b in zip(ns[i, j], x))) / nrm for j in range(R)) / R
            reported(env, 'error of the noisy flow', l, 'error noisy:', want)


def c42_train(env, k, iters, lr):
    trn, model, lik, th, ys, x, y = toy_run(env, k)
    with env.printed() as out:
        trn.train(model, lik, x, y, training_iters=iters, learning_rate=lr, optimizer=env.torch.optim.SGD)
    ls = lines(env, out, 'Iteration')
    if not env.check_len('a line per iteration', ls, iters):
        return
    for i, l in enumerate(ls):
        env.check('iterations are counted from one', value(env, l, 'Iteration') == i + 1 and value(env, l, '/') == iters, lambda: l)
        t = descend(th, XS, ys, lr, i)
        reported(env, 'loss before the step', l, 'Loss:', loss(t, ys), 1e-3 if env.real_mode else 0.5001e-3)


def loss(t, ys):
    return sum((t * a - b) * (t * a - b) for a, b in zip(XS, ys)) / 2


def c42_summary(env, top):
    n, E, T = complex_of(top)
    sc = make_sc(env, n, E, T)
    with env.printed() as out:
        sc.print_summary()
    count(env, out, n, E, T)


def count(env, out, n, E, T):
    for label, w in (('Num. of nodes:', n), ('Num. of edges:', len(E)), ('Num. of triangles:', len(T))):
        ls = lines(env, out, label)
        if env.check_len('%s reported once' % label, ls, 1):
            env.check('%s is right' % label, value(env, ls[0], label) == w, lambda: ls[0])
    ls = lines(env, out, 'Shape:')
    if env.check_len('shape reported once', ls, 1):
        env.check('shape is right', ls[0].split(':')[1].strip() == repr((n, len(E), len(T))), lambda: ls[0])
    ls = lines(env, out, 'Max Dimension:')
    if env.check_len('dimension reported once', ls, 1):
        env.check('dimension is right', value(env, ls[0], 'Max Dimension:') == 2, lambda: ls[0])


def c42_dataset(env, extra):
    D = 'data/paper_data/'
    E = [(0, 1), (0, 2), (1, 2), (2, 3)] + ([(3, 4)] if extra else [])
    nn = 4 + extra
    env.table(['Source', 'Target', 'Distance'], [[u, v, env.real('d%d' % j, 0, 9)] for j, (u, v) in enumerate(E)], sep=' ', rel=D + 'edges.csv')
    env.table(['Id', 'X', 'Y'], [[i, env.real('x%d' % i), 0.5] for i in range(nn)], sep=' ', rel=D + 'coordinates.csv')
    p = env.table(['f'], [[env.real('f%d' % j)] for j in range(len(E))], header=False, rel=D + 'flow.csv')
    with env.printed() as out:
        dl_load(env, 'paper', ('paper_loader', 'load_paper_data'), 'dataset')
    env.assume(env.touched(p))
    count(env, out, nn, E, [(0, 1, 2)])
    for label, w in (('Coordinates:', nn), ('Flow:', len(E))):
        ls = lines(env, out, label)
        if env.check_len('%s reported once' % label, ls, 1):
            env.check('%s is right' % label, value(env, ls[0], label) == w, lambda: ls[0])


def c42_gpshapes(env, top, ratio):
    n, E, T = complex_of(top)
    m = len(E)
    t = env.cls(TRN)(make_sc(env, n, E, T), env.np.array([0.5 + 1.25 * i for i in range(m)]))
    with env.printed() as out:
        t.get_laplacians()
        t.get_incidence_matrices()
        r = t.train_test_split(train_ratio=ratio, seed=4)
    want = {'L1:': (m, m), 'L1l:': (m, m), 'L1u:': (m, m), 'B1:': (n, m), 'B2:': (m, len(T))}
    for q, a in zip(('x_train:', 'y_train:', 'x_test:', 'y_test:'), r):
        want[q] = (len(env.vec(a)),)
    for q, w in want.items():
        ls = lines(env, out, q)
        if env.check_len('%s reported once' % q, ls, 1):
            env.check('%s is right' % q, ls[0].split(':')[1].strip() == repr(w), lambda: '%s: %s' % (ls[0], w))


@spec('C42', quick_s=200, thorough_s=600, preload=PRE + ['cvxpy'],
      bounds=dict(quick='any flows in [-8,8] (true flow of norm >= 1), 1-3 parameters, filter sizes up to 3, noise in [-5,5] at one to three levels with 1-2 realisations on '
                        'fixed flows, 0-4 training steps, complexes up to 6 edges',
                  thorough='complexes up to 10 edges, sizes up to 4'),
      assumptions=['printed numbers are captured symbolically; how they are laid out is taken from the current labels'])
def C42(tier):
    th = tier == 'thorough'
    for t in ('tri', 'paw') + (('house', 'disc') if th else ()):
        for p in ('L1', 'L1L', 'L1U'):
            for k in (1, 2, 3):
                yield c42_denoise, dict(top=t, p=p, k=k)
    for t in ('diamond',) + (('house', 'papermix') if th else ()):
        for p in ('L1', 'L1L', 'L1U'):
            for how in ('grid_denoise', 'grid_sub', 'ls_one', 'ls_two'):
                if how == 'ls_two' and p == 'L1':
                    continue
                for L in (1, 3) + ((4,) if th else ()):
                    if p == 'L1' and how == 'ls_one':
                        continue
                    yield c42_sizes, dict(top=t, how=how, p=p, L=L)
        for p, c in (('L1L', 'gradient'), ('L1U', 'curl')):
            for L in (1, 3):
                yield c42_cheb, dict(top=t, p=p, comp=c, L=L)
    for how in ('l2', 'l1'):
        for c in ('divergence', 'curl'):
            for lv, R in (((0, 10), 2), ((3, -2, 20), 1)):
                yield c42_trend, dict(how=how, comp=c, levels=lv, R=R)
    for c in ('divergence', 'curl'):
        for lv, R in (((0.4, 0.8), 2), ((0.7, 0.1, 1.0), 1)):
            yield c42_trend, dict(how='interp', comp=c, levels=lv, R=R)
    for k, it, lr in ((1, 0, 0.1), (2, 1, 0.1), (3, 3, 0.25), (4, 4, 0.25)):
        yield c42_train, dict(k=k, iters=it, lr=lr)
    for t in ('tri', 'paw', 'isolated', 'bowtie', 'k4full', 'diamond2'):
        yield c42_summary, dict(top=t)
    for x in (0, 1):
        yield c42_dataset, dict(extra=x)
    for t, r in (('paw', 0.5), ('diamond2', 0.6), ('bowtie', 0.34)):
        yield c42_gpshapes, dict(top=t, ratio=r)
