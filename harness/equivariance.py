"""C43: results do not depend on how the complex is written down."""
from .registry import spec
from .common import *
from .misc import Ctx, PRE, COMPS, BASE, DEN, LSF, GBF, CHB, STF, TRN
from .gp import KERNELS

N, E_, T_, S = 'node', 'edge', 'tri', 'same'


class Change:
    """another way to write down the same complex: node numbers, edge directions, orders of the lists"""

    def __init__(c, env, n, E, T, how):
        m, k = len(E), len(T)
        on = lambda x: x in how
        c.old = n, E, T
        c.p = [(3 * v + 1) % n if n % 3 else (2 * v + 1) % n if n % 2 else n - 1 - v for v in range(n)] if on('nodes') else list(range(n))
        c.s = [-1 if j % 3 != 1 else 1 for j in range(m)] if on('flip') else [1] * m
        c.so = [(j + 2) % m for j in range(m)] if on('order') else list(range(m))  # new position -> old position
        c.to = list(range(k))[::-1] if on('triangles') else list(range(k))
        E2 = []
        for j in c.so:
            u, v = (c.p[x] for x in E[j])
            E2.append((u, v) if c.s[j] == 1 else (v, u))
        T2 = []
        for i, j in enumerate(c.to):
            t = [c.p[x] for x in T[j]]
            T2.append(tuple(t[1:] + t[:1] if i % 2 else t[::-1]) if on('triangles') else tuple(t))
        c.new = n, E2, T2
        # the sign of every triangle follows from its boundary
        a, b = conc_B2(E, T), conc_B2(E2, T2)
        c.t = []
        for i, j in enumerate(c.to):
            x = [b[q][i] * a[c.so[q]][j] * c.s[c.so[q]] for q in range(m) if b[q][i]]
            assert len(set(x)) == 1
            c.t.append(x[0])

    def axis(c, kind):
        """new position -> (old position, sign)"""
        if kind == N:
            inv = {v: i for i, v in enumerate(c.p)}
            return [(inv[i], 1) for i in range(len(c.p))]
        if kind == E_:
            return [(j, c.s[j]) for j in c.so]
        if kind == T_:
            return [(j, c.t[i]) for i, j in enumerate(c.to)]

    def image(c, kinds, x):
        if not kinds:
            return x
        if kinds[0] == S:
            return [c.image(kinds[1:], y) for y in x]
        return [_times(s, c.image(kinds[1:], x[j])) for j, s in c.axis(kinds[0])]


def _times(s, x):
    return x if s == 1 else [_times(s, y) for y in x] if isinstance(x, list) else -x


def _flat(x):
    return [z for y in x for z in _flat(y)] if isinstance(x, list) else [x]


def _sizes(x, d):
    return [len(x)] + (_sizes(x[0], d - 1) if x else []) if d else []


class In:
    def __init__(s, env, n, E, T, f, g, h, p):
        s.env, s.n, s.E, s.T, s.f, s.g, s.h, s.p = env, n, E, T, f, g, h, p
        s.sc = make_sc(env, n, E, T)

    def new(s, name):
        return s.env.cls(name)(s.sc)


def _history(o, many=False):
    """what a filter recorded"""
    h = o.history
    lead = (S,) if many else ()
    return [('filter', lead + (E_, E_), h['filter']), ('estimate', lead + (E_,), h['f_estimated'])] + ([] if many else [
        ('errors', (S,), h['extracted_component_error']), ('frequency responses', (S, S), h['frequency_responses'])])


def matrices(i):
    c = i.sc
    return [('node-edge incidences', (N, E_), c.incidence_matrix(rank=1)), ('edge-triangle incidences', (E_, T_), c.incidence_matrix(rank=2)),
            ('adjacency', (N, N), c.adjacency_matrix()), ('node Laplacian', (N, N), c.laplacian_matrix()),
            ('lower Laplacian', (E_, E_), c.lower_laplacian_matrix(rank=1)), ('upper Laplacian', (E_, E_), c.upper_laplacian_matrix(rank=1)),
            ('Hodge Laplacian', (E_, E_), c.hodge_laplacian_matrix(rank=1)), ('triangle Laplacian', (T_, T_), c.hodge_laplacian_matrix(rank=2))]


def derived(i):
    c = i.sc
    return [('divergence', (N,), c.get_divergence(i.f)), ('curl', (T_,), c.get_curl(i.f)), ('lower shift', (E_,), c.apply_lower_shifting(i.f, steps=2)),
            ('upper shift', (E_,), c.apply_upper_shifting(i.f, steps=2)), ('shift', (E_,), c.apply_k_step_shifting(i.f, steps=3)),
            ('total variance', (S,), c.get_total_variance())]


def components(i):
    out = []
    for x in COMPS:
        out.append((x + ' flow', (E_,), i.sc.get_component_flow(flow=i.f, component=x, round_fig=False)))
        U, e = i.sc.get_component_eigenpair(component=x)
        U = i.env.mat(U) if len(i.env.vec(e)) else [[] for _ in i.E]
        out += [(x + ' eigenvalues', (S,), e), (x + ' projection', (E_, E_), mulm(U, tr(U)) if U[0] else [[0] * len(U) for _ in U])]
    for x, v in zip(('harmonic', 'curl', 'gradient'), i.sc.get_simplicial_embeddings(i.g)):
        v = i.env.vec(v)
        out.append((x + ' energy', (S,), [dot(v, v)]))
    return out


def masks(i):
    b = i.new(CHB)
    # eigenvalues shared by gradient and curl leave their positions (and with it their ideal operators) open
    return [('harmonic positions', (S,), b.get_component_coefficients('harmonic')),
            ('harmonic ideal operator', (E_, E_), b.get_ideal_frequency(b.get_component_coefficients('harmonic')))] + [
        (x + ' positions marked', (S,), [sum(b.get_component_coefficients(x))]) for x in COMPS]


def denoise(p):
    def g(i):
        o = i.new(DEN)
        o.denoise(f=i.f, f_true=i.h, p_choice=p, mu_vals=[0.5, 2.0])
        a = _history(o)
        o.denoise(f=i.g, f_true=i.h, p_choice=p, mu_vals=[0.75])
        return [x for x in a if x[0] != 'errors'] + _history(o)
    return g


def ls(kind, comp, L):
    def g(i):
        o = i.new(LSF)
        (o.subcomponent_extraction_type_one if kind == 1 else o.subcomponent_extraction_type_two)(f=i.g, component=comp, L=L)
        return _history(o)
    return g


def ls_general(i):
    o = i.new(LSF)
    r = o.general_filter(i.f, 2, 2)
    return [('%s estimate' % x, (E_,), v) for x, v in zip(('harmonic', 'curl', 'gradient'), r)]


def grid_denoise(p):
    def g(i):
        o = i.new(GBF)
        o.denoise(f=i.g, f_true=i.h, p_choice=p, L=2)
        return _history(o)
    return g


def grid_sub(i):
    o = i.new(GBF)
    o.subcomponent_extraction(f=i.g, component='gradient', p_choice='L1L', L=2, num_of_samples=6)
    return _history(o)


def cheb(i):
    o = i.new(CHB)
    o.apply(i.g, 'L1L', 'gradient', L=3, n=3)
    return _history(o, many=True)


def operators(i):
    o = i.new(STF)
    out = [('%s operator of order %d' % (c, k), ((N if c == 'divergence' else T_) if k % 2 == 0 else E_, E_), o.get_shift_operator(c, k))
           for c in ('divergence', 'curl') for k in range(4)]
    return out + [('noise power', (S,), o.get_power_noise(i.g, i.env.np.array([0.0, 10.0]))[0])]


def kernel(kind):
    def g(i):
        env, t = i.env, i.env.torch
        tr_ = env.cls(TRN)(i.sc, i.g)
        k = env.cls(KERNELS[kind][0])(tr_.get_eigenpairs())
        for q, name in enumerate(KERNELS[kind][1]):
            setattr(k, name, 0.75 + 0.25 * q)
        x = t.tensor(list(range(len(i.E))))
        return [('covariance', (E_, E_), k.forward(x, x))]
    return g


def data(i):
    env = i.env
    tr_ = env.cls(TRN)(i.sc, i.g)
    L, B = tr_.get_laplacians(), tr_.get_incidence_matrices()
    return [('Laplacian', (E_, E_), x) for x in L] + [('node-edge incidences', (N, E_), B[0]), ('edge-triangle incidences', (E_, T_), B[1])]


ANY = dict(matrices=matrices, derived=derived, components=components, masks=masks, operators=operators, data=data, ls_general=ls_general,
           **{'denoise ' + p: denoise(p) for p in ('L1', 'L1L', 'L1U')},
           **{'type one ' + c: ls(1, c, 3) for c in COMPS}, **{'type two ' + c: ls(2, c, 3) for c in COMPS[:2]},
           **{'kernel ' + k: kernel(k) for k in KERNELS})
# these estimate the largest eigenvalue from the all-ones vector, which has no direction-independent meaning
UNDIRECTED = dict(grid_sub=grid_sub, cheb=cheb, **{'grid_denoise ' + p: grid_denoise(p) for p in ('L1', 'L1L')})
HOW = ('flip', 'order', 'nodes', 'triangles', 'flip+order+nodes+triangles')


def converges(top, op):
    """power iteration from the all-ones vector reaches an eigenvector without small entries"""
    import numpy as np
    n, E, T = complex_of(top)
    L, U = lap_LU(n, E, T)
    P = np.array(L, float) + (np.array(U, float) if op.endswith(' L1') else 0)
    v = np.ones(len(E))
    for _ in range(50):
        v = P @ v
        v = v / max(np.linalg.norm(v), 1e-300)
    return np.abs(v).min() > 1e-4 and np.ptp(P @ v / v) < 1e-2


def c43(env, op, top, how):
    n, E, T = complex_of(top)
    E, T, m = list(E), list(T), len(E)
    ch = Change(env, n, E, T, how.split('+'))
    f = env.flow('f', m)
    g = [(2.7531 * i + 1) * (-1) ** i + 0.2519 for i in range(m)]
    h = [1.0371 + 0.5173 * i for i in range(m)]
    run = dict(ANY, **UNDIRECTED)[op]
    arr = lambda x: env.np.array(x)
    start = env.mark()
    a = run(In(env, n, E, T, f, arr(g), arr(h), None))
    env.rewind(start)
    f2, g2, h2 = [ch.image((E_,), list(x)) for x in (env.vec(f), g, h)]
    b = run(In(env, *ch.new, arr(f2), arr(g2), arr(h2), None))
    for (label, kinds, x), (_, _, y) in zip(a, b):
        x, y = [env.vec(v) if len(kinds) == 1 else (v if isinstance(v, list) else env.mat(v)) if len(kinds) == 2 else [env.mat(w) for w in v] for v in (x, y)]
        if not _flat(x):
            continue
        want = ch.image(kinds, x)
        env.check(op + ': ' + label + ' has the same size', _sizes(want, len(kinds)) == _sizes(y, len(kinds)))
        env.close('%s: %s corresponds' % (op, label), _flat(y), _flat(want), tol=1e-5 if op.startswith('kernel') or op == 'data' else 1e-6)


@spec('C43', quick_s=200, thorough_s=900, preload=PRE + ['cvxpy'],
      bounds=dict(quick='%d families of operations on two complexes (up to 10 edges, one with a hole) and five ways to rewrite them: directions of two thirds of the edges, '
                        'cyclic order of the edges, other node numbers, triangles in other order and rotation, all at once; any flow for the linear operations, '
                        'one generic flow for the recorded errors' % (len(ANY) + len(UNDIRECTED)),
                  thorough='as quick on six complexes'),
      assumptions=['operations based on power iteration from the all-ones vector (grid-based and Chebyshev filters) are only compared under renumbering and reordering, not under '
                   'changes of direction', 'trend filters are compared through their operators and noise power only (the noise is drawn per position)'])
def C43(tier):
    tops = ('diamond', 'papermix') + (('disc', 'k4one', 'wheel', 'house') if tier == 'thorough' else ())
    for t in tops:
        for how in HOW:
            for op in ANY:
                if op.startswith('type') and not component_dims(*complex_of(t)).get(op.split()[2], 1):
                    continue            # the error is relative to the component
                yield c43, dict(op=op, top=t, how=how)
            for op in UNDIRECTED:
                if 'flip' not in how and converges(t, op):
                    yield c43, dict(op=op, top=t, how=how)
