"""C41: objects do not influence each other."""
from .registry import spec
from .common import *
from .misc import Ctx, RO, snap, check_same, PRE, hist
from .gp import KERNELS
from .plots import drawings, edges_drawn, nodes_drawn, texts, polygons


def neighbours(n, E, T):
    """other complexes: most of them agree with the given one in all sizes"""
    E, T = list(E), list(T)
    out = dict(flip=(n, [e[::-1] if i != 1 else e for i, e in enumerate(E)], T),
               flip_one=(n, [E[0][::-1]] + E[1:], T),
               order=(n, E[1:] + E[:1], T),
               nodes=(n, [tuple((v + 1) % n for v in e) for e in E], [tuple((v + 1) % n for v in t) for t in T]),
               same=(n, E, T))
    if T:
        out['open'] = (n, E, T[1:])
    out['isolated'] = (n + 1, E, T)     # the same edges and triangles
    out['more edges'] = (n, E + [p for p in ((i, j) for i in range(n) for j in range(i)) if p not in E and p[::-1] not in E][:1], T)
    out['bigger'] = (n + 1, E + [(0, n)], T)
    return out


def drawn(env, axes):
    out = []
    for a in axes:
        out.append([sorted(((e, 0 if isinstance(c, str) else c) for e, c, k, p in edges_drawn(a)), key=lambda x: x[0]), [p for p, c, k in nodes_drawn(a)], [t[:3] for t in texts(a)],
                    polygons(a), drawings(a)])
    return out


def answer(env, op, c):
    k = len(c.plt.figs)
    c.plt.__dict__.update(_fig=None, _ax=None, bynum={})  # as after plt.show()
    r = RO[op](c)
    if op.startswith('draw'):
        r = [r, drawn(env, [a for f in c.plt.figs[k:] for a in f.__dict__['axes']])]
    return r


def state(c):
    return [hist(o) for o in (c.den, c.ls, c.grid, c.cheb, c.stf)] + [c.inputs()]


def c41(env, op, top, kind, then):
    env.capture_cvxpy()
    A = complex_of(top)
    B = neighbours(*A)[kind]
    f, f2 = env.flow('f', len(A[1])), env.flow('g', len(B[1]))
    start = env.mark()
    with env.pristine() as p:
        want = snap(answer(p, op, Ctx(p, top, f)))
    b = Ctx(env, B, f2, k=2)
    env.rewind(start)
    rb = answer(env, op, b)
    if then:
        RO[env.pick('op', then)](b)
    before, kept = snap(state(b)), snap(rb)
    a = Ctx(env, top, f)
    env.rewind(start)
    got = answer(env, op, a)
    check_same(env, '%s is not influenced by another complex' % op, snap(got), want, tol=1e-6)
    check_same(env, 'the other complex and its filters are left alone by %s' % op, snap(state(b)), before)
    check_same(env, 'the answer for the other complex stays', snap(rb), kept)


# ------------------------------------------------ building and reading
SCBN = 'pytspl.simplicial_complex.scbuilder.SCBuilder'
NRN = 'pytspl.io.network_reader'
GRAPHS = {1: [(0, 1), (0, 2), (1, 2), (2, 3)], 2: [(0, 2), (1, 3), (0, 3), (2, 3)], 3: [(0, 1), (1, 2)]}


def parts(sc):
    return [list(sc.nodes), [list(e) for e in sc.edges], [list(t) for t in getattr(sc, 'triangles', []) or []] if not callable(getattr(sc, 'triangles', 0)) else 0,
            snap({'%s' % (e,): v for e, v in sc.edge_features.items()})[1], list(sc.node_features), [repr(e) for e in sc.edge_features]]


def op_build(env, k, x):
    E = GRAPHS[k]
    b = env.cls(SCBN)(nodes=list(range(4)), edges=list(E), edge_features={e: {'distance': x[j]} for j, e in enumerate(E)})
    return [parts(b.to_simplicial_complex()), parts(b.to_simplicial_complex(condition='distance', dist_col_name='distance', dist_threshold=1.5)),
            b.to_simplicial_complex().incidence_matrix(rank=2)]


def op_plain(env, k, x):
    """without features: the others' features must not appear"""
    E = GRAPHS[k]
    b = env.cls(SCBN)(nodes=list(range(4)), edges=list(E))
    sc = env.cls(SCN)(nodes=list(range(4)), edges=list(E))
    e = env.cls(SCN)()
    r = [parts(b.to_simplicial_complex()), parts(sc), parts(e), sc.edge_feature_names()]
    for o in (b, sc, e):
        o.edge_features[E[0]] = {'mine': x[0]}
        o.node_features[k] = {'mine': x[0]}
    e.nodes.append(k)
    e.edges.append((0, k))
    e.triangles.append((0, k, 3))
    return r


def op_csv(env, k, x):
    p = env.table(['s', 'd', 'w'], [[u, v, x[j]] for j, (u, v) in enumerate(GRAPHS[k])])
    b = env.load(NRN).read_csv(filename=p, delimiter=',', src_col='s', dest_col='d', start_index_zero=True, feature_cols=['w'])
    q = env.load(NRN).read_csv(filename=p, delimiter=',', src_col='s', dest_col='d', start_index_zero=True)
    return [parts(b), parts(q), parts(b.to_simplicial_complex())]


def op_tntp(env, k, x):
    p = env.table(['~', 'init', 'term', 'w', ';'], [['', u + 1, v + 1, x[j], ';'] for j, (u, v) in enumerate(GRAPHS[k])], sep='\t', meta=2)
    b = env.load(NRN).read_tntp(filename=p, src_col='init', dest_col='term', skip_rows=2, delimiter='\t')
    return [parts(b), parts(b.to_simplicial_complex())]


def op_b1b2(env, k, x):
    E = GRAPHS[k]
    p1 = env.table([str(j) for j in range(len(E))], conc_B1(4, E), header=False)
    tri = {1: [1, 1, 1, 0], 2: [1, 0, 1, 1], 3: [1, 1]}[k]
    p2 = env.table([str(j) for j in range(len(E))], [tri], header=False)
    b, T = env.load(NRN).read_B1_B2(p1, p2)
    return [parts(b), [list(t) for t in T]] + ([parts(b.to_simplicial_complex(triangles=T))] if k != 3 else [])


def op_coords(env, k, x):
    p = env.table(['Id', 'X', 'Y'], [[i, x[i], x[-1 - i]] for i in range(5 - k)])
    return env.load(NRN).read_coordinates(filename=p, node_id_col='Id', x_col='X', y_col='Y', delimiter=',')


def op_generator(env, k, x):
    sc, co = env.load('pytspl.io.sc_generator').generate_random_simplicial_complex(3 if k < 3 else 2, 1.0, 3.0 if k == 1 else 0.0, k)
    return [parts(sc), co]


def op_kernels(env, k, x):
    t, np = env.torch, env.np
    n, d = 3, {1: (1, 1, 1), 2: (1, 1, 1), 3: (0, 2, 1)}[k]
    mk = lambda a: t.tensor(np.array(a), dtype=t.float32)
    ep = [mk([[0.5 * k + i - j * 1.25 + c for j in range(q)] for i in range(n)]) if q else mk(np.zeros((n, 0))) for c, q in enumerate(d)] + [
        mk([0.25 * k + c + j for j in range(q)]) for c, q in enumerate(d)]
    out = []
    for kind in KERNELS:
        o = env.cls(KERNELS[kind][0])(ep)
        for j, q in enumerate(KERNELS[kind][1]):
            setattr(o, q, 1.0 + 0.5 * ((j + k) % 3))
        if 'h' in KERNELS[kind][1] or kind == 'laplacian':
            setattr(o, 'h' if 'h' in KERNELS[kind][1] else 'mu', x[0] * x[0] + 1)
        out += [o.forward(t.tensor([0, 1, 2]), t.tensor([2, 0])), o.forward(t.tensor([0, 2]), diag=True)]
    return out


def op_divcurl(env, k, x):
    """the same matrices object and equal ones, through the functions"""
    ed, hd = env.load('pytspl.decomposition.eigendecomposition'), env.load('pytspl.decomposition.hodge_decomposition')
    E = GRAPHS[k]
    sc = env.cls(SCN)(nodes=list(range(4)), edges=E, triangles=[(0, 1, 2)] if k == 1 else [(0, 2, 3)] if k == 2 else [])
    f = env.np.array(x[:len(E)])
    B1, B2 = sc.incidence_matrix(rank=1), sc.incidence_matrix(rank=2)
    L = sc.lower_laplacian_matrix(rank=1).toarray()
    return [ed.get_divergence(B1, f), ed.get_curl(B2, f), ed.get_total_variance(L), hd.get_gradient_flow(B1, f, False), hd.get_curl_flow(B2, f, False),
            hd.get_harmonic_flow(B1, B2, f, False)]


MAKE = {n[3:]: f for n, f in list(globals().items()) if n.startswith('op_')}


def c41_make(env, op, before, k):
    """what is built, read or computed does not depend on what was built, read or computed before"""
    x, y = env.reals('x', 5, 0.5, 3), env.reals('y', 5, 0.5, 3)
    start = env.mark()
    with env.pristine() as p:
        w = MAKE[op](p, k, x)
        want = snap(w), repr(texts_of(w))
    j = env.pick('other', [1, 2, 3])
    earlier = MAKE[before](env, j, y)
    e0 = snap(earlier), repr(texts_of(earlier))
    env.rewind(start)
    g = MAKE[op](env, k, x)
    got = snap(g), repr(texts_of(g))
    check_same(env, '%s after %s' % (op, before), got[0], want[0], tol=1e-5)
    env.check('%s after %s (names)' % (op, before), got[1] == want[1], lambda: '%s %s' % (got[1], want[1]))
    check_same(env, 'earlier %s unchanged by %s' % (before, op), snap(earlier), e0[0])


def texts_of(x):
    if isinstance(x, (list, tuple)):
        return [texts_of(v) for v in x]
    if isinstance(x, dict):
        return [(str(a), texts_of(b)) for a, b in x.items()]
    return x if isinstance(x, str) else None


@spec('C41', quick_s=200, thorough_s=600, preload=PRE + ['cvxpy'],
      bounds=dict(quick='%d operations on a complex after the same operation on each of seven other complexes (equal in all sizes with other directions, order, node '
                        'numbering or features; without a triangle; larger), any flows on both; %d ways to build or read complexes and to make kernels, after each other in '
                        'every order, with any edge values' % (len(RO), len(MAKE)),
                  thorough='as quick with a further operation in between and on two more complexes'),
      assumptions=['the reference is the same call in freshly loaded modules; random draws have the same (arbitrary) values in both runs',
                   'pyplot figures count as closed between two drawings'])
def C41(tier):
    th = tier == 'thorough'
    for t in ('diamond2',) + (('paw', 'house') if th else ()):
        for op in RO:
            for kind in neighbours(*complex_of(t)):
                yield c41, dict(op=op, top=t, kind=kind, then=None)
                if th and t == 'diamond2' and kind in ('flip', 'open'):
                    yield c41, dict(op=op, top=t, kind=kind, then=tuple(RO))
    for op in MAKE:
        for b in MAKE:
            for k in (1, 2, 3) if th or op == b else (1,):
                yield c41_make, dict(op=op, before=b, k=k)
