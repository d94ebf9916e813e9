"""C01-C06: incidence matrices, Laplacians, shifting, divergence/curl, queries."""
import itertools
from .registry import spec
from .common import *


# ----------------------------------------------------------------- C01
def c01_b1(env, n, m):
    """every edge list: symbolic endpoints"""
    E = sym_edges(env, n, m)
    sc = make_sc(env, n, E, [])
    env.eq('rank 1 matrix', sc.incidence_matrix(rank=1), oracle_B1(env, n, E))
    env.eq('rank 0 vector', sc.incidence_matrix(rank=0), [1] * n)
    env.check('no triangles, empty rank 2 matrix', env.shape(sc.incidence_matrix(rank=2)) == (m, 0))


def c01_b2(env, n, m):
    """symbolic edge list and a triangle with symbolic vertices on its edges"""
    E = sym_edges(env, n, m)
    a, b, c = env.int('a', 0, n - 1), env.int('b', 0, n - 1), env.int('c', 0, n - 1)
    env.assume(env.all(a != b, b != c, a != c))
    for p, q in ((a, b), (b, c), (a, c)):
        env.assume(env.any([env.any(env.all(u == p, v == q), env.all(u == q, v == p)) for u, v in E]))
    sc = make_sc(env, n, E, [(a, b, c)])
    env.eq('rank 2 matrix', sc.incidence_matrix(rank=2), oracle_B2(env, E, [(a, b, c)]))
    env.eq('rank 1 matrix', sc.incidence_matrix(rank=1), oracle_B1(env, n, E))


def c01_tris(env, top):
    """several triangles, every stored direction, every listing of the vertices"""
    n, pairs, tris = complex_of(top)
    E = orient_fork(env, pairs)
    T = [tris[0]] + tri_order(env, tris[1:2]) + [tuple(t) for t in tris[2:]]
    sc = make_sc(env, n, E, T)
    env.eq('rank 2 matrix', sc.incidence_matrix(rank=2), oracle_B2(env, E, T))
    env.eq('rank 1 matrix', sc.incidence_matrix(rank=1), oracle_B1(env, n, E))


def c01_large(env, top):
    """the statement on a complex whose sizes do not fit into a byte: the last edge in either stored direction, the last triangle
    in any listing"""
    n, pairs, tris = complex_of(top)
    E = pairs[:-1] + orient_fork(env, pairs[-1:])
    T = [tuple(t) for t in tris[:-1]] + tri_order(env, tris[-1:])
    sc = make_sc(env, n, E, T)
    b1, b2 = conc_B1(n, E), conc_B2(E, T)
    env.eq('rank 2 matrix', sc.incidence_matrix(rank=2), b2)
    env.eq('rank 1 matrix', sc.incidence_matrix(rank=1), b1)


def c01_ranks(env, top):
    sc, n, E, T = topo(env, top)
    r = env.int('rank', -3, 9)
    env.assume(env.any(r < 0, r > 2))
    env.raises('unknown rank refused', ValueError, sc.incidence_matrix, r)


@spec('C01', quick_s=200, thorough_s=900,
      bounds=dict(quick='symbolic edge lists: up to 4 nodes and 4 edges (any endpoints, order, direction); one triangle with symbolic '
                        'vertices; two adjacent triangles on 5 edges in all 32 directions and all listings; 56 edges / 28 triangles and 385 edges / 207 triangles with two edges in both directions and one triangle in every listing',
                  thorough='symbolic edge lists up to 5 nodes and 6 edges, triangles as in quick plus 6 and 8 edge complexes with up to 4 triangles in every direction'))
def C01(tier):
    for n, m in ((1, 0), (2, 1), (3, 2), (3, 3), (4, 3), (4, 4)) + (((5, 5), (5, 6), (6, 6)) if tier == 'thorough' else ()):
        yield c01_b1, dict(n=n, m=m)
    for n, m in ((3, 3), (4, 4)) + (((5, 4), (4, 5), (5, 5)) if tier == 'thorough' else ()):
        yield c01_b2, dict(n=n, m=m)
    for t in ('diamond2', 'tri') + (('k4full', 'bowtie', 'wheel') if tier == 'thorough' else ()):
        yield c01_tris, dict(top=t)
    for t in (BIG, GIANT):
        yield c01_large, dict(top=t)
    yield c01_ranks, dict(top='paw')


# ----------------------------------------------------------------- C02
def c02(env, top, sym):
    n, pairs, tris = complex_of(top)
    E = orient_fork(env, pairs)
    T = tri_order(env, tris[:1]) + [tuple(t) for t in tris[1:]] if sym else tris
    sc = make_sc(env, n, E, T)
    B1, B2 = sc.incidence_matrix(rank=1), sc.incidence_matrix(rank=2)
    env.eq('B1 B2 = 0', B1 @ B2, [[0] * len(T) for _ in range(n)])
    z = [[0] * len(E) for _ in E]
    env.eq('lower times upper Laplacian = 0', sc.lower_laplacian_matrix() @ sc.upper_laplacian_matrix(), z)
    env.eq('upper times lower Laplacian = 0', sc.upper_laplacian_matrix() @ sc.lower_laplacian_matrix(), z)
    p = env.flow('p', n)
    env.eq('potential flow has no curl', sc.get_curl(B1.T @ p), [0] * len(T))
    t = env.flow('t', len(T))
    env.eq('triangle flow has no divergence', sc.get_divergence(B2 @ t), [0] * n)


def c02_sym(env, n, m):
    E = sym_edges(env, n, m)
    a, b, c = env.int('a', 0, n - 1), env.int('b', 0, n - 1), env.int('c', 0, n - 1)
    env.assume(env.all(a != b, b != c, a != c))
    for p, q in ((a, b), (b, c), (a, c)):
        env.assume(env.any([env.any(env.all(u == p, v == q), env.all(u == q, v == p)) for u, v in E]))
    sc = make_sc(env, n, E, [(a, b, c)])
    B1, B2 = sc.incidence_matrix(rank=1), sc.incidence_matrix(rank=2)
    env.eq('B1 B2 = 0', B1 @ B2, [[0]] * n)


@spec('C02', quick_s=200, thorough_s=900,
      bounds=dict(quick='symbolic edge lists with 3-4 nodes, 3-4 edges and a symbolic triangle; complexes with up to 6 edges and 4 triangles, all stored '
                        'directions; symbolic potentials and triangle signals in [-8,8]',
                  thorough='as quick, symbolic lists up to 5 nodes and 5 edges, complexes up to 8 edges in every stored direction'))
def C02(tier):
    for t in ('tri', 'paw', 'diamond2', 'disc') + (('k4full', 'bowtie', 'wheel', 'house') if tier == 'thorough' else ()):
        yield c02, dict(top=t, sym=True)
    if tier == 'quick':
        yield c02, dict(top='k4full', sym=False)
    for n, m in ((3, 3), (4, 4)) + (((5, 4), (4, 5)) if tier == 'thorough' else ()):
        yield c02_sym, dict(n=n, m=m)


# ----------------------------------------------------------------- C03
def c03(env, top):
    n, pairs, tris = complex_of(top)
    E = orient_fork(env, pairs)
    sc = make_sc(env, n, E, tris)
    laplacians(env, sc, n, E, tris)


def laplacians(env, sc, n, E, T):
    B1, B2 = oracle_B1(env, n, E), oracle_B2(env, E, T)
    adj = [[env.ite(env.any([env.any(env.all(u == i, v == j), env.all(u == j, v == i)) for u, v in E]), 1, 0)
            for j in range(n)] for i in range(n)]
    deg = [sum(r) for r in adj]
    L0 = [[deg[i] - adj[i][j] if i == j else -adj[i][j] for j in range(n)] for i in range(n)]
    m, k = len(E), len(T)
    low = mulm(tr(B1, m), B1)
    up = mulm(B2, tr(B2, k)) if k else [[0] * m for _ in range(m)]
    low2 = mulm(tr(B2, k), B2) if k else []
    env.eq('adjacency', sc.adjacency_matrix(), adj)
    env.eq('node Laplacian is degree minus adjacency', sc.laplacian_matrix(), L0)
    env.eq('lower Laplacian', sc.lower_laplacian_matrix(rank=1), low)
    env.eq('lower Laplacian default', sc.lower_laplacian_matrix(), low)
    env.eq('upper Laplacian', sc.upper_laplacian_matrix(rank=1), up)
    env.eq('Hodge Laplacian rank 1', sc.hodge_laplacian_matrix(rank=1), addm(low, up))
    env.eq('Hodge Laplacian default', sc.hodge_laplacian_matrix(), addm(low, up))
    env.eq('Hodge Laplacian rank 0', sc.hodge_laplacian_matrix(rank=0), L0)
    env.eq('Hodge Laplacian rank 2', sc.hodge_laplacian_matrix(rank=2), low2)
    env.eq('lower Laplacian rank 2', sc.lower_laplacian_matrix(rank=2), low2)
    env.eq('upper Laplacian rank 0', sc.upper_laplacian_matrix(rank=0), L0)


def c03_large(env, top):
    n, pairs, T = complex_of(top)
    E = pairs[:-2] + orient_fork(env, pairs[-2:])
    sc = make_sc(env, n, E, T)
    adj = [[0] * n for _ in range(n)]
    for u, v in E:
        adj[u][v] = adj[v][u] = 1
    L0 = [[sum(adj[i]) if i == j else -adj[i][j] for j in range(n)] for i in range(n)]
    low, up = lap_LU(n, E, T)
    env.eq('adjacency', sc.adjacency_matrix(), adj)
    env.eq('node Laplacian is degree minus adjacency', sc.laplacian_matrix(), L0)
    env.eq('lower Laplacian', sc.lower_laplacian_matrix(), low)
    env.eq('upper Laplacian', sc.upper_laplacian_matrix(), up)
    env.eq('Hodge Laplacian rank 1', sc.hodge_laplacian_matrix(rank=1), addm(low, up))
    env.eq('Hodge Laplacian rank 0', sc.hodge_laplacian_matrix(rank=0), L0)


def c03_sym(env, n, m):
    E = sym_edges(env, n, m)
    sc = make_sc(env, n, E, [])
    laplacians(env, sc, n, E, [])


def c03_ranks(env, top):
    sc, n, E, T = topo(env, top)
    r = env.int('rank', -3, 9)
    which = env.pick('op', ['lower', 'upper', 'hodge'])
    ok = dict(lower=(1, 2), upper=(0, 1), hodge=(0, 1, 2))[which]
    env.assume(env.all([r != k for k in ok]))
    env.raises('undefined rank refused', ValueError, getattr(sc, which + '_laplacian_matrix'), rank=r)


@spec('C03', quick_s=200, thorough_s=900,
      bounds=dict(quick='symbolic edge lists up to 4 nodes and 3 edges; complexes with up to 5 edges and 2 triangles in every stored direction; 56 and 385 edges with two edges in both directions; ranks -3..9',
                  thorough='symbolic edge lists up to 5 nodes and 4 edges; complexes up to 8 edges and 4 triangles in every stored direction'))
def C03(tier):
    for n, m in ((2, 1), (3, 2), (3, 3), (4, 3)) + (((4, 4), (5, 3)) if tier == 'thorough' else ()):
        yield c03_sym, dict(n=n, m=m)
    for t in ('tri', 'paw', 'diamond2', 'hole', 'twoedges', 'isolated') + (('k4full', 'bowtie', 'wheel', 'house', 'k4one') if tier == 'thorough' else ()):
        yield c03, dict(top=t)
    for t in (BIG, GIANT):
        yield c03_large, dict(top=t)
    yield c03_ranks, dict(top='paw')


# ----------------------------------------------------------------- C04
def c04(env, top, kmax, orientations):
    n, pairs, tris = complex_of(top)
    E = orient_fork(env, pairs) if orientations else list(pairs)
    sc = make_sc(env, n, E, tris)
    m = len(E)
    f = env.flow('f', m)
    k = env.fork(env.int('k', 0, kmax))
    B1, B2 = conc_B1(n, E), conc_B2(E, tris)
    low = mulm(tr(B1, m), B1)
    up = mulm(B2, tr(B2, len(tris))) if tris else [[0] * m for _ in E]
    x = y = z = env.vec(f)
    H = addm(low, up)
    for _ in range(k):
        x, y, z = mulv(low, x), mulv(up, y), mulv(H, z)
    f0 = list(env.vec(f))
    a, b = sc.apply_lower_shifting(f, steps=k), sc.apply_upper_shifting(f, steps=k)
    s = sc.apply_k_step_shifting(f, steps=k)
    env.close('lower shifting is k applications', a, x)
    env.close('upper shifting is k applications', b, y)
    env.close('k-step shift is the sum', s, [p + q for p, q in zip(x, y)])
    if k >= 1:
        env.close('k-step shift is the Hodge power', s, z)
    env.eq('flow not altered', f, f0)
    if k == 1:
        env.close('default number of lower steps', sc.apply_lower_shifting(f), x)
        env.close('default number of upper steps', sc.apply_upper_shifting(f), y)
    if k == 2:
        env.close('default number of k steps', sc.apply_k_step_shifting(f), s)


@spec('C04', quick_s=200, thorough_s=900,
      bounds=dict(quick='flows in [-8,8]; steps 0..3 on complexes up to 5 edges in every stored direction, steps 0..5 on 10 edges / 3 triangles; integer flows; flows in units of 2^-40 and 2^30; five complexes of 14 to 56 edges, one of 385 (one step), one of 10 edges with 0 to 16 steps',
                  thorough='steps 0..6, complexes up to 6 edges in every stored direction, 10 edges / 3 triangles'))
def C04(tier):
    K = 3 if tier == 'quick' else 6
    for t in ('tri', 'paw', 'hole') + (('diamond2', 'k4full', 'bowtie', 'disc') if tier == 'thorough' else ()):
        yield c04, dict(top=t, kmax=K, orientations=True)
    for t in ('diamond2', 'papermix', 'disc', 'path', 'k4full'):
        yield c04, dict(top=t, kmax=5 if tier == 'quick' else 9, orientations=False)
    for sc in (TINY, HUGE):
        yield c04, dict(top='diamond2', kmax=3, orientations=False, _scale=sc)
    yield c04, dict(top='diamond2', kmax=3, orientations=False, _ints=True)
    for t in LONG + (BIG,):
        yield c04, dict(top=t, kmax=4, orientations=False)
    yield c04, dict(top=GIANT, kmax=1, orientations=False)
    yield c04, dict(top='papermix', kmax=16, orientations=False)


# ----------------------------------------------------------------- C05
def c05(env, n, m, tri):
    E = sym_edges(env, n, m)
    T = []
    if tri:
        a, b, c = env.int('a', 0, n - 1), env.int('b', 0, n - 1), env.int('c', 0, n - 1)
        env.assume(env.all(a != b, b != c, a != c))
        for p, q in ((a, b), (b, c), (a, c)):
            env.assume(env.any([env.any(env.all(u == p, v == q), env.all(u == q, v == p)) for u, v in E]))
        T = [(a, b, c)]
    sc = make_sc(env, n, E, T)
    divcurl(env, sc, n, E, T)


def divcurl(env, sc, n, E, T):
    m = len(E)
    f = env.flow('f', m)
    fl = env.vec(f)
    div = [sum([env.ite(E[j][1] == i, fl[j], env.ite(E[j][0] == i, -fl[j], 0)) for j in range(m)]) for i in range(n)]
    env.close('divergence is net inflow', sc.get_divergence(f), div)
    curl = []
    for a, b, c in T:
        fwd = env.any([env.all(u == a, v == b) for u, v in E])

        def along(p, q):
            return sum([env.ite(env.all(u == p, v == q), fl[j], env.ite(env.all(u == q, v == p), -fl[j], 0))
                        for j, (u, v) in enumerate(E)])
        circ = along(a, b) + along(b, c) + along(c, a)
        curl.append(env.ite(fwd, circ, -circ))
    env.close('curl is the circulation', sc.get_curl(f), curl)
    # the same through the functions of the decomposition package
    ed = env.load('pytspl.decomposition.eigendecomposition')
    env.close('divergence function', ed.get_divergence(sc.incidence_matrix(rank=1), f), div)
    env.close('curl function', ed.get_curl(sc.incidence_matrix(rank=2), f), curl)
    g = env.flow('g', m)
    al = env.real('alpha', -4, 4)
    h = f * al + g
    cd, cc = env.vec(sc.get_divergence(g)), env.vec(sc.get_curl(g))
    env.close('divergence is linear', sc.get_divergence(h), [al * x + y for x, y in zip(div, cd)])
    env.close('curl is linear', sc.get_curl(h), [al * x + y for x, y in zip(curl, cc)])


def c05_top(env, top, orientations):
    n, pairs, tris = complex_of(top)
    E = orient_fork(env, pairs) if orientations else list(pairs)
    T = tri_order(env, tris[:1]) + [tuple(t) for t in tris[1:]]
    sc = make_sc(env, n, E, T)
    divcurl(env, sc, n, E, T)


@spec('C05', quick_s=200, thorough_s=900,
      bounds=dict(quick='flows in [-8,8]; symbolic edge lists up to 4 nodes, 4 edges; a symbolic triangle on 3-4 edges; complexes up to 10 edges; integer flows; flows in units of 2^-40 and 2^30; five complexes of 14 to 56 edges',
                  thorough='symbolic edge lists up to 5 nodes, 5 edges with a triangle; complexes up to 6 edges in every stored direction'))
def C05(tier):
    for n, m, t in ((3, 2, False), (4, 4, False), (3, 3, True), (4, 4, True)) + (((5, 5, False), (5, 4, True), (4, 5, True)) if tier == 'thorough' else ()):
        yield c05, dict(n=n, m=m, tri=t)
    for t in ('diamond2', 'paw') + (('k4full', 'bowtie') if tier == 'thorough' else ()):
        yield c05_top, dict(top=t, orientations=True)
    for t in ('papermix', 'disc', 'k4full'):
        yield c05_top, dict(top=t, orientations=False)
    for sc in (TINY, HUGE):
        yield c05_top, dict(top='diamond2', orientations=False, _scale=sc)
    yield c05_top, dict(top='diamond2', orientations=False, _ints=True)
    for t in LONG + (BIG,):
        yield c05_top, dict(top=t, orientations=False)


# ----------------------------------------------------------------- C06
def c06_queries(env, n, m, t):
    """arbitrary (symbolic) edges and triangles, feature values symbolic"""
    sb = env.load('pytspl.simplicial_complex.simplicial_complex')
    E = sym_edges(env, n, m)
    env.fork_edges = E
    T = []
    if t:
        a, b, c = E[0][0], E[0][1], None
        c = env.int('c', 0, n - 1)
        env.assume(env.all(c != a, c != b))
        for p, q in ((b, c), (a, c)):
            env.assume(env.any([env.any(env.all(u == p, v == q), env.all(u == q, v == p)) for u, v in E]))
        T = [(a, b, c)]
    E = [(env.fork(u), env.fork(v)) for u, v in E]
    T = [tuple(env.fork(x) for x in tt) for tt in T]
    vals = [(env.real('w%d' % j), env.real('d%d' % j)) for j in range(m)]
    feats = {e: {'w': w, 'd': d} for e, (w, d) in zip(E, vals)}
    sc = make_sc(env, n, E, T, edge_features=feats)
    env.eq('simplices', list(sc.simplices), [(i,) for i in range(n)] + E + T)
    env.eq('shape', tuple(sc.shape), (n, m, len(T)))
    env.eq('dimension', sc.max_dim, 2 if T else (1 if m else 0))
    env.eq('feature by name', sc.get_edge_features('w'), {e: w for e, (w, d) in zip(E, vals)})
    env.eq('other feature by name', sc.get_edge_features('d'), {e: d for e, (w, d) in zip(E, vals)})
    env.eq('all features', sc.get_edge_features(), {e: {'w': w, 'd': d} for e, (w, d) in zip(E, vals)})
    env.eq('feature names', list(sc.edge_feature_names()), ['w', 'd'] if m else [])
    if m:
        env.raises('unknown feature', KeyError, sc.get_edge_features, 'x')
    env.eq('no features', make_sc(env, n, E, T, edge_features={}).get_edge_features(), {})
    env.eq('no feature names', list(make_sc(env, n, E, T, edge_features={}).edge_feature_names()), [])


def c06_faces(env, k):
    sc = make_sc(env, 2, [(0, 1)], [])
    v = [env.int('v%d' % i, 0, max(k, 3)) for i in range(k)]
    for a, b in itertools.combinations(v, 2):
        env.assume(a != b)
    simplex = env.pick('kind', [tuple, list])(v)
    F = [tuple(f) for f in sc.get_faces(simplex)]
    want = k if k > 1 else 0
    env.check('number of faces', len(F) == want, lambda: repr(F))
    for f in F:
        env.check('face size', len(f) == k - 1)
        env.check('face sorted', env.all([f[i] < f[i + 1] for i in range(len(f) - 1)]))
        env.check('face is a subset', env.all([env.any([x == y for y in v]) for x in f]))
    for f, g in zip(F, F[1:]):
        # lexicographic order, strict: sorted and each once
        less, eqp = [], True
        for x, y in zip(f, g):
            less.append(env.all(eqp, x < y))
            eqp = env.all(eqp, x == y)
        env.check('faces sorted, each once', env.any(less))


@spec('C06', quick_s=200, thorough_s=600,
      bounds=dict(quick='symbolic edge lists up to 4 nodes and 3 edges with a symbolic triangle, symbolic feature values; simplices of 1..4 symbolic vertices in any order',
                  thorough='as quick with 4 edges, simplices of up to 5 vertices'))
def C06(tier):
    yield c06_queries, dict(n=1, m=0, t=0)
    yield c06_queries, dict(n=3, m=2, t=0)
    yield c06_queries, dict(n=3, m=3, t=1)
    if tier == 'thorough':
        yield c06_queries, dict(n=4, m=3, t=0)
        yield c06_queries, dict(n=4, m=4, t=1)
    for k in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        yield c06_faces, dict(k=k)
