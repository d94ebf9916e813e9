"""Helpers shared by the harnesses (work in both worlds)."""
from fractions import Fraction as Fr
import itertools

SCN = 'pytspl.simplicial_complex.simplicial_complex.SimplicialComplex'
SBN = 'pytspl.simplicial_complex.scbuilder.SCBuilder'


def make_sc(env, n, edges, tris, **kw):
    """half of the concrete complexes carry features, under names that suggest weights: no operator may depend on them"""
    if 'edge_features' not in kw and len(edges) % 2 == 0 and all(type(x) is int for e in edges for x in e):
        kw['edge_features'] = {tuple(e): dict(weight=0.5 + j, distance=2.5 + j % 3, length=3.0 - j % 2, capacity=7.0 + j, cost=0.25 * (j + 1), flow=-1.5 * j)
                               for j, e in enumerate(edges)}
        kw.setdefault('node_features', {i: dict(weight=2.0 + i, value=0.5 * i) for i in range(n)})
    return env.cls(SCN)(nodes=list(range(n)), edges=[tuple(e) for e in edges], triangles=[tuple(t) for t in tris], **kw)


def sym_edges(env, n, m, name='e'):
    """m edges with symbolic endpoints: no loops, no pair twice"""
    E = []
    for j in range(m):
        u, v = env.int('%s%du' % (name, j), 0, n - 1), env.int('%s%dv' % (name, j), 0, n - 1)
        env.assume(u != v)
        for p, q in E:
            env.assume(env.not_(env.any(env.all(p == u, q == v), env.all(p == v, q == u))))
        E.append((u, v))
    return E


def orient(env, pairs, name='o'):
    """concrete edge set, symbolic stored direction (no fork: endpoints are symbolic)"""
    E = []
    for j, (u, v) in enumerate(pairs):
        b = env.bool('%s%d' % (name, j))
        E.append((env.ite(b, u, v), env.ite(b, v, u)))
    return E


def orient_fork(env, pairs, name='o'):
    """concrete edge set, stored direction chosen per path"""
    return [(v, u) if env.fork(env.int('%s%d' % (name, j), 0, 1)) else (u, v) for j, (u, v) in enumerate(pairs)]


def tri_order(env, tris, name='t'):
    out = []
    for j, t in enumerate(tris):
        out.append(env.pick('%s%d' % (name, j), list(itertools.permutations(t))))
    return out


def mulv(A, x):
    return [dot(r, x) for r in A]


def dot(a, b):
    r = 0
    for x, y in zip(a, b):
        r = r + x * y
    return r


def mulm(A, B):
    if not A:
        return []
    k = len(B)
    cols = len(B[0]) if B else 0
    Bc = [[B[i][j] for i in range(k)] for j in range(cols)]
    out = []
    for r in A:
        nz = [i for i in range(k) if not (type(r[i]) in (int, float, Fr) and r[i] == 0)]
        rr = [r[i] for i in nz]
        out.append([dot(rr, [c[i] for i in nz]) for c in Bc])
    return out


def tr(A, cols=None):
    if not A:
        return [[] for _ in range(cols or 0)]
    return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]


def addm(A, B):
    return [[x + y for x, y in zip(a, b)] for a, b in zip(A, B)]


def oracle_B1(env, n, edges):
    return [[env.ite(u == i, -1, env.ite(v == i, 1, 0)) for (u, v) in edges] for i in range(n)]


def oracle_B2(env, edges, tris):
    cols = []
    for a, b, c in tris:
        fwd = env.any([env.all(u == a, v == b) for u, v in edges])
        walk = [(env.ite(fwd, p, r), env.ite(fwd, q, s)) for (p, q), (r, s) in
                zip([(a, b), (b, c), (c, a)], [(b, a), (a, c), (c, b)])]
        col = []
        for u, v in edges:
            plus = env.any([env.all(u == p, v == q) for p, q in walk])
            minus = env.any([env.all(v == p, u == q) for p, q in walk])
            col.append(env.ite(plus, 1, env.ite(minus, -1, 0)))
        cols.append(col)
    return [[cols[j][i] for j in range(len(tris))] for i in range(len(edges))]


def conc_B1(n, edges):
    return [[-1 if u == i else (1 if v == i else 0) for u, v in edges] for i in range(n)]


def conc_B2(edges, tris):
    """plain python oracle for concrete edges and triangles"""
    class P:
        any = staticmethod(lambda l: any(l))
        all = staticmethod(lambda *l: all(l))
        ite = staticmethod(lambda c, a, b: a if c else b)
    return oracle_B2(P, edges, tris)


# topologies: name -> (n, edges, triangles); stored directions are deliberately mixed
TOPO = {
    'tri': (3, [(0, 1), (2, 1), (2, 0)], [(0, 1, 2)]),
    'hole': (3, [(1, 0), (1, 2), (0, 2)], []),
    'paw': (4, [(0, 1), (2, 1), (0, 2), (3, 2)], [(0, 1, 2)]),
    'square': (4, [(0, 1), (1, 2), (3, 2), (0, 3)], []),
    'diamond': (4, [(1, 0), (2, 1), (0, 2), (3, 2), (1, 3)], [(0, 1, 2)]),
    'diamond2': (4, [(1, 0), (2, 1), (0, 2), (3, 2), (1, 3)], [(0, 1, 2), (3, 1, 2)]),
    'path': (4, [(1, 0), (1, 2), (3, 2)], []),
    'star': (4, [(0, 1), (2, 0), (0, 3)], []),
    'edge': (2, [(1, 0)], []),
    'twoedges': (4, [(1, 0), (2, 3)], []),
    'disc': (5, [(0, 1), (2, 1), (2, 0), (4, 3)], [(1, 0, 2)]),
    'isolated': (5, [(0, 1), (2, 1), (2, 0), (3, 2)], [(0, 1, 2)]),
    'k4full': (4, [(0, 1), (2, 0), (0, 3), (1, 2), (3, 1), (2, 3)], [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]),
    'k4one': (4, [(0, 1), (2, 0), (0, 3), (1, 2), (3, 1), (2, 3)], [(0, 2, 3)]),
    'bowtie': (5, [(0, 1), (2, 1), (2, 0), (2, 3), (4, 3), (2, 4)], [(0, 1, 2), (2, 3, 4)]),
    'house': (5, [(0, 1), (2, 1), (2, 3), (3, 0), (4, 0), (1, 4)], [(0, 1, 4)]),
    'paper': (7, [(0, 1), (0, 2), (0, 3), (1, 2), (2, 3), (2, 4), (2, 5), (4, 5), (4, 6), (5, 6)], [(0, 1, 2), (0, 2, 3), (4, 5, 6)]),
    'papermix': (7, [(1, 0), (0, 2), (3, 0), (1, 2), (3, 2), (2, 4), (5, 2), (5, 4), (4, 6), (6, 5)], [(2, 1, 0), (0, 2, 3), (4, 6, 5)]),
    # long and mixed ones: incidence matrices with small singular values next to large ones
    'rail': (24, [(i, i + 1) if i % 3 else (i + 1, i) for i in range(23)], []),
    'strip': (14, [(i, i + 1) for i in range(13)] + [(i + 2, i) for i in range(12)], [(i, i + 1, i + 2) for i in range(12)]),
    'lollipop': (14, [(i, j) for i in range(5) for j in range(i + 1, 5)] + [(i, i + 1) for i in range(4, 13)],
                 [(i, j, k) for i in range(5) for j in range(i + 1, 5) for k in range(j + 1, 5)]),
    # gradient and curl eigenvalues close to each other (2.54 and 2.55)
    'near': (7, [(0, 1), (2, 0), (0, 3), (0, 5), (6, 0), (1, 4), (5, 1), (1, 6), (2, 4), (5, 2), (3, 5), (3, 6), (5, 4), (4, 6)],
             [(0, 1, 6), (0, 2, 5), (0, 3, 5), (0, 3, 6), (1, 4, 5), (1, 4, 6), (2, 4, 5)]),
    'wheel': (5, [(0, 1), (2, 0), (0, 3), (4, 0), (1, 2), (3, 2), (3, 4), (1, 4)], [(0, 1, 2), (0, 2, 3), (0, 3, 4)]),
}

LONG = ('rail', 'strip', 'lollipop', 'near')


def _mesh(k=5):
    """k x k grid of nodes, a diagonal in every square, most of the triangles filled"""
    at = lambda i, j: i * k + j
    E, T = [], []
    for i in range(k):
        for j in range(k):
            if j + 1 < k:
                E.append((at(i, j), at(i, j + 1)))
            if i + 1 < k:
                E.append((at(i, j), at(i + 1, j)))
            if i + 1 < k and j + 1 < k:
                E.append((at(i, j), at(i + 1, j + 1)))
                T += [(at(i, j), at(i, j + 1), at(i + 1, j + 1)), (at(i, j), at(i + 1, j), at(i + 1, j + 1))]
    E = [e[::-1] if i % 3 == 1 else e for i, e in enumerate(E)]
    return k * k, E, [t for i, t in enumerate(T) if i % 7 != 3]


# a large one, in no sweep over TOPO: sizes beyond any small fixed limit
BIG = 'mesh'
# a long path (smallest eigenvalue 0.0012, next ones close to it) and sizes that do not fit into a byte
WIRE, GIANT = 'wire', 'giant mesh'
TOPO_BIG = {BIG: _mesh(), GIANT: _mesh(12),
            # a filled triangle at one end, a hole of four edges at the other
            WIRE: (80, [(i, i + 1) if i % 3 else (i + 1, i) for i in range(79)] + [(0, 2), (79, 76)], [(0, 1, 2)])}


def complex_of(name):
    return TOPO_BIG[name] if name in TOPO_BIG else TOPO[name]


def topo(env, name):
    n, e, t = complex_of(name)
    return make_sc(env, n, e, t), n, list(e), list(t)


# ------------------------------------------------- exact linear algebra of the oracles (rationals)


def lap_LU(n, E, T):
    """lower and upper Laplacian of concrete edges and triangles"""
    m = len(E)
    B1, B2 = conc_B1(n, E), conc_B2(E, T)
    return mulm(tr(B1, m), B1), (mulm(B2, tr(B2, len(T))) if T else [[0] * m for _ in E])


def _solve_gram(cols):
    """projector onto the span of the given rational column vectors (exact Gram-Schmidt)"""
    basis = []
    for c in cols:
        v = [Fr(x) for x in c]
        for b, nb in basis:
            k = sum(x * y for x, y in zip(v, b)) / nb
            if k:
                v = [x - k * y for x, y in zip(v, b)]
        nn = sum(x * x for x in v)
        if nn:
            basis.append((v, nn))
    return basis


def projector(cols, m):
    P = [[Fr(0)] * m for _ in range(m)]
    for b, nb in _solve_gram(cols):
        for i in range(m):
            if b[i]:
                for j in range(m):
                    if b[j]:
                        P[i][j] += b[i] * b[j] / nb
    return P


def hodge_projectors(n, E, T):
    """exact orthogonal projectors onto the gradient, curl and harmonic space"""
    m = len(E)
    B1, B2 = conc_B1(n, E), conc_B2(E, T)
    G = projector(B1, m)                     # rows of B1 span im(B1')
    C = projector(tr(B2, len(T)) if T else [], m)
    H = [[Fr(int(i == j)) - G[i][j] - C[i][j] for j in range(m)] for i in range(m)]
    return dict(gradient=G, curl=C, harmonic=H)


def rank_of(cols):
    return len(_solve_gram(cols))


def component_dims(n, E, T):
    g = rank_of(conc_B1(n, E))
    c = rank_of(tr(conc_B2(E, T), len(T))) if T else 0
    return dict(gradient=g, curl=c, harmonic=len(E) - g - c)


def frmul(env, P, x):
    """rational matrix times a vector of the environment"""
    if env.real_mode:
        return [sum(float(a) * y for a, y in zip(r, x)) for r in P]
    return [dot([a for a in r], x) if any(r) else 0 for r in P]


def eye_(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def const_eigvals(M):
    """eigenvalues of a concrete symmetric matrix, ascending (reference values)"""
    import numpy
    return sorted(float(x) for x in numpy.linalg.eigvalsh(numpy.array([[float(x) for x in r] for r in M]))) if M else []


# orders of magnitude other than one: flows in [-8, 8] * SCALE, tolerance scaled alike
TINY, HUGE = 2.0 ** -40, 2.0 ** 30
