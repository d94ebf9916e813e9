"""C07, C08, C14: triangle sets and the random generator."""
import itertools
from .registry import spec
from .common import *


def sym_graph(env, n, fixed=None, reorder=True):
    """every graph on n nodes: each pair absent, stored ascending or stored descending; edge list order varied"""
    pairs = list(itertools.combinations(range(n), 2))
    E = []
    for i, (u, v) in enumerate(pairs):
        s = fixed[i] if fixed is not None and fixed[i] is not None else env.fork(env.int('s%d' % i, 0, 2))
        if s == 1:
            E.append((u, v))
        elif s == 2:
            E.append((v, u))
    if reorder and len(E) > 1:
        r = env.pick('order', [0, 1, 2])
        E = [E, E[::-1], E[1:] + E[:1]][r]
    return E


def cliques3(n, E):
    S = {frozenset(e) for e in E}
    return [t for t in itertools.combinations(range(n), 3) if all(frozenset(p) in S for p in itertools.combinations(t, 2))]


def c07(env, n, fixed):
    E = sym_graph(env, n, fixed)
    if not E:
        return
    b = env.cls(SBN)(nodes=list(range(n)), edges=list(E))
    T = [tuple(t) for t in b.triangles()]
    env.check('triangles are the 3-cliques, each once, ascending', sorted(T) == cliques3(n, E) and all(t[0] < t[1] < t[2] for t in T),
              lambda: '%s for %s' % (T, E))
    sc = b.to_simplicial_complex()
    env.eq('default complex uses them', sorted(tuple(t) for t in sc.triangles), cliques3(n, E))
    env.eq('edges unchanged', [tuple(e) for e in sc.edges], E)


def c07_ids(env, ids, fixed):
    """node numbers are numbers: the corners of a triangle ascend as such (9 before 10)"""
    E = [(ids[u], ids[v]) for u, v in sym_graph(env, len(ids), fixed)]
    if not E:
        return
    b = env.cls(SBN)(nodes=list(range(max(ids) + 1)), edges=list(E))
    S = {frozenset(e) for e in E}
    want = [t for t in itertools.combinations(sorted(ids), 3) if all(frozenset(p) in S for p in itertools.combinations(t, 2))]
    T = [tuple(t) for t in b.triangles()]
    env.check('triangles are the 3-cliques, each once, ascending', sorted(T) == want, lambda: '%s for %s' % (T, E))
    sc = b.to_simplicial_complex()
    env.eq('default complex uses them', sorted(tuple(t) for t in sc.triangles), want)
    env.eq('edges unchanged', [tuple(e) for e in sc.edges], E)


def c07_big(env, name):
    """complete graphs and meshes: many more triangles than in the sweeps"""
    if name == 'mesh':
        n, E, _ = complex_of(BIG)
    else:
        n = int(name[1:])
        E = [p if (p[0] + p[1]) % 3 else p[::-1] for p in itertools.combinations(range(n), 2)]
    r = env.pick('order', [1, -1, 5])
    E = E[::r] if r < 0 else E[r:] + E[:r]
    k = env.fork(env.int('without', 0, 3))
    E = E[k:]
    b = env.cls(SBN)(nodes=list(range(n)), edges=list(E))
    T = [tuple(t) for t in b.triangles()]
    env.check('triangles are the 3-cliques, each once, ascending', sorted(T) == cliques3(n, E) and all(t[0] < t[1] < t[2] for t in T))
    sc = b.to_simplicial_complex()
    env.eq('default complex uses them', sorted(tuple(t) for t in sc.triangles), cliques3(n, E))
    env.eq('edges unchanged', [tuple(e) for e in sc.edges], E)


@spec('C07', quick_s=200, thorough_s=900,
      bounds=dict(quick='all graphs on 3 and 4 nodes, each edge absent or stored in either direction, three edge-list orders (also with node numbers 2, 9, 10, 11); on 5 nodes all graphs '
                        'containing a fixed alternating-direction 4-cycle; a mesh of 25 nodes and the complete graphs on 5, 6 and 12 nodes (also without up to 3 of their edges)', thorough='all graphs on 3 and 4 nodes; on 5 nodes all graphs containing a fixed edge pair'),
      assumptions=['networkx itself runs for real: each path fixes the graph'])
def C07(tier):
    yield c07, dict(n=3, fixed=[None] * 3)
    for s in range(3):
        for t in range(3):
            yield c07, dict(n=4, fixed=[s, t] + [None] * 4)
    for s in range(3):
        yield c07_ids, dict(ids=(2, 10, 9, 11), fixed=[s, 1, None, None, 2, None])
    for g in ('mesh', 'k5', 'k6', 'k12'):
        yield c07_big, dict(name=g)
    # 5 nodes: pairs 01 02 03 04 12 13 14 23 24 34
    if tier == 'quick':
        for s in range(3):
            yield c07, dict(n=5, fixed=[1, None, None, 2, 2, 1, s, None, 1, None])
    else:
        for a, b, c in itertools.product(range(3), repeat=3):
            yield c07, dict(n=5, fixed=[1, a, None, 2, b, None, c, None, None, None])


# ----------------------------------------------------------------- C08
def c08(env, n, fixed, cols, names):
    E = sym_graph(env, n, fixed)
    if not E:
        return
    feats = {}
    for j, e in enumerate(E):
        d = {}
        for c in cols:
            d[c] = env.real('%s%d%d' % (c, min(e), max(e)), -100, 1000)
        feats[e] = d
    col = env.pick('col', names)
    thr = env.real('threshold', -100, 1000)
    b = env.cls(SBN)(nodes=list(range(n)), edges=list(E), edge_features=feats)
    T = b.triangles_dist_based(col, thr)
    T = [tuple(t) for t in T]
    env.check('each triangle once', len(set(T)) == len(T))
    dist = {frozenset(e): feats[e][col] for e in E}
    cl = cliques3(n, E)
    for t in T:
        env.check('only cliques, ascending', t in cl)
    for t in cl:
        want = env.all([dist[frozenset(p)] < thr for p in itertools.combinations(t, 2)])
        env.check('clique is a triangle iff all its distances are below the threshold', env.iff(want, t in T),
                  lambda: '%s %s threshold %s: %s' % (t, [dist[frozenset(p)] for p in itertools.combinations(t, 2)], thr, T))
    sc = b.to_simplicial_complex(condition='distance', dist_col_name=col, dist_threshold=thr)
    env.eq('complex uses the conditioned triangles', sorted(tuple(t) for t in sc.triangles), sorted(T))
    unchanged(env, sc, n, E, feats)


def unchanged(env, sc, n, E, feats):
    env.eq('nodes unchanged', list(sc.nodes), list(range(n)))
    env.eq('edges unchanged', [tuple(e) for e in sc.edges], E)
    env.eq('features unchanged', sc.edge_features, feats)


def c08_big(env):
    """a mesh: only the distances of four edges are symbolic"""
    n, E, _ = complex_of(BIG)
    free = (0, 11, 30, 55)
    feats = {e: {'d': env.real('d%d' % j, -100, 1000) if j in free else float(j % 7)} for j, e in enumerate(E)}
    thr = env.real('threshold', 5, 7)
    b = env.cls(SBN)(nodes=list(range(n)), edges=list(E), edge_features=feats)
    T = [tuple(t) for t in b.triangles_dist_based('d', thr)]
    env.check('each triangle once', len(set(T)) == len(T))
    dist = {frozenset(e): feats[e]['d'] for e in E}
    cl = cliques3(n, E)
    for t in T:
        env.check('only cliques, ascending', t in cl)
    for t in cl:
        want = env.all([dist[frozenset(p)] < thr for p in itertools.combinations(t, 2)])
        env.check('clique is a triangle iff all its distances are below the threshold', env.iff(want, t in T))


def c08_defaults(env, n, fixed):
    """documented defaults: column 'distance', threshold 1.5"""
    E = sym_graph(env, n, fixed, reorder=False)
    feats = {e: {'other': env.real('o%d' % j, 0, 1), 'distance': env.real('d%d' % j, 0, 3)} for j, e in enumerate(E)}
    b = env.cls(SBN)(nodes=list(range(n)), edges=list(E), edge_features=feats)
    sc = b.to_simplicial_complex(condition='distance')
    T = [tuple(t) for t in sc.triangles]
    dist = {frozenset(e): feats[e]['distance'] for e in E}
    for t in cliques3(n, E):
        want = env.all([dist[frozenset(p)] < 1.5 for p in itertools.combinations(t, 2)])
        env.check('default column and threshold', env.iff(want, t in T))


def c08_explicit(env, n, fixed):
    E = sym_graph(env, n, fixed)
    if not E:
        return
    feats = {e: {'distance': env.real('d%d' % j, 0, 3)} for j, e in enumerate(E)}
    cl = cliques3(n, E)
    sub = [t for i, t in enumerate(cl) if env.fork(env.int('use%d' % i, 0, 1))]
    sub = [tuple(reversed(t)) if i % 2 else t for i, t in enumerate(sub)]
    b = env.cls(SBN)(nodes=list(range(n)), edges=list(E), edge_features=feats)
    cond = env.pick('cond', ['all', 'distance'])
    sc = b.to_simplicial_complex(condition=cond, triangles=list(sub))
    env.eq('explicit triangles are used', [tuple(t) for t in sc.triangles], sub)
    unchanged(env, sc, n, E, feats)


@spec('C08', quick_s=200, thorough_s=900,
      bounds=dict(quick='all graphs on 3 nodes in every direction, K4 and K4 minus an edge in 4-8 direction patterns; symbolic distances and threshold in [-100,1000]; 2 columns; a mesh of 56 edges with any threshold and distances on 4 edges',
                  thorough='as quick with all directions of K4 minus an edge and 16 patterns of K4'),
      assumptions=['networkx itself runs for real: each path fixes the graph'])
def C08(tier):
    yield c08, dict(n=3, fixed=[None] * 3, cols=['distance', 'len'], names=['distance', 'len'])
    yield c08, dict(n=3, fixed=[None] * 3, cols=['w'], names=['w'])
    yield c08_defaults, dict(n=3, fixed=[None] * 3)
    yield c08_big, {}
    pats = [[1, 2, 0, 2, 1, 1], [2, 1, 1, 1, 2, 0], [1, 1, 2, 2, 1, 2]]
    if tier == 'thorough':
        pats += [[1, 2, 0, a, b, c] for a in (1, 2) for b in (1, 2) for c in (1, 2)] + [[2, a, b, 1, c, 2] for a in (1, 2) for b in (1, 2) for c in (1, 2)]
    for p in pats:
        yield c08, dict(n=4, fixed=p, cols=['distance'], names=['distance'])
    yield c08_explicit, dict(n=3, fixed=[None] * 3)
    yield c08_explicit, dict(n=4, fixed=[1, 2, 0, 2, 1, 1])
    yield c08_explicit, dict(n=4, fixed=[1, 1, 2, 2, 1, 2])


# ----------------------------------------------------------------- C14
def c14(env, n, disturb):
    """two calls with the same (symbolic) arguments, the global generators used in between"""
    gen = env.load('pytspl.io.sc_generator').generate_random_simplicial_complex
    p, thr = env.real('p', 0, 1), env.real('threshold', -1, 2)
    seed = env.int('seed', 0, 1000)
    env.real_random()
    seeds = [seed] if not env.real_mode else [seed + 7 * i for i in range(12)]
    ps = [p] if not env.real_mode else [p, 0.5, 0.8, 1.0]
    for sd in seeds:
        for pp in ps:
            for nn in ([n] if not env.real_mode else [n, n + 2]):
                for th in ([thr] if not env.real_mode else [thr, 0.6]):
                    c14_one(env, gen, nn, pp, th, sd, disturb)


def c14_one(env, gen, n, p, thr, seed, disturb):
    st = env.rng_state()
    sc1, co1 = gen(n, p, thr, seed)
    env.check('global random state untouched', env.rng_state() == st)
    if disturb:
        env.disturb_rng()
    sc2, co2 = gen(n, p, thr, seed)
    env.eq('same nodes', sc2.nodes, sc1.nodes)
    env.eq('same edges', sc2.edges, sc1.edges)
    env.eq('same triangles', sc2.triangles, sc1.triangles)
    env.eq('same distances', sc2.get_edge_features(), sc1.get_edge_features())
    env.eq('same coordinates', co2, co1)
    env.eq('every node present', list(sc1.nodes), list(range(n)))
    env.eq('every node has a coordinate', sorted(co1), list(range(n)))
    F = sc1.get_edge_features()
    E = [tuple(e) for e in sc1.edges]
    env.check('every edge has a distance', all(e in F and 'distance' in F[e] for e in E))
    S = [frozenset(e) for e in E]
    env.check('no edge twice, no loop', len(set(S)) == len(S) and all(len(e) == 2 for e in S))
    T = sorted(tuple(sorted(t)) for t in sc1.triangles)
    env.check('each triangle once', len(set(T)) == len(T))
    cl = cliques3(n, E)
    env.check('triangles are cliques', all(t in cl for t in T))
    d = {frozenset(e): F[e]['distance'] for e in E}
    for t in cl:
        want = env.all([d[frozenset(q)] < thr for q in itertools.combinations(t, 2)])
        env.check('threshold decides', env.iff(want, t in T), lambda: '%s %s' % (t, T))


@spec('C14', quick_s=200, thorough_s=600,
      bounds=dict(quick='3 nodes (and 4 nodes), all generated graphs, all distances and thresholds, symbolic seed and probability; replays use 3-6 nodes',
                  thorough='4 nodes, 5 nodes without disturbance'),
      assumptions=['a seeded generator is an arbitrary but fixed function of its seed; unseeded and global draws are arbitrary',
                   'the random graph, layout and number streams of the real libraries are used in replays'])
def C14(tier):
    yield c14, dict(n=3, disturb=True)
    yield c14, dict(n=3, disturb=False)
    yield c14, dict(n=4, disturb=True)
    if tier == 'thorough':
        yield c14, dict(n=5, disturb=True)
