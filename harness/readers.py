"""C09-C13: readers."""
import itertools
from .registry import spec
from .common import *

NRN = 'pytspl.io.network_reader'


def rows_sym(env, k, hi, base):
    """k rows (u, v) of symbolic ids, no loops"""
    out = []
    for i in range(k):
        u, v = env.int('u%d' % i, base, hi + base), env.int('v%d' % i, base, hi + base)
        env.assume(u != v)
        out.append((u, v))
    return out


def first_rows(env, rows, base):
    """oracle: first row index of every pair, on concrete ids (the reader has fixed them on this path)"""
    seen, order = {}, []
    for i, (u, v) in enumerate(rows):
        a, b = env.fork(u) - base, env.fork(v) - base
        if frozenset((a, b)) not in seen:
            seen[frozenset((a, b))] = i
            order.append(((a, b), i))
    return sorted(order), max(max(env.fork(u), env.fork(v)) for u, v in rows) - base


def close_features(env, label, got, want):
    """{edge: {name: value}}: same keys exactly, values up to reading accuracy"""
    gk = {tuple(k): dict(v) for k, v in got.items()}
    ok = set(gk) == set(want) and all(set(gk[e]) == set(want[e]) for e in want)
    env.check(label + ': same edges and columns', ok, lambda: '%s %s' % (got, want))
    if ok:
        for e in want:
            env.close(label, [gk[e][c] for c in sorted(want[e])], [want[e][c] for c in sorted(want[e])])


def c09_csv(env, k, hi, feat):
    base = env.pick('base', [0, 1])
    rows = rows_sym(env, k, hi, base)
    order = env.pick('cols', [['src', 'dst', 'w', 'x'], ['x', 'w', 'dst', 'src']])
    w = [env.real('w%d' % i) for i in range(k)]
    x = [env.real('x%d' % i) for i in range(k)]
    path = env.table(order, [[dict(src=u, dst=v, w=w[i], x=x[i])[c] for c in order] for i, (u, v) in enumerate(rows)], sep=';')
    req = env.pick('features', [None, [], ['w'], ['x', 'w']]) if feat else None
    kw = {} if req is None else dict(feature_cols=req)
    b = env.load(NRN).read_csv(filename=path, delimiter=';', src_col='src', dest_col='dst', start_index_zero=base == 0, **kw)
    check_builder(env, b, rows, base, feat, {c: dict(w=w, x=x)[c] for c in (req or [])})


def check_builder(env, b, rows, base, feat, cols):
    want, top = first_rows(env, rows, base)
    env.eq('edges: one per pair, first direction, sorted', [tuple(e) for e in b.edges], [e for e, i in want])
    env.eq('nodes up to the largest id', list(b.nodes), list(range(top + 1)))
    if feat:
        F = {e: {c: cols[c][i] for c in cols} for e, i in want} if cols else {}
        close_features(env, 'features of the first row of the edge', b.edge_features, F)
        if cols:
            sc = b.to_simplicial_complex(triangles=[])
            for c in cols:
                got = sc.get_edge_features(c)
                env.check('feature lookup: same edges', set(tuple(e) for e in got) == set(F))
                env.close('feature lookup', [got[e] for e, i in want], [F[e][c] for e, i in want])


def c09_tntp(env, k, hi, feat):
    base = env.pick('base', [0, 1])
    rows = rows_sym(env, k, hi, base)
    w = [env.real('w%d' % i) for i in range(k)]
    x = [env.real('x%d' % i) for i in range(k)]
    meta = env.pick('meta', [0, 3])
    # source, destination and feature columns; feature names may be parts of the others
    cols, (src, dst, c1, c2) = env.pick('cols', [(['~ ', 'init ', ' term ', 'cap ', ' toll', ' ;'], ('init', 'term', 'cap', 'toll')),
                                                 (['~', 'node', 'term_node', 'init_node', 'term', ';'], ('init_node', 'term_node', 'node', 'term')),
                                                 (['~', 'init', 'init_node', 'term', 'term_node', ';'], ('init', 'term', 'init_node', 'term_node'))])
    names = [c.strip() for c in cols]
    path = env.table(cols, [[{'~': '', src: u, dst: v, c1: w[i], c2: x[i], ';': ';'}[c] for c in names]
                            for i, (u, v) in enumerate(rows)], sep='\t', meta=meta)
    b = env.load(NRN).read_tntp(filename=path, src_col=src, dest_col=dst, skip_rows=meta, start_index_zero=base == 0,
                                **(dict(delimiter='\t') if base else {}))
    check_builder(env, b, rows, base, feat, {c1: w, c2: x})


def c09_gaps(env, k, hi):
    """a row with an empty cell is still an edge"""
    base = env.pick('base', [0, 1])
    rows = rows_sym(env, k, hi, base)
    g = env.fork(env.int('gap', 0, k - 1))
    nan = float('nan')
    w = [env.real('w%d' % i) for i in range(k)]
    path = env.table(['src', 'dst', 'w', 'x'], [[u, v, w[i], '' if env.real_mode and i == g else nan if i == g else 1.5]
                                                for i, (u, v) in enumerate(rows)], sep=';')
    req = env.pick('features', [None, ['w']])
    kw = {} if req is None else dict(feature_cols=req)
    b = env.load(NRN).read_csv(filename=path, delimiter=';', src_col='src', dest_col='dst', start_index_zero=base == 0, **kw)
    want, top = first_rows(env, rows, base)
    env.eq('edges: one per pair, first direction, sorted', [tuple(e) for e in b.edges], [e for e, i in want])
    env.eq('nodes up to the largest id', list(b.nodes), list(range(top + 1)))
    if req:
        F = {tuple(e): d for e, d in b.edge_features.items()}
        env.check('features of every edge', set(F) == {e for e, i in want}, lambda: repr(F))
        for e, i in want:
            env.close('given value', F[e]['w'], w[i])


def c09_tntp_plain(env, k, hi):
    """no columns besides source and destination"""
    base = env.pick('base', [0, 1])
    rows = rows_sym(env, k, hi, base)
    path = env.table(['~', 'init', 'term', ';'], [['', u, v, ';'] for u, v in rows], sep='\t', meta=1)
    b = env.load(NRN).read_tntp(filename=path, src_col='init', dest_col='term', skip_rows=1, start_index_zero=base == 0)
    check_builder(env, b, rows, base, True, {})


def c09_digits(env):
    """ids whose digits run together alike"""
    base = env.pick('base', [0, 1])
    a, b = env.int('a', 0, 1), env.int('b', 0, 1)
    rows = [(1, 12), (11, 2), (12, 11), (112, 3 + a), (1, 2 + b), (2, 111)]
    rows = [(u + base, v + base) for u, v in rows]
    x = env.reals('w', len(rows))
    path = env.table(['src', 'dst', 'w'], [[u, v, x[i]] for i, (u, v) in enumerate(rows)], sep=',')
    b = env.load(NRN).read_csv(filename=path, delimiter=',', src_col='src', dest_col='dst', start_index_zero=base == 0, feature_cols=['w'])
    check_builder(env, b, rows, base, True, dict(w=x))
    path = env.table(['~', 'src', 'dst', 'w', ';'], [['', u, v, x[i], ';'] for i, (u, v) in enumerate(rows)], sep='\t', meta=0)
    b = env.load(NRN).read_tntp(filename=path, src_col='src', dest_col='dst', skip_rows=0, delimiter='\t', start_index_zero=base == 0)
    check_builder(env, b, rows, base, True, dict(w=x))


def c09_default_base(env, k, hi):
    """zero-based is the default"""
    rows = rows_sym(env, k, hi, 0)
    path = env.table(['a', 'b'], [[u, v] for u, v in rows], sep=',')
    b = env.load(NRN).read_csv(filename=path, delimiter=',', src_col='a', dest_col='b')
    check_builder(env, b, rows, 0, True, {})


@spec('C09', quick_s=200, thorough_s=900,
      bounds=dict(quick='tables of 1-3 rows with symbolic ids (3 rows: ids 0..2, 2 rows: ids 0..3), zero- or one-based, two column orders, one cell may be empty; one table with ids up to 113; CSV and TNTP, 0 or 3 metadata rows',
                  thorough='3 rows with ids 0..3, 4 rows with ids 0..2'),
      assumptions=['pandas works on object columns of the virtual table; replays read the written file with the real parser'])
def C09(tier):
    yield c09_csv, dict(k=1, hi=4, feat=False)
    yield c09_csv, dict(k=2, hi=3, feat=False)
    yield c09_csv, dict(k=3, hi=2, feat=False)
    yield c09_tntp, dict(k=2, hi=3, feat=False)
    yield c09_tntp, dict(k=3, hi=2, feat=False)
    yield c09_tntp_plain, dict(k=2, hi=2)
    yield c09_gaps, dict(k=2, hi=2)
    yield c09_default_base, dict(k=2, hi=3)
    yield c09_digits, {}
    if tier == 'thorough':
        yield c09_csv, dict(k=3, hi=3, feat=False)
        yield c09_tntp, dict(k=3, hi=3, feat=False)
        yield c09_default_base, dict(k=4, hi=2)


@spec('C10', quick_s=200, thorough_s=900,
      bounds=dict(quick='tables of 1-3 rows with symbolic ids, real feature values in [-8,8], requested columns none/[]/one/two in another order, one cell may be empty, one table with ids up to 113, names that are part of other names',
                  thorough='3 rows with ids 0..3, 4 rows with ids 0..2'),
      assumptions=['pandas works on object columns of the virtual table; replays read the written file with the real parser'])
def C10(tier):
    yield c09_csv, dict(k=2, hi=2, feat=True)
    yield c09_csv, dict(k=3, hi=2, feat=True)
    yield c09_tntp, dict(k=2, hi=2, feat=True)
    yield c09_tntp, dict(k=3, hi=2, feat=True)
    yield c09_tntp_plain, dict(k=2, hi=2)
    yield c09_gaps, dict(k=2, hi=2)
    yield c09_default_base, dict(k=2, hi=3)
    yield c09_digits, {}
    if tier == 'thorough':
        yield c09_csv, dict(k=3, hi=3, feat=True)
        yield c09_tntp, dict(k=3, hi=3, feat=True)


# ----------------------------------------------------------------- C11
def c11(env, n, pairs, tris, orders, free=9):
    """edge columns in any of the given orders, stored direction (of the first `free`) and triangle signs symbolic"""
    E0 = [(v, u) if (env.fork(env.int('o%d' % j, 0, 1)) if j < free else j % 2) else (u, v) for j, (u, v) in enumerate(pairs)]
    perm = env.pick('perm', orders)
    E = [E0[i] for i in perm]
    B1 = [[-1 if e[0] == i else (1 if e[1] == i else 0) for e in E] for i in range(n)]
    B2t = []
    for t, tri in enumerate(tris):
        row = []
        for j, e in enumerate(E):
            if set(e) <= set(tri):
                s = env.int('s%d_%d' % (t, j), -1, 1)
                env.assume(s != 0)
                row.append(s)
            else:
                row.append(0)
        B2t.append(row)
    p1 = env.table([str(j) for j in range(len(E))], B1, header=False)
    p2 = env.table([str(j) for j in range(len(E))], B2t, header=False)
    b, T = env.load(NRN).read_B1_B2(p1, p2)
    env.eq('a node per row', list(b.nodes), list(range(n)))
    env.eq('edges in column order and direction', [tuple(e) for e in b.edges], E)
    env.eq('one triangle per row, sorted', [tuple(t) for t in T], [tuple(sorted(t)) for t in tris])
    sc = b.to_simplicial_complex(triangles=T)
    env.eq('rebuilt node-edge matrix', sc.incidence_matrix(rank=1), B1)
    T2 = env.load(NRN).read_B2(p2, env.np.array(E))
    env.eq('read_B2 alone', [tuple(t) for t in T2], [tuple(sorted(t)) for t in tris])
    fl = env.flow('f', len(E))
    env.close('flow stays with its edges', sc.get_divergence(fl), [dot(r, env.vec(fl)) for r in B1])


def c11_free(env, n, m):
    """any edge list with symbolic endpoints"""
    E = sym_edges(env, n, m)
    B1 = oracle_B1(env, n, E)
    tri_row = [1] * 3 + [0] * (m - 3)
    env.assume(env.all(E[0][1] == E[1][0], E[1][1] == E[2][0], E[2][1] == E[0][0]))
    p1 = env.table([str(j) for j in range(m)], B1, header=False)
    p2 = env.table([str(j) for j in range(m)], [tri_row], header=False)
    b, T = env.load(NRN).read_B1_B2(p1, p2)
    env.eq('a node per row', list(b.nodes), list(range(n)))
    env.eq('edges in column order and direction', [tuple(e) for e in b.edges], E)
    a, c, d = [env.fork(e[0]) for e in E[:3]]
    env.eq('one triangle per row, sorted', [tuple(t) for t in T], [tuple(sorted((a, c, d)))])
    sc = b.to_simplicial_complex(triangles=T)
    env.eq('rebuilt node-edge matrix', sc.incidence_matrix(rank=1), B1)


@spec('C11', quick_s=200, thorough_s=900,
      bounds=dict(quick='4-5 nodes (also isolated), 4-5 edges in any direction and 3 column orders, 1-2 triangles with symbolic signs; the complete complex on 5 nodes (10 edges, 10 triangles) and one with two-digit nodes; symbolic edge lists with 4 nodes and 3-4 edges',
                  thorough='all 24/120 column orders'),
      assumptions=['pandas works on object columns of the virtual table; replays read the written file with the real parser'])
def C11(tier):
    per = lambda m: list(itertools.permutations(range(m))) if tier == 'thorough' else [tuple(range(m)), tuple(reversed(range(m))), tuple(range(1, m)) + (0,)]
    yield c11, dict(n=4, pairs=[(0, 1), (1, 2), (0, 2), (2, 3)], tris=[(0, 1, 2)], orders=per(4))
    yield c11, dict(n=5, pairs=[(0, 1), (1, 2), (0, 2)], tris=[(0, 1, 2)], orders=per(3))
    yield c11, dict(n=6, pairs=[(1, 3), (3, 4), (1, 4)], tris=[(1, 3, 4)], orders=per(3))
    yield c11, dict(n=4, pairs=[(0, 1), (1, 2), (0, 2), (2, 3), (1, 3)], tris=[(0, 1, 2), (1, 2, 3)], orders=per(5)[:40])
    k5 = list(itertools.combinations(range(5), 2))
    yield c11, dict(n=5, pairs=k5, tris=list(itertools.combinations(range(5), 3)), orders=[tuple(range(10)), (3, 0, 7, 9, 1, 4, 8, 2, 6, 5)], free=3)
    yield c11, dict(n=13, pairs=[(1, 12), (1, 11), (2, 11), (11, 12), (2, 12), (1, 2), (0, 10)], tris=[(1, 11, 12), (1, 2, 12)], orders=[tuple(range(7)), (6, 5, 4, 3, 2, 1, 0)], free=3)
    yield c11_free, dict(n=4, m=3)
    if tier == 'thorough':
        yield c11_free, dict(n=4, m=4)


# ----------------------------------------------------------------- C12
def c12_coords(env, k, hi, ids=None):
    base = env.pick('base', [0, 1])
    ids = [env.int('id%d' % i, base, hi + base) for i in range(k)] if ids is None else [i + base for i in ids]
    for a, b in itertools.combinations(ids, 2):
        env.assume(a != b)
    xs, ys, zs = env.reals('x', k), env.reals('y', k), env.reals('z', k)
    cols = env.pick('cols', [['node', 'X', 'Y', 'Z'], [' Y ', 'Z', 'node ', ' X'], ['Z', ' X', 'Y', ' node']])
    path = env.table(cols, [[dict(node=ids[i], X=xs[i], Y=ys[i], Z=zs[i])[c.strip()] for c in cols] for i in range(k)], sep='\t')
    kw = {} if base == 0 and env.pick('explicit', [0, 1]) == 0 else dict(start_index_zero=base == 0)
    got = env.load(NRN).read_coordinates(filename=path, node_id_col='node', x_col='X', y_col='Y', delimiter='\t', **kw)
    cid = [env.fork(i) - base for i in ids]
    env.check('one entry per id', sorted(got) == sorted(cid), lambda: '%s %s' % (got, cid))
    env.check('pairs', all(len(tuple(got[c])) == 2 for c in got))
    if sorted(got) == sorted(cid):
        env.close('coordinates of the same row', [tuple(got[c]) for c in cid], [(xs[i], ys[i]) for i in range(k)])


def c12_missing(env):
    nr = env.load(NRN)
    p = env.no_file()
    env.check('missing coordinates give None', nr.read_coordinates(filename=p, node_id_col='n', x_col='x', y_col='y', delimiter=',') is None)
    t = nr.read_flow(filename=p)
    env.check('missing flow gives an empty table', len(t) == 0 and bool(t.empty))


def c12_flow(env, k):
    vals = [[env.int('a%d' % i, 1, 99999), env.int('b%d' % i, 1, 9), env.real('f%d' % i, -1e6, 1e6)] for i in range(k)]
    sep = env.pick('sep', ['\t', ','])
    hdr = env.pick('header', [True, False])
    path = env.table(['From ', 'To ', 'Volume '], vals, sep=sep, header=hdr)
    kw = {}
    if sep != '\t':
        kw['sep'] = sep
    if not hdr:
        kw['header'] = None
    t = env.load(NRN).read_flow(filename=path, **kw)
    env.eq('column names', [str(c) for c in t.columns], ['From ', 'To ', 'Volume '] if hdr else ['0', '1', '2'])
    env.close('entry for entry', t.to_numpy(), vals)


@spec('C12', quick_s=200, thorough_s=600,
      bounds=dict(quick='tables of 1-3 rows, ids 0..3 (shifted or not), and tables of 7 and 30 rows with fixed ids; symbolic coordinates, 3 column orders with blanks', thorough='4 rows, ids 0..4'),
      assumptions=['pandas works on object columns of the virtual table; replays read the written file with the real parser'])
def C12(tier):
    yield c12_coords, dict(k=1, hi=3)
    yield c12_coords, dict(k=2, hi=3)
    yield c12_coords, dict(k=3, hi=3)
    yield c12_coords, dict(k=7, hi=0, ids=[10, 2, 0, 11, 100, 20, 1])
    yield c12_coords, dict(k=30, hi=0, ids=[(7 * i) % 30 for i in range(30)])
    if tier == 'thorough':
        yield c12_coords, dict(k=4, hi=4)
    yield c12_missing, dict()
    yield c12_flow, dict(k=1)
    yield c12_flow, dict(k=3)


# ----------------------------------------------------------------- C13
TLN = 'pytspl.io.data_loaders.transportation_loader'


def loader(env):
    env.resources()
    m = env.load(TLN)
    f = getattr(m, 'DATA_FOLDER', None)
    if isinstance(f, str) and not f.startswith(env.root):
        env.setattr(m, 'DATA_FOLDER', env.root + '/data/transportation_networks')
    f = getattr(m, 'CHICAGO_SKETCH_DATA_FOLDER', None)
    if isinstance(f, str) and not f.startswith(env.root):
        env.setattr(m, 'CHICAGO_SKETCH_DATA_FOLDER', env.root + '/data/transportation_networks/chicago-sketch')
    return m


D = 'data/transportation_networks/'


def c13(env, pairs, others, orders, perm=False):
    E = [(v, u) if env.fork(env.int('o%d' % j, 0, 1)) else (u, v) for j, (u, v) in enumerate(pairs)]
    rows, want = [], {}
    for j, (u, v) in enumerate(E):
        a = env.real('vol%d' % j, 0, 1e6)
        rows.append([u + 1, v + 1, a, 1])
        if env.fork(env.int('two%d' % j, 0, 1)):
            b = env.real('rev%d' % j, 0, 1e6)
            rows.append([v + 1, u + 1, b, 1])
            want[(u, v)] = a - b
        else:
            want[(u, v)] = a
    for j, (u, v) in enumerate(others):
        rows.append([u + 1, v + 1, env.real('other%d' % j, 0, 1e6), 1])
    r = env.pick('order', orders)
    rows = {'as': rows, 'rev': rows[::-1], 'rot': rows[2:] + rows[:2]}[r]
    p = env.table(['From ', 'To ', 'Volume ', 'Cost '], rows, sep='\t', rel=D + 'net/net_flow.tntp')
    m = loader(env)
    if perm:
        # the edges need not come in sorted order
        E = [list(E), E[::-1], E[1:] + E[:1]][env.fork(env.int('perm', 0, 2))]
    got = m.load_flow_transportation('net', list(E))
    env.assume(env.touched(p))
    env.check('exactly one value per edge, its own direction', sorted(tuple(k) for k in got) == sorted(E), lambda: '%s %s' % (got, E))
    if sorted(tuple(k) for k in got) == sorted(E):
        env.close('net volume', [got[e] for e in E], [want[e] for e in E])


def c13_missing(env):
    m = loader(env)
    got = m.load_flow_transportation('nothing', [(0, 1)])
    env.check('no flow file, no flow', len(got) == 0)


def c13_dataset(env, flows):
    """the whole loader: network file, coordinates, flow"""
    pairs = [(0, 1), (1, 2), (2, 0), (2, 3)]
    E = [(v, u) if env.fork(env.int('o%d' % j, 0, 1)) else (u, v) for j, (u, v) in enumerate(pairs)]
    both = env.fork(env.int('both', 0, 1))
    net, fl, want = [], [], {}
    for j, (u, v) in enumerate(E):
        cap = env.real('cap%d' % j, 0, 9)
        a = env.real('vol%d' % j, 0, 1e6)
        net.append(['', u + 1, v + 1, cap, ';'])
        fl.append([u + 1, v + 1, a, 1])
        want[(u, v)] = a
        if both and j % 2:
            net.append(['', v + 1, u + 1, cap, ';'])
            b = env.real('rev%d' % j, 0, 1e6)
            fl.insert(0, [v + 1, u + 1, b, 1])
            want[(u, v)] = a - b
    co = [[i + 1, env.real('x%d' % i), env.real('y%d' % i), ';'] for i in range(4)]
    p = env.table(['~ ', 'init_node ', 'term_node ', 'capacity ', ';'], net, sep='\t', meta=8, rel=D + 'net/net_net.tntp')
    env.table(['node', 'X', 'Y', ';'], co[::-1], sep='\t', rel=D + 'net/net_node.tntp')
    if flows:
        env.table(['From ', 'To ', 'Volume ', 'Cost '], fl, sep='\t', rel=D + 'net/net_flow.tntp')
    m = loader(env)
    sc, coords, got = m.load_transportation_dataset('net')
    env.assume(env.touched(p))
    env.eq('edges of the network', [tuple(e) for e in sc.edges], sorted(E))
    env.close('coordinates of the nodes', [tuple(coords[i]) for i in range(4)], [(co[i][1], co[i][2]) for i in range(4)])
    if flows:
        env.check('exactly one value per edge, its own direction', sorted(tuple(k) for k in got) == sorted(E), lambda: '%s %s' % (got, E))
        env.close('net volume', [got[tuple(e)] for e in sc.edges], [want[tuple(e)] for e in sc.edges])
    else:
        env.check('no flow file, no flow', len(got) == 0)


def c13_chicago(env):
    """the incidence-file data set: flow values stay with the columns"""
    pairs = [(0, 1), (2, 1), (0, 2), (3, 2)]
    E = [(v, u) if env.fork(env.int('o%d' % j, 0, 1)) else (u, v) for j, (u, v) in enumerate(pairs)]
    E = env.pick('order', [E, E[::-1], E[2:] + E[:2]])
    B1 = [[-1 if e[0] == i else (1 if e[1] == i else 0) for e in E] for i in range(4)]
    row = [1 if 3 not in e else 0 for e in E]
    f = [env.real('f%d' % j) for j in range(4)]
    B = D + 'chicago-sketch/'
    cols = [str(j) for j in range(4)]
    p = env.table(cols, B1, header=False, rel=B + 'B1_chicago_sketch.csv')
    env.table(cols, [row], header=False, rel=B + 'B2t_chicago_sketch.csv')
    env.table(['Id', 'X', 'Y'], [[i, env.real('x%d' % i), env.real('y%d' % i)] for i in range(4)], rel=B + 'coordinates_chicago_sketch.csv')
    env.table(['f'], [[x] for x in f], header=False, rel=B + 'flow_chicago_sketch.csv')
    m = loader(env)
    sc, coords, got = m.load_transportation_dataset('chicago-sketch')
    env.assume(env.touched(p))
    env.eq('edges in column order', [tuple(e) for e in sc.edges], E)
    env.check('one value per edge', sorted(tuple(k) for k in got) == sorted(E))
    env.close('flow by column', [got[e] for e in E], f)


@spec('C13', quick_s=200, thorough_s=600,
      bounds=dict(quick='2-4 edges in any direction, each one- or two-way, further links, 3 row orders, symbolic volumes in [0,10^6]; the whole loader on 4 edges',
                  thorough='5 edges'),
      assumptions=['pandas works on object columns of the virtual table; replays read the written files with the real parser',
                   'the package data folder is redirected to scratch files'])
def C13(tier):
    o = ['as', 'rev', 'rot']
    yield c13, dict(pairs=[(0, 1)], others=[(1, 2), (2, 0)], orders=o)
    yield c13, dict(pairs=[(0, 1), (1, 2)], others=[(0, 2), (2, 0)], orders=o)
    yield c13, dict(pairs=[(0, 1), (1, 2), (0, 2)], others=[], orders=o)
    yield c13, dict(pairs=[(0, 10), (1, 2), (11, 0)], others=[(10, 1)], orders=o)
    yield c13, dict(pairs=[(0, 1), (1, 2), (2, 3)], others=[], orders=['as'], perm=True)
    yield c13, dict(pairs=[(1, 12), (11, 2), (2, 12)], others=[(1, 2), (11, 12)], orders=['as', 'rev'])
    if tier == 'thorough':
        yield c13, dict(pairs=[(0, 1), (1, 2), (0, 2), (2, 3)], others=[(3, 0)], orders=o)
    yield c13_missing, dict()
    yield c13_dataset, dict(flows=True)
    yield c13_dataset, dict(flows=False)
    yield c13_chicago, dict()


# ----------------------------------------------------------------- C40
DLN = 'pytspl.io.data_loaders.'


def module(env, name):
    """loader module whose package data lies in the scratch root"""
    env.resources()
    m = env.load(name)
    for k, v in list(vars(m).items()):
        if isinstance(v, str) and '/data/' in v and not v.startswith(env.root):
            env.setattr(m, k, env.root + v[v.index('/data/'):])
    return m


def places(env, coords, n, want=None):
    env.check('coordinates of exactly the nodes', sorted(int(k) for k in coords) == list(range(n)), lambda: repr(sorted(coords)))
    for k in coords:
        env.check('two coordinates', len(list(coords[k])) == 2)
    if want is not None:
        env.close('coordinates of the nodes', [list(coords[i]) for i in range(n)], want)


def flow_of(env, flow, E, f):
    env.check('exactly one value per edge, its own direction', sorted(tuple(int(v) for v in k) for k in flow) == sorted(E), lambda: '%s %s' % (list(flow), E))
    env.close('flow of each edge', [flow[e] for e in E], f)


def dl_load(env, name, direct, how):
    """the loader itself, or through load_dataset"""
    if how == 'direct':
        m = module(env, DLN + direct[0])
        return getattr(m, direct[1])()
    module(env, DLN + direct[0])
    env.listing('data/transportation_networks', ['net'])
    module(env, DLN + 'transportation_loader')
    return env.load('pytspl.io.dataset_loader').load_dataset(name)


def c40_paper(env, how, n):
    pairs = [(0, 1), (0, 2), (1, 2), (2, 3)] if n == 4 else [(0, 10), (1, 2), (2, 11), (9, 10)]
    nn = max(max(e) for e in pairs) + 1
    D = 'data/paper_data/'
    d = [env.real('d%d' % j, 0, 9) for j in range(4)]
    f = [env.real('f%d' % j) for j in range(4)]
    p = env.table(['Source', 'Target', 'Type', 'Distance', 'Capacity'], [[u, v, 'Undirected', x, 10] for (u, v), x in zip(pairs, d)], sep=' ',
                  rel=D + 'edges.csv')
    co = [[i, env.real('x%d' % i), env.real('y%d' % i)] if i < 4 else [i, i * 1.5, -0.25 * i] for i in range(nn)]
    env.table(['Id', 'X', 'Y'], env.pick('rows', [co, co[::-1]]), sep=' ', rel=D + 'coordinates.csv')
    env.table(['f'], [[x] for x in f], header=False, rel=D + 'flow.csv')
    sc, coords, flow = dl_load(env, 'paper', ('paper_loader', 'load_paper_data'), how)
    env.assume(env.touched(p))
    env.eq('edges', [tuple(e) for e in sc.edges], pairs)
    env.eq('nodes', list(sc.nodes), list(range(nn)))
    env.check('triangles of the graph', sorted(tuple(sorted(t)) for t in sc.triangles) == ([(0, 1, 2)] if n == 4 else []))
    ft = sc.edge_features
    env.check('every edge has a distance', sorted(ft) == pairs and all('Distance' in ft[e] for e in pairs), lambda: repr(ft))
    env.close('distance of each edge', [ft[e]['Distance'] for e in pairs], d)
    places(env, coords, nn, [c[1:] for c in co])
    flow_of(env, flow, pairs, f)


INC = dict(forex=('data/foreign_exchange/', 'B1.csv', 'B2t.csv', 'flow_FX_1538755200.csv', ('forex_loader', 'load_forex_data')),
           lastfm=('data/lastfm-dataset-1K/', 'B1-artist.csv', 'B2t-artist.csv', 'flow-artist.csv', ('lastfm_loader', 'load_lastfm_1k_artist')))


def c40_inc(env, which, how, n):
    """incidence files: values stay with the columns; node n-1 may be isolated"""
    D, f1, f2, ff, direct = INC[which]
    pairs = [(0, 1), (1, 2), (0, 2), (2, 3)]
    E = [(v, u) if env.fork(env.int('o%d' % j, 0, 1)) else (u, v) for j, (u, v) in enumerate(pairs)]
    E = env.pick('order', [E, E[::-1], E[2:] + E[:2]])
    fl = [i for i, e in enumerate(E) if 3 not in e]
    B2 = [[0] * 4]
    for i in fl:
        B2[0][i] = env.pick('s%d' % i, [1, -1])
    B2 = env.pick('tri', [B2])
    f = [env.real('f%d' % j) for j in range(4)]
    cols = [str(j) for j in range(4)]
    p = env.table(cols, [[-1 if e[0] == i else (1 if e[1] == i else 0) for e in E] for i in range(n)], header=False, rel=D + f1)
    env.table(cols, B2, header=False, rel=D + f2)
    env.table(['f'], [[x] for x in f], header=False, rel=D + ff)
    sc, coords, flow = dl_load(env, dict(lastfm='lastfm-1k-artist').get(which, which), direct, how)
    env.assume(env.touched(p))
    env.eq('edges in column order', [tuple(int(v) for v in e) for e in sc.edges], E)
    env.eq('nodes', list(sc.nodes), list(range(n)))
    env.check('triangles of the file', [tuple(sorted(int(v) for v in t)) for t in sc.triangles] == [(0, 1, 2)])
    places(env, coords, n)
    flow_of(env, flow, E, f)


def c40_wsn(env, how, sign):
    pairs = [(0, 1), (1, 2), (0, 2), (2, 3)]
    E = [(v, u) if env.fork(env.int('o%d' % j, 0, 1)) else (u, v) for j, (u, v) in enumerate(pairs)]
    E = env.pick('order', [E, E[::-1]])
    np = env.np
    flows = env.pick('flows', [(0.25, 1.0, 3.0, 0.5), (2.0, 0.0001, 0.75, 40.0)])
    q = [flows[j] * s for j, s in enumerate(sign)]
    r = [env.real('r%d' % j, 0.5, 2 ** 24) for j in range(4)]
    head = [env.real('h%d' % i, 0, 8) for i in range(4)]
    B1 = np.array([[-1.0 if e[0] == i else (1.0 if e[1] == i else 0.0) for e in E] for i in range(4)])
    p = env.pickled('data/wsn/water_network.pkl', (B1, list(q), [0.25] * 4, list(head), np.array(r)))
    sc, coords, y = dl_load(env, 'wsn', ('wsn_loader', 'load_wsn_data'), how)
    env.assume(env.touched(p))
    env.eq('edges in column order', [tuple(int(v) for v in e) for e in sc.edges], E)
    env.eq('nodes', list(sc.nodes), list(range(4)))
    places(env, coords, 4)
    env.check('triangles of the graph', [tuple(sorted(int(v) for v in t)) for t in sc.triangles] == [(0, 1, 2)])
    y = env.vec(y)
    env.check('heads of the nodes, then one value per edge', len(y) == 8)
    env.close('heads', y[:4], head)
    for j, s in enumerate(sign):
        env.close('head loss of each edge (Hazen-Williams)', y[4 + j], -r[j] * (s * flows[j] ** 1.852), tol=1e-4)


@spec('C40', quick_s=200, thorough_s=600,
      bounds=dict(quick='virtual package data: 4 edges with any distances, coordinates and flows (paper), every direction, three column orders and isolated last nodes '
                        '(forex, lastfm), every direction and flow sign for two sets of flow magnitudes, any resistances and heads (wsn); each loader directly and through load_dataset',
                  thorough='as quick with every combination'),
      assumptions=['pandas works on object columns of the virtual table; replays read the written files with the real parser',
                   'the package data folders are redirected to scratch files, so the shipped files themselves are not examined'])
def C40(tier):
    for how in ('direct', 'dataset'):
        for n in (4, 12):
            yield c40_paper, dict(how=how, n=n)
        for w in INC:
            for n in (4, 5):
                if tier == 'thorough' or (how == 'direct') == (n == 4) or w == 'forex':
                    yield c40_inc, dict(which=w, how=how, n=n)
        for s in ((1, -1, 0, 1), (-1, -1, 1, 1), (0, 1, 1, -1)):
            if tier == 'thorough' or how == 'direct' or s[0] == 1:
                yield c40_wsn, dict(how=how, sign=s)
