"""C34-C35: what is drawn where.  The drawing library is a recorder (symx/stubs.py) in both worlds."""
import itertools, math
from .registry import spec
from .common import *

PLT = 'pytspl.plot.plot.SCPlot'
COMPS = ('gradient', 'curl', 'harmonic')


def plotter(env, n, E, T, coords='fixed', nodes=None):
    plt = env.plotting()
    sc = env.cls(SCN)(nodes=list(nodes) if nodes is not None else list(range(n)), edges=[tuple(e) for e in E],
                      triangles=[tuple(t) for t in T])
    if coords == 'fixed':
        coords = {i: (0.25 + 1.5 * i, (i * i) % 5 + 0.5) for i in range(n)}
    return plt, sc, env.cls(PLT)(sc, coordinates=coords) if coords is not None else env.cls(PLT)(sc)


def seq(x):
    if isinstance(x, str) or x is None:
        return None
    if hasattr(x, 'tolist') or hasattr(x, 'raw'):
        x = list(x)
    return list(x) if isinstance(x, (list, tuple)) else None


def edges_drawn(axes):
    """[(edge, colour or None, options)]"""
    out = []
    for name, a, k, r in axes.log:
        if name == 'nx_edges':
            el, pos = a
            c = seq(k.get('edge_color'))
            for i, e in enumerate(el):
                out.append((tuple(e), c[i] if c is not None and len(c) == len(el) else None, k, pos))
    return out


def nodes_drawn(axes):
    """[((x, y), colour or None, options)]"""
    out = []
    for name, a, k, r in axes.log:
        if name == 'scatter':
            xs, ys = list(a[0] if a else k['x']), list(a[1] if len(a) > 1 else k['y'])
            c = seq(k.get('c'))
            for i, p in enumerate(zip(xs, ys)):
                out.append((p, c[i] if c is not None and len(c) == len(xs) else None, k))
        elif name == 'nx_nodes':
            c = seq(k.get('node_color'))
            for i, v in enumerate(a[0]):
                out.append((tuple(a[1][v]), c[i] if c is not None and len(c) == len(a[0]) else None, k))
    return out


def texts(axes):
    out = []
    for name, a, k, r in axes.log:
        if name == 'text':
            a = list(a) + [k[q] for q in ('x', 'y', 's')[len(a):]]
            out.append((a[0], a[1], a[2], r))
        elif name == 'annotate':
            out.append((a[1][0], a[1][1], a[0], r))
    return out


def polygons(axes):
    return [[tuple(p) for p in a[0].xy] for name, a, k, r in axes.log if name in ('add_patch', 'add_artist')]


def drawings(axes):
    return [e[0] for e in axes.log if e[0] in ('nx_edges', 'nx_nodes', 'scatter', 'text', 'annotate', 'add_patch', 'add_artist', 'plot', 'fill')]


def check_edges(env, axes, flow, lim=None, what='', pos=None):
    """every edge of flow (a dict) is drawn once with the colour of its own flow and common limits"""
    got = edges_drawn(axes)
    env.check(what + 'every edge drawn once', sorted(e for e, c, k, p in got) == sorted(flow),
              lambda: 'drawn %s, flow on %s' % ([e for e, c, k, p in got], list(flow)))
    vals = list(flow.values())
    lo, hi = lim or (None, None)
    if lo is None:
        mn = vals[0]
        for v in vals[1:]:
            mn = env.ite(v < mn, v, mn)
        lo = mn - env.abs(mn) / 2
    if hi is None:
        hi = vals[0]
        for v in vals[1:]:
            hi = env.ite(v > hi, v, hi)
    for e, c, k, p in got:
        if e in flow:
            env.check(what + 'edge has a colour value', c is not None)
            if c is not None:
                env.close(what + 'edge drawn with the colour of its own flow', c, flow[e])
            env.close(what + 'lower colour limit', k.get('edge_vmin'), lo)
            env.close(what + 'upper colour limit', k.get('edge_vmax'), hi)
            if pos is not None:
                for v in e:
                    env.close(what + 'edge drawn between its own nodes', list(p[v]), list(pos[v]))
    return lo, hi


def check_bar(env, axes, lim, what=''):
    bars = [b for b in axes.figure.bars if b[1] is axes]
    for b in bars:
        c = b[0].get_clim()
        env.close(what + 'colour bar limits', list(c), list(lim))


# ----------------------------------------------------------------- C34
def c34_dict(env, top, limits, every):
    """flow as a dict in every order of the edges"""
    n, E, T = complex_of(top)
    E = orient_fork(env, E)
    plt, sc, pl = plotter(env, n, E, T)
    order = env.pick('order', list(itertools.permutations(E))[::every])
    flow = dict(zip(order, env.reals('f', len(E))))
    if limits == 'flowless':
        ax = plt.figure().add_subplot(1, 1, 1)
        pl.draw_sc_edges(edge_color=[flow[e] for e in E], ax=ax)
        check_edges(env, ax, {e: flow[e] for e in E}, what='colours without flow: ', pos=pl.pos)
        return
    k = {}
    if limits in ('min', 'both'):
        k['edge_vmin'] = env.real('vmin')
    if limits in ('max', 'both'):
        k['edge_vmax'] = env.real('vmax')
    ax = plt.figure().add_subplot(1, 1, 1)
    pl.draw_sc_edges(edge_flow=dict(flow), ax=ax, **k)
    lim = check_edges(env, ax, flow, (k.get('edge_vmin'), k.get('edge_vmax')), pos=pl.pos)
    check_bar(env, ax, lim)


def c34_array(env, top, kind, every, lab, lim=False):
    """a flow array follows the edge list, in every order of the edge list"""
    n, E, T = complex_of(top)
    order = env.pick('order', list(itertools.permutations(E))[::every])
    E = orient_fork(env, order)
    plt, sc, pl = plotter(env, n, E, T)
    m = len(E)
    vals = env.reals('f', m)
    want = dict(zip(E, vals))
    flow = dict(want) if kind == 'dict' else list(vals) if kind == 'list' else env.np.array(vals)
    ax = plt.figure().add_subplot(1, 1, 1)
    k = {}
    off = 0.15
    if lim:
        off = env.real('offset', 0, 3)
        k = dict(edge_vmin=env.real('vmin'), edge_vmax=env.real('vmax'), offset=off)
    pl.draw_network(edge_flow=flow, ax=ax, with_labels=lab, directed=env.pick('dir', [True, False]), **k)
    l = check_edges(env, ax, want, (k['edge_vmin'], k['edge_vmax']) if lim else None, pos=pl.pos)
    check_bar(env, ax, l)
    tx = [t for t in texts(ax) if not isinstance(t[2], (int, str))]
    env.check('one label per edge', len(tx) == (m if lab else 0), lambda: str(len(tx)))
    if lab:
        check_labels(env, tx, want, pl.pos, off)
        env.check('one label per node', sorted(str(t[2]) for t in texts(ax) if isinstance(t[2], (int, str))) == [str(i) for i in range(n)])
    else:
        env.check('no labels', not texts(ax))


def near(env, t, e, pos, off):
    (x1, y1), (x2, y2) = pos[e[0]], pos[e[1]]
    mx, my = (x1 + x2) / 2, (y1 + y2) / 2
    s = 1e-6
    return env.all(t[0] - mx <= off + s, mx - t[0] <= off + s, t[1] - my <= off + s, my - t[1] <= off + s)


def check_labels(env, tx, want, pos, off):
    """every edge has a text with its own flow near its own midpoint (texts may be written in any order)"""
    for e, v in want.items():
        env.check('label shows the flow of its edge next to its midpoint',
                  env.any([env.all(env.abs(t[2] - v) <= 1e-9, near(env, t, e, pos, off)) for t in tx]), lambda: 'edge %s' % (e,))


def c34_labels(env, n, E, kind):
    """labels of edges between nodes at any coordinates, any offset"""
    pos = {i: (env.real('x%d' % i, -4, 4), env.real('y%d' % i, -4, 4)) for i in range(n)}
    if kind == 'level':
        for i in range(1, n):
            env.assume(pos[i][1] == pos[0][1])
    if kind == 'upright':
        for i in range(1, n):
            env.assume(pos[i][0] == pos[0][0])
    E = orient_fork(env, E)
    plt, sc, pl = plotter(env, n, E, [], coords=pos)
    off = env.real('offset', 0, 3)
    want = dict(zip(E, env.reals('f', len(E))))
    labels = dict(reversed(list(want.items())))
    ax = plt.figure().add_subplot(1, 1, 1)
    items = pl.draw_edge_labels(edge_labels=labels, offset=off, ax=ax)
    tx = texts(ax)
    env.check('one label per edge', len(tx) == len(E))
    env.check('one returned label per edge', sorted(items) == sorted(E))
    for e in E:
        own = [t for t in tx if t[3] is items.get(e)]
        env.check('returned label belongs to the axes', len(own) == 1)
        if own:
            env.close('returned label shows the flow of its edge', own[0][2], want[e])
            env.check('label next to the midpoint of its edge', near(env, own[0], e, pos, off))


def letter(axes):
    for name, a, k, r in axes.log:
        if name == 'set_title':
            t = str(a[0] if a else k['label'])
            for w in ('mathbf', 'lambda', 'mathrm', 'text', 'boldsymbol'):
                t = t.replace(w, '')
            for q in 'GCH':
                if q in t:
                    return q
    return None


def c34_hodge(env, top, rounded, which):
    n, E, T = complex_of(top)
    plt, sc, pl = plotter(env, n, E, T)
    m = len(E)
    f = env.flow('f', m)
    P = hodge_projectors(n, E, T)
    part = {c[0].upper(): frmul(env, P[c], env.vec(f)) for c in COMPS}
    k = {} if rounded is None else dict(round_fig=rounded is not False)
    sig = 2
    if rounded not in (None, True, False):
        sig = k['round_sig_fig'] = rounded
    if which:
        k['component'] = which
    pl.draw_hodge_decomposition(flow=f, **k)
    axs = [a for g in plt.figs for a in g.axes if drawings(a)]
    comps = [which[0].upper()] if which else ['G', 'C', 'H']
    names = [letter(a) for a in axs]
    if None in names:
        names = comps
    env.check('one drawing per component', sorted(names) == sorted(comps) and len(axs) == len(comps), lambda: str(names))
    for q, a in zip(names, axs):
        got = edges_drawn(a)
        env.check('every edge drawn once', sorted(e for e, *_ in got) == sorted(E))
        for e, c, kk, p in got:
            want = part[q][E.index(e)]
            tol = 1e-6 if rounded is False else 0.5 * 10 ** -sig + 1e-6
            env.check('%s drawing shows the flow of the component' % q, env.abs(c - want) <= tol, lambda: 'edge %s' % (e,))
        tx = [t for t in texts(a) if not isinstance(t[2], (int, str))]
        env.check('one label per edge', len(tx) == m, lambda: str(len(tx)))
        for e, c, kk, p in got:
            env.check('label of the component drawing', env.any([env.all(env.abs(t[2] - c) <= 1e-9, near(env, t, e, pl.pos, 0.15)) for t in tx]))


def c34_eig(env, top, comp, mode, rounded):
    """one drawing per requested eigenvector, each with its own eigenvector as the flow"""
    n, E, T = complex_of(top)
    plt, sc, pl = plotter(env, n, E, T)
    m = len(E)
    U, w = sc.get_component_eigenpair(component=comp)
    U, w = env.mat(U), env.vec(w)
    q = len(w)
    k = dict(component=comp)
    if mode == 'pick' and q:
        cnt = env.fork(env.int('cnt', 1, min(q + 1, 5)))
        idx = [env.fork(env.int('i%d' % j, 0, q - 1)) for j in range(cnt)]
        k['eigenvector_indices'] = env.np.array(idx) if env.fork(env.int('arr', 0, 1)) else list(idx)
    else:
        idx = list(range(q))
    if rounded is not None:
        k['round_fig'] = rounded
    pl.draw_eigenvectors(**k)
    axs = [a for g in plt.figs for a in g.axes if drawings(a)]
    if not env.check_len('one drawing per eigenvector', axs, len(idx)):
        return
    tol = 1e-6 if rounded is False else 0.005 + 1e-6
    for a, i in zip(axs, idx):
        got = edges_drawn(a)
        env.check('every edge drawn once', sorted(e for e, *_ in got) == sorted(E))
        for e, c, kk, p in got:
            env.check('drawing shows its own eigenvector', env.abs(c - U[E.index(e)][i]) <= tol, lambda: 'edge %s of vector %d' % (e, i))
    # the drawings have places of their own in the figure
    subs = [(a, x[1]) for g in plt.figs for x in g.log if x[0] == 'add_subplot' for a in [x[3]]]
    if all(len(x) == 3 for a, x in subs):
        env.check('every drawing has a place of its own', len({x[2] for a, x in subs}) == len(subs))
        env.check('places exist', all(1 <= x[2] <= x[0] * x[1] for a, x in subs))


OPTS = ['node_size', 'node_color', 'node_edge_colors', 'font_size', 'font_color', 'font_weight', 'cmap', 'vmin', 'vmax', 'alpha', 'margins',
        'edge_color', 'edge_width', 'arrowsize', 'edge_cmap', 'edge_vmin', 'edge_vmax', 'offset']
BAD = ['foo', 'color', 'Node_size', 'edge_colour', 'labels', 'edge_labels', 'self', 'kwargs', 'size', 'node_sizes', 'edge_flows', 'arrows']


def c34_unknown(env, top, flow):
    n, E, T = complex_of(top)
    plt, sc, pl = plotter(env, n, E, T)
    f = env.flow('f', len(E)) if flow else None
    bad = env.pick('bad', BAD)
    k = {bad: {e: 1.0 for e in E} if bad == 'edge_labels' else 1}
    if bad == 'self':
        return
    if env.fork(env.int('more', 0, 1)):
        k[env.pick('with', OPTS[:1] + OPTS[11:14])] = 3
    lab = bool(env.fork(env.int('lab', 0, 1)))
    env.raises('unknown option %s refused' % bad, ValueError, lambda: pl.draw_network(edge_flow=f, with_labels=lab, **k))


def c34_known(env, top, flow):
    n, E, T = complex_of(top)
    plt, sc, pl = plotter(env, n, E, T)
    f = env.flow('f', len(E)) if flow else None
    o = env.pick('opt', OPTS)
    v = dict(cmap=None, edge_cmap=None, node_color='red', node_edge_colors='red', font_color='red', font_weight='bold', edge_color='red',
             margins=0.25).get(o, 0.5)
    ok, _ = env.runs('documented option %s accepted' % o, lambda: pl.draw_network(edge_flow=f, **{o: v}))
    axs = [a for g in plt.figs for a in g.axes if drawings(a)]
    env.check('drawn', len(axs) == 1)
    for a in axs:
        got = edges_drawn(a)
        env.check('every edge drawn once', sorted(e for e, *_ in got) == sorted(E))
        if o in ('edge_vmin', 'edge_vmax') and flow:
            env.check('given colour limit is used', all(k[o] == 0.5 for e, c, k, p in got))


@spec('C34', quick_s=200, thorough_s=600,
      bounds=dict(quick='any flow values; every order and direction of up to 4 edges (a selection of orders for 5); labels of up to 2 edges with '
                        'any coordinates and offsets; component drawings of 6 complexes, eigenvector drawings of 5 with any selection of up to 4 vectors; integer flows',
                  thorough='every order and direction of up to 5 edges; 10 complexes'))
def C34(tier):
    th = tier == 'thorough'
    for t in ('tri', 'path'):
        for l in ('default', 'min', 'max', 'both', 'flowless'):
            yield c34_dict, dict(top=t, limits=l, every=1)
    yield c34_dict, dict(top='paw', limits='default', every=1 if th else 5)
    if th:
        yield c34_dict, dict(top='diamond2', limits='default', every=1), dict(max_paths=8000)
    for t in ('tri', 'star'):
        for kind in ('array', 'list', 'dict'):
            yield c34_array, dict(top=t, kind=kind, every=1, lab=kind != 'list')
    yield c34_array, dict(top='paw', kind='array', every=1 if th else 5, lab=True)
    yield c34_array, dict(top='tri', kind='array', every=1, lab=True, lim=True)
    for kind in ('array', 'dict'):
        yield c34_array, dict(top='tri', kind=kind, every=1, lab=True, _ints=True)
    for kind in ('any', 'level', 'upright'):
        yield c34_labels, dict(n=2, E=[(0, 1)], kind=kind)
        if kind != 'any' or th:
            yield c34_labels, dict(n=3, E=[(0, 1), (2, 1)], kind=kind)
    for t in ('paw', 'tri', 'hole', 'edge', 'diamond') + (('house', 'disc', 'isolated', 'papermix') if th else ()):
        for r in (None, False, 3):
            yield c34_hodge, dict(top=t, rounded=r, which=None)
        for c in COMPS:
            yield c34_hodge, dict(top=t, rounded=False, which=c)
    for t in ('paw', 'tri', 'square', 'diamond', 'k4one') + (('house', 'disc', 'isolated', 'papermix') if th else ()):
        for c in COMPS:
            yield c34_eig, dict(top=t, comp=c, mode='all', rounded=None)
        yield c34_eig, dict(top=t, comp='gradient', mode='pick', rounded=False)
    yield c34_unknown, dict(top='tri', flow=True)
    yield c34_unknown, dict(top='tri', flow=False)
    yield c34_known, dict(top='paw', flow=True)
    yield c34_known, dict(top='paw', flow=False)


# ----------------------------------------------------------------- C35
def coords(env, n, order=None):
    pos = {i: (env.real('x%d' % i, -4, 4), env.real('y%d' % i, -4, 4)) for i in range(n)}
    return {i: pos[i] for i in order} if order else pos


def others(plt, ax):
    return [a for g in plt.figs for a in g.axes if a is not ax]


def check_limits(env, ax, pos):
    xs, ys = [p[0] for p in pos.values()], [p[1] for p in pos.values()]
    for name, v in (('set_xlim', xs), ('set_ylim', ys)):
        c = [e for e in ax.log if e[0] == name]
        env.check('axis limits are set', bool(c))
        if not c:
            continue
        a, k = c[-1][1], c[-1][2]
        l = list(a[0]) if len(a) == 1 else list(a)
        if not l:
            l = [k.get('left', k.get('bottom', k.get('xmin', k.get('ymin')))), k.get('right', k.get('top', k.get('xmax', k.get('ymax'))))]
        mn = mx = v[0]
        for x in v[1:]:
            mn, mx = env.ite(x < mn, x, mn), env.ite(x > mx, x, mx)
        pad = (mx - mn) * 0.05
        env.close('limits enclose the nodes with a 5% margin', l, [mn - pad, mx + pad])


def check_nodes(env, ax, nodes, pos, colors=None, vlim=None):
    got = nodes_drawn(ax)
    if not env.check_len('every node drawn once', got, len(nodes)):
        return
    for (p, c, k), v in zip(got, nodes):
        env.close('node drawn at its own coordinates in node list order', list(p), list(pos[v]))
    if colors is not None:
        for (p, c, k), v in zip(got, colors):
            env.check('node has a colour value', c is not None)
            if c is not None:
                env.close('colour stays with its node', c, v)


def check_node_labels(env, tx, nodes, pos):
    env.check('one label per node', sorted(str(t[2]) for t in tx) == sorted(str(v) for v in nodes), lambda: str([t[2] for t in tx]))
    for t in tx:
        for v in nodes:
            if str(v) == str(t[2]):
                env.close('label at its own node', [t[0], t[1]], list(pos[v]))


def check_polys(env, ax, T, pos):
    polys = polygons(ax)
    if not env.check_len('every triangle filled once', polys, len(T)):
        return
    for p in polys:
        env.check('three vertices', len(p) == 3 or (len(p) == 4))
    for t in T:
        hits = [env.any([env.all([env.all(p[a][0] == pos[v][0], p[a][1] == pos[v][1]) for a, v in enumerate(q)])
                         for q in itertools.permutations(t)]) for p in polys]
        env.check('triangle filled at its three vertices', env.any(hits), lambda: str(t))


def two_axes(env, plt):
    """the target axes and where the current axes are"""
    g = plt.figure()
    a = g.add_subplot(1, 2, 1)
    b = g.add_subplot(1, 2, 2)
    if env.fork(env.int('cur', 0, 1)):
        plt.figure().add_subplot(1, 1, 1)
    return a


def c35_nodes(env, n, order, given, lab, col):
    nodes = env.pick('nodes', [list(p) for p in itertools.permutations(range(n))])
    pos = coords(env, n, order)
    plt, sc, pl = plotter(env, n, [], [], coords=dict(pos), nodes=nodes)
    ax = two_axes(env, plt)
    k = dict(with_labels=lab)
    colors = None
    if col:
        colors = env.reals('c', n)
        k['node_color'] = list(colors)
        if col == 'lim':
            k['vmin'], k['vmax'] = env.real('vmin'), env.real('vmax')
    if given:
        k['ax'] = ax
    else:
        ax = plt.gca()
    pl.draw_sc_nodes(**k)
    check_nodes(env, ax, nodes, pos, colors)
    tx = texts(ax)
    if lab:
        check_node_labels(env, tx, nodes, pos)
    else:
        env.check('no labels', not tx)
    check_limits(env, ax, pos)
    for o in others(plt, ax):
        env.check('nothing drawn into other axes', not o.log, lambda: str([e[0] for e in o.log]))
    for g in plt.figs:
        for b in g.bars:
            env.check('colour bar belongs to the given axes', b[1] is ax)
    if col == 'lim':
        for p, c, kk in nodes_drawn(ax):
            env.close('given limits', [kk.get('vmin'), kk.get('vmax')], [k['vmin'], k['vmax']])


def c35_network(env, top, flow, kind, given):
    """whole network: symbolic coordinates, the call draws into the given axes only"""
    n, E, T = complex_of(top)
    T = tri_order(env, T[:1]) + T[1:]
    pos = coords(env, n)
    if kind == 'network' and flow:
        pos = {i: (1.25 * i, (i * i) % 3 + 0.5) for i in range(n)}
    plt, sc, pl = plotter(env, n, E, T, coords=dict(pos))
    ax = two_axes(env, plt)
    k = {}
    if given:
        k['ax'] = ax
    else:
        ax = plt.gca()
    f = env.flow('f', len(E)) if flow else None
    if kind == 'network':
        pl.draw_network(edge_flow=f, **k)
        check_nodes(env, ax, list(range(n)), pos)
        check_node_labels(env, [t for t in texts(ax) if isinstance(t[2], (int, str))], list(range(n)), pos)
    elif kind == 'labels':
        pl.draw_edge_labels(dict(zip(E, env.vec(f) if flow else ['a%d' % i for i in range(len(E))])), **k)
    else:
        pl.draw_sc_edges(edge_flow=dict(zip(E, env.vec(f))) if flow else None, **k)
    if kind != 'labels':
        got = edges_drawn(ax)
        env.check('every edge drawn once', sorted(e for e, *_ in got) == sorted(E))
        for e, c, kk, p in got:
            for v in e:
                env.close('edge drawn between its own nodes', list(p[v]), list(pos[v]))
        check_polys(env, ax, T, pos)
    check_limits(env, ax, pos)
    for o in others(plt, ax):
        env.check('nothing drawn into other axes', not drawings(o), lambda: str([e[0] for e in o.log]))
    for g in plt.figs:
        for b in g.bars:
            env.check('colour bar belongs to the given axes', b[1] is ax)


def c35_layout(env, n, pairs, T):
    """no coordinates: one layout for all nodes, also isolated ones, reused by later drawings"""
    E = [p for j, p in enumerate(pairs) if env.fork(env.int('on%d' % j, 0, 1))]
    E = orient_fork(env, E[:2]) + E[2:]
    es = {frozenset(e) for e in E}
    T = [t for t in T if all(frozenset(p) in es for p in itertools.combinations(t, 2))]
    nodes = env.pick('nodes', [list(range(n)), list(range(n))[::-1]])
    plt, sc, pl = plotter(env, n, E, T, coords=None, nodes=nodes)
    first = env.pick('first', ['network', 'nodes', 'edges'])
    draw = dict(network=pl.draw_network, nodes=lambda ax: pl.draw_sc_nodes(with_labels=True, ax=ax), edges=pl.draw_sc_edges)

    def at(ax):
        p = {}
        got = nodes_drawn(ax)
        for (q, c, k), v in zip(got, nodes):
            p[v] = list(q)
        for t in texts(ax):
            p.setdefault(('label', int(str(t[2]))), [t[0], t[1]])
        return got, p

    seen = None
    for rnd, kind in enumerate((first, 'nodes', 'network', 'edges')):
        ax = plt.figure().add_subplot(1, 1, 1)
        ok, _ = env.runs('drawing without coordinates works', lambda: draw[kind](ax=ax))
        if not ok:
            return
        got, p = at(ax)
        if kind != 'edges':
            env.check_len('every node drawn once', got, n)
            for v in nodes:
                env.check('every node has a place', v in p)
                if ('label', v) in p and v in p:
                    env.close('label at its node', p['label', v], p[v])
        ed = edges_drawn(ax)
        if kind != 'nodes':
            env.check('every edge drawn once', sorted(e for e, *_ in ed) == sorted(E))
            for e, c, k, pos in ed:
                for v in e:
                    p.setdefault(v, list(pos[v]))
        if seen is None:
            seen = {}
        for v, q in p.items():
            if v in seen:
                env.close('layout is reused', q, seen[v])
            else:
                seen[v] = q
        if kind != 'nodes':
            if all(v in seen for v in range(n)):
                check_polys(env, ax, T, seen)


@spec('C35', quick_s=200, thorough_s=600,
      bounds=dict(quick='any coordinates, colours and limits; node lists of 3 nodes in every order; complexes up to 5 edges and 2 triangles in every '
                        'listing; every subset of 3 edges on 4 nodes without coordinates',
                  thorough='4 nodes in every order, complexes up to 8 edges and 4 triangles, every graph on 4 nodes without coordinates'))
def C35(tier):
    th = tier == 'thorough'
    for n in (3,) + ((4,) if th else ()):
        for order in (None, (2, 0, 1) if n == 3 else (2, 0, 3, 1)):
            for given, lab, col in ((True, True, None), (True, False, 'def'), (False, True, 'lim'), (False, False, None), (True, True, 'lim')):
                yield c35_nodes, dict(n=n, order=order, given=given, lab=lab, col=col)
    yield c35_nodes, dict(n=1, order=None, given=True, lab=True, col=None)
    for t in ('tri', 'diamond2', 'isolated') + (('bowtie', 'wheel', 'k4full', 'disc') if th else ()):
        for kind, flow in (('network', False), ('network', True), ('edges', False), ('edges', True)):
            for given in (True, False):
                yield c35_network, dict(top=t, flow=flow, kind=kind, given=given)
    for flow in (True, False):
        yield c35_network, dict(top='edge', flow=flow, kind='labels', given=True)
    yield c35_layout, dict(n=4, pairs=[(0, 1), (2, 1), (0, 2)] + ([(1, 3), (3, 0), (2, 3)] if th else []), T=[(0, 1, 2)])


# ----------------------------------------------------------------- C39
EFD = 'pytspl.filters.edge_flow_denoising.EdgeFlowDenoising'
CHF = 'pytspl.filters.chebyshev_filter_design.ChebyshevFilterDesign'


def series(plt):
    """[(label or None, xs, ys)] of everything plotted, in order"""
    out, names = [], []
    for f in plt.figs:
        for ax in f.axes:
            for name, a, k, r in ax.log:
                if name in ('plot', 'scatter', 'stem', 'step', 'semilogy', 'semilogx', 'loglog'):
                    x = a[0] if a else k.get('x')
                    y = a[1] if len(a) > 1 else k.get('y')
                    out.append([k.get('label'), x, y])
                elif name == 'legend' and (a or 'labels' in k):
                    names = list(a[-1] if a else k['labels'])
    for name, a, k, r in plt.log:
        if name == 'legend' and (a or 'labels' in k):
            names = list(a[-1] if a else k['labels'])
    for s, n in zip(out, names):
        s[0] = s[0] or n
    return out


def lap(n, E, T, p):
    low, up = lap_LU(n, E, T)
    return dict(L1=addm(low, up), L1L=low, L1U=up)[p]


def c39_denoise(env, top, p, mus):
    n, E, T = complex_of(top)
    m = len(E)
    plt = env.plotting()
    flt = env.cls(EFD)(make_sc(env, n, E, T))
    env.raises('refused before denoising', ValueError, flt.plot_desired_frequency_response, p)
    f, ft = env.flow('f', m), env.flow('t', m)
    env.assume(sum([a * a for a in env.vec(ft)]) >= 1)
    if len(mus) == 1:
        mus = [env.real('mu', 0, 4)]
    flt.denoise(f, ft, p, mus)
    before = len(series(plt))
    flt.plot_desired_frequency_response(p_choice=p)
    s = series(plt)[before:]
    env.check('one curve', len(s) == 1, lambda: repr(len(s)))
    w = [float(x) for x in const_eigvals(lap(n, E, T, p))]
    env.close('frequencies', env.vec(s[0][1]), w)
    env.close('response of the last parameter at each frequency', env.vec(s[0][2]), [1 / (1 + mus[-1] * x) for x in w])
    env.close('the record is what is drawn', env.vec(s[0][2]), env.vec(env.mat(flt.history['frequency_responses'])[-1]))


def labelled(env, s, exact, approx):
    """(exact, approximated) series by label, by order where there is no label"""
    env.check('two sets of points', len(s) == 2, lambda: repr([x[0] for x in s]))
    a, b = s
    if a[0] and 'approx' in str(a[0]).lower() and not (b[0] and 'approx' in str(b[0]).lower()):
        a, b = b, a
    return a, b


def c39_series(env, top, p, kw):
    n, E, T = complex_of(top)
    m = len(E)
    plt = env.plotting()
    o = env.cls(CHF)(make_sc(env, n, E, T))
    o.plot_chebyshev_series_approx(p_choice=p, **kw)
    w = [float(x) for x in const_eigvals(lap(n, E, T, p))]
    a, b = labelled(env, series(plt), 'Function', 'Chebyshev approx')
    cut, st = kw.get('cut_off_frequency', 0.01), kw.get('steep', 100)
    want = [1 / (1 + math.exp(-st * (x - cut))) for x in w]
    env.close('frequencies of the function', env.vec(a[1]), w)
    env.close('function at each frequency', env.vec(a[2]), want)
    env.close('frequencies of the approximation', env.vec(b[1]), w)
    # the stand-in approximation is the function plus 1/4
    env.close('approximation at each frequency', env.vec(b[2]), [x + 0.25 for x in want])
    env.check('one approximation', len(env.cheb_log) == 1)
    log = env.cheb_log[0]
    env.close('approximated from zero to the estimated largest eigenvalue', list(log['domain']), [0, o.get_alpha(p_choice=p)[1]])
    env.check('number of points', log['n'] == kw.get('n', m), lambda: repr(log['n']))


def c39_response(env, top, p, comp, L, twice):
    n, E, T = complex_of(top)
    m = len(E)
    plt = env.plotting()
    sc = make_sc(env, n, E, T)
    f = env.flow('f', m)
    exact = frmul(env, hodge_projectors(n, E, T)[comp], env.vec(f))
    env.assume(sum([a * a for a in exact]) >= 1)
    o = env.cls(CHF)(sc)
    env.raises('refused before a run', ValueError, o.plot_frequency_response_approx, flow=f, component=comp)
    o.apply(f=f, p_choice=p, component=comp, L=L)
    if twice:
        o.plot_frequency_response_approx(flow=f, component=comp)
    before = len(series(plt))
    o.plot_frequency_response_approx(f, comp, **(dict(fontdict={'fontsize': 9}) if twice else {}))
    U, w = env.load('pytspl.decomposition.eigendecomposition').get_eigendecomposition(sc.hodge_laplacian_matrix(rank=1).toarray())
    Ut = tr(env.mat(U), m)
    a, b = labelled(env, series(plt)[before:], 'True component', 'Chebyshev approx component')
    w = [float(x) for x in const_eigvals(lap(n, E, T, 'L1'))]
    env.close('frequencies of the component', env.vec(a[1]), w)
    env.close('true component at each frequency', env.vec(a[2]), mulv(Ut, exact), tol=1e-4)
    env.close('frequencies of the estimate', env.vec(b[1]), w)
    env.close('estimate of the largest filter at each frequency', env.vec(b[2]), mulv(Ut, env.vec(o.history['f_estimated'][L - 1])), tol=1e-4)
    env.close('the record is what is drawn', env.vec(b[2]), env.vec(env.mat(o.history['frequency_responses'])[-1]))


@spec('C39', quick_s=200, thorough_s=600,
      bounds=dict(quick='flows in [-8,8] (component or true flow of norm >= 1); low-pass: any single parameter in [0,4] and parameter lists, three operators, complexes up to 6 '
                        'edges; Chebyshev: sizes 1-3, any coefficients in [-10,10], cut-off and steepness default and given, three operators',
                  thorough='complexes up to 10 edges, sizes up to 4'),
      assumptions=['the drawing library is a recorder; chebpy (not installed) is a stand-in with arbitrary coefficients whose values differ from the approximated function',
                   'eigenvectors are those of the decomposition the code uses'])
def C39(tier):
    th = tier == 'thorough'
    for t in ('tri', 'paw', 'path') + (('house', 'disc', 'papermix') if th else ()):
        for p in ('L1', 'L1L', 'L1U'):
            yield c39_denoise, dict(top=t, p=p, mus=[0.5]), dict(query_ms=4000)
            yield c39_denoise, dict(top=t, p=p, mus=[0.25, 2.0, 1.0])
    for t in ('paw', 'diamond') + (('house', 'disc') if th else ()):
        for p in ('L1', 'L1L', 'L1U'):
            for kw in ({}, dict(n=3), dict(n=5, cut_off_frequency=0.5, steep=6)):
                yield c39_series, dict(top=t, p=p, kw=kw)
    for t, p, c, L in (('paw', 'L1L', 'gradient', 2), ('paw', 'L1U', 'curl', 1), ('diamond', 'L1', 'gradient', 3), ('hole', 'L1L', 'harmonic', 2)) + \
            ((('house', 'L1L', 'gradient', 4), ('disc', 'L1U', 'curl', 3)) if th else ()):
        for tw in (False, True):
            yield c39_response, dict(top=t, p=p, comp=c, L=L, twice=tw)
