"""Stand-ins for drawing, convex optimisation, randomness and operating system, shared by the symbolic world and
(drawing recorder) the replay in the real world."""
import types, os as _os
import numpy as _np
from . import core, nps
from .core import Sym, Unsupported, num
from .nps import SArr, asarr


def E():
    return core.ENG


class Mod(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (s.__name__, n))


# ------------------------------------------------------------------ drawing
class Rec:
    """records every method call"""

    def __init__(s, name='rec'):
        s.__dict__['_name'] = name
        s.__dict__['log'] = []

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def call(*a, **k):
            r = Rec(n)
            s.log.append((n, a, k, r))
            return r
        return call

    def __iter__(s):
        return iter([Rec('item'), Rec('item')])


class Axes(Rec):
    def __init__(s, fig):
        super().__init__('axes')
        s.__dict__['figure'] = fig

    def get_figure(s, *a, **k):
        return s.figure

    def set(s, **k):
        for n, v in k.items():
            getattr(s, 'set_' + n)(v)

    def calls(s, *names):
        return [c for c in s.log if c[0] in names]


class _CBar(Rec):
    def __init__(s):
        super().__init__('cbar')
        s.__dict__['ax'] = Rec('cax')


class Figure(Rec):
    def __init__(s, plt, args, kw):
        super().__init__('figure')
        s.__dict__.update(plt=plt, axes=[], bars=[], args=args, kw=kw)

    def add_subplot(s, *a, **k):
        ax = Axes(s)
        s.axes.append(ax)
        s.plt.__dict__['_ax'] = ax
        s.plt.__dict__['_fig'] = s
        s.log.append(('add_subplot', a, k, ax))
        return ax

    def subplots(s, nrows=1, ncols=1, **k):
        l = [s.add_subplot(nrows, ncols, i + 1) for i in range(nrows * ncols)]
        return l[0] if len(l) == 1 else _np.array(l, dtype=object).reshape(nrows, ncols).squeeze()

    def colorbar(s, mappable=None, ax=None, **k):
        s.bars.append((mappable, ax))
        return _CBar()

    def gca(s):
        return s.axes[-1] if s.axes else s.add_subplot(1, 1, 1)

    def get_size_inches(s):
        return s.kw.get('figsize', (6.4, 4.8))

    def set_size_inches(s, *a, **k):
        pass


class Polygon:
    def __init__(s, xy, closed=True, **kw):
        s.xy, s.kw = xy, kw

    def get_xy(s):
        return s.xy


class Plt(Rec):
    """matplotlib.pyplot"""

    def __init__(s):
        super().__init__('plt')
        import matplotlib.pyplot as p
        s.__dict__.update(_fig=None, _ax=None, figs=[], Polygon=Polygon, bynum={}, _real=p, _cmap=p.get_cmap)

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'cm':
            return s._real.cm
        if n == 'Figure':
            return Figure
        if n in ('show', 'tight_layout', 'close', 'pause', 'draw', 'ion', 'ioff', 'savefig', 'suptitle', 'legend', 'rcParams',
                 'subplots_adjust'):
            return Rec.__getattr__(s, n)
        return getattr(s.gca(), n)

    def get_cmap(s, *a):
        return s._cmap(*a)

    def figure(s, num=None, *a, **k):
        if num is not None and not isinstance(num, (tuple, list)) and num in s.bynum:
            s.__dict__['_fig'] = s.bynum[num]
            return s._fig
        f = Figure(s, (num,) + a, k)
        s.figs.append(f)
        if num is not None and not isinstance(num, (tuple, list)):
            s.bynum[num] = f
        s.__dict__['_fig'], s.__dict__['_ax'] = f, None
        return f

    def gcf(s):
        return s._fig or s.figure()

    def gca(s, **k):
        if s._ax is None:
            s.gcf().add_subplot(1, 1, 1)
        return s._ax

    def sca(s, ax):
        s.__dict__['_ax'] = ax
        s.__dict__['_fig'] = ax.figure

    def axes(s, *a, **k):
        return s.gcf().add_subplot()

    def subplot(s, *a, **k):
        return s.gcf().add_subplot(*a, **k)

    def subplots(s, nrows=1, ncols=1, **k):
        f = s.figure(**{x: v for x, v in k.items() if x == 'figsize'})
        return f, f.subplots(nrows, ncols)

    def colorbar(s, mappable=None, ax=None, **k):
        return s.gcf().colorbar(mappable, ax)


class ScalarMappable:
    def __init__(s, norm=None, cmap=None):
        s.norm, s.cmap, s.clim = norm, cmap, (None, None)

    def set_clim(s, vmin=None, vmax=None):
        if isinstance(vmin, tuple):
            vmin, vmax = vmin
        s.clim = (vmin if vmin is not None else s.clim[0], vmax if vmax is not None else s.clim[1])

    def get_clim(s):
        return s.clim

    def set_array(s, a):
        pass


def Normalize(vmin=None, vmax=None, clip=False):
    r = Rec('norm')
    r.__dict__.update(vmin=vmin, vmax=vmax)
    return r


def nxdraw(plt):
    """recording networkx drawing functions"""
    def edges(G, pos, edgelist=None, ax=None, **k):
        el = list(edgelist) if edgelist is not None else list(G.edges())
        ax = ax if ax is not None else plt.gca()
        ax.log.append(('nx_edges', (el, dict(pos)), k, None))
        return Rec('edges')

    def nodes(G, pos, nodelist=None, ax=None, **k):
        nl = list(nodelist) if nodelist is not None else list(G.nodes())
        ax = ax if ax is not None else plt.gca()
        ax.log.append(('nx_nodes', (nl, dict(pos)), k, None))
        return Rec('nodes')

    def labels(G, pos, labels=None, ax=None, **k):
        labels = labels if labels is not None else {n: n for n in G.nodes()}
        ax = ax if ax is not None else plt.gca()
        for n, t in labels.items():
            ax.text(pos[n][0], pos[n][1], t, **k)
        return {}
    return dict(draw_networkx_edges=edges, draw_networkx_nodes=nodes, draw_networkx_labels=labels)


def mpl_modules(plt):
    import matplotlib
    m = Mod('matplotlib')
    m.__path__ = []
    cm = Mod('matplotlib.cm')
    cm.ScalarMappable = ScalarMappable
    cm.Blues = matplotlib.cm.Blues
    cols = Mod('matplotlib.colors')
    cols.Colormap = matplotlib.colors.Colormap
    cols.Normalize = Normalize
    pat = Mod('matplotlib.patches')
    pat.Polygon = Polygon
    m.cm, m.colors, m.pyplot, m.patches = cm, cols, plt, pat
    axm = Mod('matplotlib.axes'); axm.Axes = Axes
    m.axes = axm
    return {'matplotlib': m, 'matplotlib.cm': cm, 'matplotlib.colors': cols, 'matplotlib.pyplot': plt,
            'matplotlib.patches': pat, 'matplotlib.axes': axm}


# ---------------------------------------------------------------- networkx
def nx_module(world):
    import networkx as nx
    m = types.ModuleType('networkx')
    for n in dir(nx):
        if not n.startswith('__'):
            setattr(m, n, getattr(nx, n))
    for n, f in nxdraw(world.plt).items():
        setattr(m, n, f)

    def spring_layout(G, *a, seed=None, **k):
        key = ('spring', tuple(G.nodes()), tuple(G.edges()), _sk(seed))
        mem = E().memo
        if seed is None:
            world.rng_events.append('spring')
        if seed is not None and key in mem:
            l = mem[key]
        else:
            l = [(E().fresh('spring', 'f', -1, 1), E().fresh('spring', 'f', -1, 1)) for _ in G.nodes()]
            if seed is not None:
                mem[key] = l
        return {n: asarr(list(p)) for n, p in zip(G.nodes(), l)}

    def erdos_renyi_graph(n, p, seed=None, directed=False, **k):
        n = n.__index__()
        if directed:
            raise Unsupported('directed random graph')
        key = ('gnp', n, core.num(p).key(), _sk(seed))
        mem = E().memo
        if seed is None:
            world.rng_events.append('gnp')
        if seed is None or key not in mem:
            sel = []
            for i in range(n):
                for j in range(i + 1, n):
                    x = E().fresh('gnp', 'i', 0, 1)
                    sel.append(((i, j), x))
            mem[key] = sel
        else:
            sel = mem[key]
        G = nx.Graph()
        G.add_nodes_from(range(n))
        for e, x in sel:
            if bool(x == 1):
                G.add_edge(*e)
        return G
    m.spring_layout = spring_layout
    m.erdos_renyi_graph = m.gnp_random_graph = m.binomial_graph = m.fast_gnp_random_graph = erdos_renyi_graph
    m.circular_layout = m.random_layout = m.kamada_kawai_layout = None
    for n in ('circular_layout', 'random_layout', 'kamada_kawai_layout'):
        delattr(m, n)
    return m


def _sk(seed):
    if isinstance(seed, Sym):
        return seed.simp().key()
    if isinstance(seed, int):
        return core.num(seed).key()
    return seed


# ------------------------------------------------------------------ random
class RandStream:
    def __init__(s, world, key):
        s.world, s.key, s.i = world, key, 0

    def random(s):
        k = ('rnd', s.key, s.i)
        s.i += 1
        mem = E().memo
        if s.key is None or k not in mem:
            mem[k] = E().fresh('rnd', 'f', 0, 1)
        return mem[k]

    def uniform(s, a, b):
        return a + (b - a) * s.random()

    def seed(s, x=None):
        s.key, s.i = (None if x is None else _sk(x)), 0

    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('random.%s' % n)


def random_module(world):
    m = Mod('random')
    glob = RandStream(world, ('global',))
    world.glob_random = glob

    class Random(RandStream):
        def __init__(s, seed=None):
            RandStream.__init__(s, world, None if seed is None else _sk(seed))
    m.Random = Random
    m.SystemRandom = Random

    def seed(x=None):
        world.rng_events.append('seed')
        glob.seed(x)

    def rnd():
        world.rng_events.append('draw')
        return glob.random()

    def uniform(a, b):
        return a + (b - a) * rnd()
    m.seed, m.random, m.uniform = seed, rnd, uniform
    m.getstate = lambda: (glob.key, glob.i)

    def setstate(st):
        glob.key, glob.i = st
        world.rng_events.append('setstate')
    m.setstate = setstate
    return m


# ---------------------------------------------------------------------- os
class Proxy(types.ModuleType):
    def __init__(s, real, name, over):
        super().__init__(name)
        s.__dict__['_real'] = real
        s.__dict__.update(over)

    def __getattr__(s, n):
        return getattr(s._real, n)


def os_modules(world):
    def ex(p):
        world.touched.add(str(p))
        return str(p) in world.vfs or (str(p) not in world.gone and _os.path.exists(p))
    path = Proxy(_os.path, 'os.path', dict(exists=ex, isfile=ex))
    def listdir(p='.'):
        if str(p) in world.dirs:
            return list(world.dirs[str(p)])
        return _os.listdir(p)
    o = Proxy(_os, 'os', dict(path=path, listdir=listdir))
    return {'os': o, 'os.path': path}


def pkg_module(root):
    m = Mod('pkg_resources')
    m.resource_filename = lambda pkg, p: _os.path.join(root, pkg, p)
    return m


# ------------------------------------------------------------------- cvxpy
class CP:
    _symx_cp = True
    __array_ufunc__ = None
    __array_priority__ = 5000

    def __init__(s, ev, vars_):
        s.ev, s.vars = ev, vars_

    def _bin(s, o, f):
        if isinstance(o, CP):
            return CP(lambda m: f(s.ev(m), o.ev(m)), s.vars | o.vars)
        return CP(lambda m: f(s.ev(m), o), s.vars)

    def __add__(s, o):
        return s._bin(o, nps.add)

    __radd__ = __add__

    def __sub__(s, o):
        return s._bin(o, nps.subtract)

    def __rsub__(s, o):
        return s._bin(o, lambda a, b: nps.subtract(b, a))

    def __neg__(s):
        return CP(lambda m: nps.negative(s.ev(m)), s.vars)

    def __mul__(s, o):
        return s._bin(o, nps.multiply)

    __rmul__ = __mul__

    def __truediv__(s, o):
        return s._bin(o, nps.divide)

    def __matmul__(s, o):
        return s._bin(o, lambda a, b: nps.matmul(a, b))

    def __rmatmul__(s, o):
        if hasattr(o, '_symx_sparse'):
            o = o.d
        o = asarr(o)
        return CP(lambda m: nps.matmul(o, s.ev(m)), s.vars)

    def __pow__(s, k):
        if isinstance(k, CP):
            raise Unsupported('power of cvxpy expressions')
        return CP(lambda m: nps.power(s.ev(m), k), s.vars)

    @property
    def T(s):
        return CP(lambda m: asarr(s.ev(m)).T, s.vars)

    def __getitem__(s, i):
        return CP(lambda m: s.ev(m)[i], s.vars)

    def __eq__(s, o):
        return Con(s - o, '==')

    def __le__(s, o):
        return Con(s - o, '<=')

    def __ge__(s, o):
        return Con(o - s if isinstance(o, CP) else CP(lambda m: nps.subtract(o, s.ev(m)), s.vars), '<=')

    __hash__ = object.__hash__


class Con:
    def __init__(s, e, op):
        s.e, s.op = e, op


class Variable(CP):
    def __init__(s, n=(), name=None, **k):
        if k:
            raise Unsupported('cvxpy variable attributes')
        s.n = n if n == () else nps._shape(n)
        s.value = None
        CP.__init__(s, lambda m: m[s], frozenset([s]))

    @property
    def shape(s):
        return s.n

    def __hash__(s):
        return id(s)

    def __eq__(s, o):
        return Con(s - o, '==')


class Problem:
    def __init__(s, objective, constraints=None):
        s.objective, s.constraints = objective, list(constraints or [])
        s.status = None
        s.value = None

    def vars(s):
        r = set(s.objective.e.vars)
        for c in s.constraints:
            r |= c.e.vars
        return r

    def solve(s, *a, **k):
        m = {}
        for v in s.vars():
            n = int(_np.prod(v.n))
            v.value = nps.from_list([E().fresh('cpval', 'f', -20, 20) for _ in range(n)], v.n, 'f')
            m[v] = v.value
        for c in s.constraints:
            r = c.e.ev(m)
            for x in asarr(r).raw.ravel():
                E().assume(num(x) == 0 if c.op == '==' else num(x) <= 0)
        s.status = 'optimal'
        E().cp_log.append(s)
        return None

    # oracle side
    def obj_at(s, x):
        v, = s.vars()
        return s.objective.sign * s.objective.e.ev({v: x})

    def residuals_at(s, x):
        v, = s.vars()
        out = []
        for c in s.constraints:
            r = c.e.ev({v: x})
            out += [(c.op, y) for y in asarr(r).raw.ravel()]
        return out

    def solution(s):
        v, = s.vars()
        return v.value


class _Obj:
    def __init__(s, e, sign=1):
        s.e = e if isinstance(e, CP) else CP(lambda m: e, frozenset())
        s.sign = sign


def cvxpy_module():
    m = Mod('cvxpy')

    def un(f):
        return lambda e, *a, **k: CP(lambda mm: f(e.ev(mm), *a, **k), e.vars) if isinstance(e, CP) else f(e, *a, **k)

    def norm(x, p=2, axis=None):
        if isinstance(p, str) and p in ('fro',):
            p = 2
        p = p if not isinstance(p, Sym) else p.__index__()
        return nps.norm(x, ord=p if p != 'inf' else _np.inf)
    m.Variable, m.Problem = Variable, Problem
    m.norm = un(norm)
    m.norm1 = un(lambda x: norm(x, 1))
    m.norm2 = un(lambda x: norm(x, 2))
    m.pnorm = un(lambda x, p=2: norm(x, p))
    m.sum_squares = un(lambda x: nps.sum_(nps.multiply(x, x)))
    m.sum = un(lambda x: nps.sum_(x))
    m.abs = un(nps.absolute)
    m.square = un(nps.square)
    m.multiply = lambda a, b: b._bin(a, lambda x, y: nps.multiply(y, x)) if isinstance(b, CP) else a._bin(b, nps.multiply)
    m.Minimize = lambda e: _Obj(e, 1)
    m.Maximize = lambda e: _Obj(e, -1)
    m.Constant = lambda x: x
    for n in ('ECOS', 'SCS', 'OSQP', 'CLARABEL'):
        setattr(m, n, n)
    return m


# ------------------------------------------------------------------ pickle
class PickleFile:
    """virtual file with a pickled object"""

    def __init__(s, obj):
        s.obj = obj

    def __enter__(s):
        return s

    def __exit__(s, *a):
        return False

    def close(s):
        pass

    def read(s, *a):
        return s


def pickle_module():
    import copy, pickle
    m = Mod('pickle')
    for n in ('dump', 'dumps', 'HIGHEST_PROTOCOL', 'UnpicklingError', 'PickleError'):
        setattr(m, n, getattr(pickle, n))

    def load(f, *a, **k):
        return copy.deepcopy(f.obj) if isinstance(f, PickleFile) else pickle.load(f, *a, **k)
    m.load = load
    m.loads = lambda b, *a, **k: load(b) if isinstance(b, PickleFile) else pickle.loads(b, *a, **k)
    return m


# ------------------------------------------------------------------ chebpy
class _Fun:
    pass


class Chebfun:
    """a function with n arbitrary coefficients"""

    def __init__(s, coeffs, f):
        u = _Fun()
        u.coeffs = coeffs
        s.funs = [u]
        s.f = f

    def __call__(s, x):
        # a function that differs from the approximated one
        return s.f(x) + 0.25


def chebpy_module(fresh, log):
    m = Mod('chebpy')

    def chebfun(f=None, domain=None, n=None):
        k = len(log)
        cs = fresh(n)
        log.append(dict(f=f, domain=domain, n=n, coeffs=cs))
        return Chebfun(cs, f)
    m.chebfun = chebfun
    return m
