"""C36-C37: no side effects on inputs over histories of calls; selectors."""
import ast, os
from symx import world as _world
from symx.core import SymBool, Sym
from .registry import spec
from .common import *
from .spectral import check_pairs
from .plots import PLT, drawings
from .gp import PRE, KERNELS

COMPS = ('gradient', 'curl', 'harmonic')
BASE = 'pytspl.filters.base_filter.BaseFilter'
DEN = 'pytspl.filters.edge_flow_denoising.EdgeFlowDenoising'
LSF = 'pytspl.filters.ls_filter_design.LSFilterDesign'
GBF = 'pytspl.filters.grid_based_filter_design.GridBasedFilterDesign'
CHB = 'pytspl.filters.chebyshev_filter_design.ChebyshevFilterDesign'
STF = 'pytspl.filters.simplicial_trend_filter.SimplicialTrendFilter'
TRN = 'pytspl.hogde_gp.hodge_gp_trainer.HodgeGPTrainer'
KSN = 'pytspl.hogde_gp.kernel_serializer.KernelSerializer'


# ---------------------------------------------------------- symbolic selector
def constants(*mods):
    """every string constant of the current source of the modules (no documentation strings)"""
    out = []
    for m in mods:
        p = os.path.join(_world.REPO, m.replace('.', '/') + '.py')
        if not os.path.exists(p):
            continue
        t = ast.parse(open(p).read())
        doc = {id(b.value) for x in ast.walk(t) if isinstance(x, (ast.Module, ast.ClassDef, ast.FunctionDef))
               for b in x.body[:1] if isinstance(b, ast.Expr)}
        for x in ast.walk(t):
            if isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in doc and len(x.value) <= 24:
                out.append(x.value)
    return out


def variants(docs):
    out = ['README.md', '.DS_Store', '', ' ', 'other', 'L2', 'none', 'None', 'all', 'L', '0', '1']
    for d in docs:
        out += [d.upper(), d.capitalize(), d.lower(), d + ' ', ' ' + d, d[:-1], d[:1], d[1:], d[:4], d + 's', d + d, d.replace('-', '_'), d.replace('_', '-'),
                d.replace('_', ' ')]
    return out + [a + ',' + b for a, b in zip(docs, docs[1:])]


def table(docs, mods):
    t = list(docs)
    for x in constants(*mods) + variants(docs):
        if x not in t:
            t.append(x)
    return t


class SStr(str):
    """a string known only through comparisons: equality forks on the symbolic code, everything else fixes the value"""
    def __new__(cls, env, tab, code):
        o = str.__new__(cls, '\0selector')
        o.env, o.tab, o.code = env, tab, code
        return o

    def value(s):
        i = s.env.fork(s.code)
        return s.tab[i]

    def __eq__(s, o):
        if isinstance(o, SStr):
            return s.code == o.code if o.tab is s.tab else s.value() == o.value()
        if not isinstance(o, str):
            return False
        o = str(o)
        if o not in s.tab:
            return s.value() == o
        return s.code == s.tab.index(o)

    def __ne__(s, o):
        r = s.__eq__(o)
        return s.env.not_(r) if isinstance(r, SymBool) else not r

    def __hash__(s):
        return hash(s.value())

    def __str__(s):
        return s.value()

    def __repr__(s):
        return repr(s.value())

    def __format__(s, f):
        return format(s.value(), f)


def _fix(n):
    def f(s, *a, **k):
        return getattr(s.value(), n)(*a, **k)
    return f


for _n in dir(str):
    if _n not in ('__new__', '__init__', '__eq__', '__ne__', '__hash__', '__str__', '__repr__', '__format__', '__class__', '__getattribute__',
                  '__init_subclass__', '__subclasshook__', '__doc__', '__setattr__', '__delattr__', '__dir__', '__reduce__', '__reduce_ex__',
                  '__sizeof__', '__getnewargs__', '__getstate__', '__rmod__', '__rmul__'):
        setattr(SStr, _n, _fix(_n))


def selector(env, docs, mods, mode, name='sel', inside=False):
    tab = table(docs, mods)
    code = env.int(name, 0 if inside else len(docs), len(tab) - 1)
    if env.real_mode or mode == 'each':
        return tab[env.fork(code)]
    return SStr(env, tab, code)


# ------------------------------------------------------------ operations with a selector
FC = 'pytspl.decomposition.frequency_component'
F = 'pytspl.filters.'
SCM = 'pytspl.simplicial_complex.simplicial_complex'


class Op:
    """setup -> (call(sel), check(sel, result)); docs: the documented values"""
    def __init__(s, docs, mods, make, extra=(None, 0, 1, 2.5, True)):
        s.docs, s.mods, s.make, s.extra = docs, mods, make, extra


def mats(E, n, T):
    low, up = lap_LU(n, E, T)
    return dict(L1L=low, L1U=up, L1=addm(low, up))


def op_eigenpair(env, sc, n, E, T, f):
    M = mats(E, n, T)
    mm = dict(gradient=M['L1L'], curl=M['L1U'], harmonic=M['L1'])

    def chk(c, r):
        w = const_eigvals(mm[c])
        want = len([x for x in w if (x <= 1e-3) == (c == 'harmonic')])
        check_pairs(env, c, r[0], r[1], mm[c], len(E), None if c == 'harmonic' else 1e-3, 1e-3 if c == 'harmonic' else None, want)
    return (lambda s: sc.get_component_eigenpair(component=s)), chk


def op_flow(env, sc, n, E, T, f):
    P = hodge_projectors(n, E, T)
    return (lambda s: sc.get_component_flow(flow=f, component=s, round_fig=False)), \
        lambda c, r: env.close('flow of the component', r, frmul(env, P[c], env.vec(f)))


def op_true(env, sc, n, E, T, f):
    P = hodge_projectors(n, E, T)
    o = env.cls(BASE)(sc)
    return (lambda s: o.get_true_signal(f=f, component=s)), \
        lambda c, r: env.close('flow of the component', r, frmul(env, P[c], env.vec(f)))


def op_pmatrix(env, sc, n, E, T, f):
    M = mats(E, n, T)
    o = env.cls(BASE)(sc)
    return (lambda s: o.get_p_matrix(s)), lambda c, r: env.eq('the chosen operator', r, M[c])


def op_coeffs(env, sc, n, E, T, f):
    d = component_dims(n, E, T)
    o = env.cls(BASE)(sc)
    return (lambda s: o.get_component_coefficients(component=s)), \
        lambda c, r: env.close('as many coefficients as the component has dimensions', sum(env.vec(r)), d[c])


def est(o):
    return o.history['f_estimated']


def op_denoise(env, sc, n, E, T, f):
    M = mats(E, n, T)
    o = env.cls(DEN)(sc)

    def chk(c, r):
        x = env.vec(est(o))
        y = [a + 0.5 * b for a, b in zip(x, mulv(M[c], x))]
        env.close('filtered with the chosen operator', y, f)
    return (lambda s: o.denoise(f=f, f_true=f, p_choice=s, mu_vals=[0.5])), chk


def op_denoise_plot(env, sc, n, E, T, f):
    env.plotting()
    o = env.cls(DEN)(sc)
    o.denoise(f=f, f_true=f, p_choice='L1', mu_vals=[0.5])
    return (lambda s: o.plot_desired_frequency_response(s)), None


def op_grid(env, sc, n, E, T, f):
    o = env.cls(GBF)(sc)
    return (lambda s: o.denoise(f=f, f_true=f, p_choice=s, L=2, mu=0.5)), None


def op_grid_sub(env, sc, n, E, T, f):
    o = env.cls(GBF)(sc)
    return (lambda s: o.subcomponent_extraction(f=f, component='gradient', p_choice=s, L=2)), None


def op_grid_comp(env, sc, n, E, T, f):
    o = env.cls(GBF)(sc)
    return (lambda s: o.subcomponent_extraction(f=f, component=s, p_choice='L1', L=2)), None


def op_ls1(env, sc, n, E, T, f):
    o = env.cls(LSF)(sc)
    return (lambda s: o.subcomponent_extraction_type_one(f=f, component=s, L=2)), None


def op_ls2(env, sc, n, E, T, f):
    o = env.cls(LSF)(sc)
    return (lambda s: o.subcomponent_extraction_type_two(f=f, component=s, L=2)), None


def op_cheb(env, sc, n, E, T, f):
    o = env.cls(CHB)(sc)
    return (lambda s: o.apply(f=f, p_choice=s, component='gradient', L=3, n=4)), None


def op_cheb_comp(env, sc, n, E, T, f):
    o = env.cls(CHB)(sc)
    return (lambda s: o.apply(f=f, p_choice='L1L', component=s, L=3, n=4)), None


def op_shift(env, sc, n, E, T, f):
    o = env.cls(STF)(sc)
    B1, B2 = conc_B1(n, E), conc_B2(E, T)
    w = dict(divergence=B1, curl=tr(B2, len(T)))
    return (lambda s: o.get_shift_operator(component=s, order=0)), lambda c, r: env.eq('operator of the component', r, w[c])


def op_trend(which):
    def g(env, sc, n, E, T, f):
        o = env.cls(STF)(sc)
        k = dict(flow=f, num_realizations=1)
        if which == 'interpolation_l1_regularizer':
            k['ratio'] = [0.2]
        else:
            k['snr_db'] = env.np.array([0.0])
        return (lambda s: getattr(o, which)(component=s, **k)), None
    return g


def op_kernel(env, sc, n, E, T, f):
    o = env.cls(KSN)()
    ks = {k: v[0] for k, v in KERNELS.items()}
    return (lambda s: o._get_serializer(kernel_type=s, data_name='forex')), \
        lambda c, r: env.check('kernel of the requested type', r is env.cls(ks[c]))


def op_kernel_serialize(env, sc, n, E, T, f):
    o = env.cls(KSN)()
    ks = {k: v[0] for k, v in KERNELS.items()}
    t = env.torch
    ep = [t.eye(2), t.eye(2), t.eye(2), t.tensor([0.0, 0.0]), t.tensor([1.0, 2.0]), t.tensor([1.0, 3.0])]
    return (lambda s: o.serialize(eigenpairs=ep, kernel_type=s, data_name='forex')), \
        lambda c, r: env.check('kernel of the requested type', type(r) is env.cls(ks[c]))


def op_kernel_data(env, sc, n, E, T, f):
    o = env.cls(KSN)()
    kind = env.pick('kind', sorted(KERNELS))
    return (lambda s: o._get_serializer(kernel_type=kind, data_name=s)), lambda c, r: env.check('a kernel', r is env.cls(KERNELS[kind][0]))


def op_hodge_plot(env, sc, n, E, T, f):
    plt = env.plotting()
    pl = env.cls(PLT)(sc, coordinates={i: (1.0 * i, i % 2) for i in range(n)})
    P = hodge_projectors(n, E, T)

    def chk(c, r):
        a = [a for g in plt.figs for a in g.axes if drawings(a)][-1]
        k = [e for e in a.log if e[0] == 'nx_edges'][-1]
        want = frmul(env, P[c], env.vec(f))
        env.close('drawn flow of the component', list(k[2]['edge_color']), [want[E.index(e)] for e in k[1][0]])
    return (lambda s: pl.draw_hodge_decomposition(flow=f, component=s, round_fig=False)), chk


def op_eig_plot(env, sc, n, E, T, f):
    env.plotting()
    pl = env.cls(PLT)(sc, coordinates={i: (1.0 * i, i % 2) for i in range(n)})
    return (lambda s: pl.draw_eigenvectors(component=s)), None


TRANS = ['anaheim', 'siouxfalls', 'my-city']


def op_dataset(env, sc, n, E, T, f):
    env.resources()
    env.listing('data/transportation_networks', TRANS + ['README.md', '.DS_Store'])
    mod = env.load('pytspl.io.dataset_loader')
    calls = []
    coords, fl = {i: (0.0, float(i)) for i in range(n)}, {e: 1.0 for e in E}

    def rec(name):
        def g(*a, **k):
            calls.append((name, a, k))
            return sc, coords, fl
        return g
    names = dict(load_paper_data='paper', load_forex_data='forex', load_lastfm_1k_artist='lastfm-1k-artist', load_wsn_data='wsn',
                 load_transportation_dataset=None)
    for k, v in list(vars(mod).items()):
        if k in names:
            env.setattr(mod, k, rec(names[k]))
        elif isinstance(v, dict) and v and all(getattr(x, '__name__', None) in names for x in v.values()):
            env.setattr(mod, k, {q: rec(names[x.__name__]) for q, x in v.items()})

    def call(s):
        calls.clear()
        return mod.load_dataset(s)

    def chk(c, r):
        env.check('exactly one loader runs', len(calls) == 1)
        if calls:
            nm, a, k = calls[0]
            if c in TRANS:
                env.check('the loader of that dataset', nm is None and c in list(a) + list(k.values()))
            else:
                env.check('the loader of that dataset', nm == c)
        env.check('what the loader returned', tuple(r)[0] is sc and env.real_mode or tuple(r)[0] is sc)
    return call, chk


LAPS = ['L1', 'L1L', 'L1U']
DC = ['divergence', 'curl']
BF = F + 'base_filter'
OPS = dict(
    eigenpair=Op(COMPS, (SCM, FC), op_eigenpair), flow=Op(COMPS, (SCM, FC), op_flow), true=Op(COMPS, (BF, SCM, FC), op_true),
    pmatrix=Op(LAPS, (BF,), op_pmatrix), coeffs=Op(COMPS, (BF, FC), op_coeffs),
    denoise=Op(LAPS, (F + 'edge_flow_denoising', BF), op_denoise), denoise_plot=Op(LAPS, (F + 'edge_flow_denoising', BF), op_denoise_plot),
    grid=Op(LAPS, (F + 'grid_based_filter_design', BF), op_grid), grid_sub=Op(LAPS, (F + 'grid_based_filter_design', BF), op_grid_sub),
    grid_comp=Op(COMPS, (F + 'grid_based_filter_design', BF, FC), op_grid_comp),
    ls1=Op(COMPS, (F + 'ls_filter_design', BF, FC), op_ls1), ls2=Op(('gradient', 'curl'), (F + 'ls_filter_design', BF, FC), op_ls2),
    cheb=Op(LAPS, (F + 'chebyshev_filter_design', BF), op_cheb), cheb_comp=Op(COMPS, (F + 'chebyshev_filter_design', BF, FC), op_cheb_comp),
    shift=Op(DC, (F + 'simplicial_trend_filter', FC), op_shift),
    l2=Op(DC, (F + 'simplicial_trend_filter', FC), op_trend('denoising_l2_regularizer')),
    l1=Op(DC, (F + 'simplicial_trend_filter', FC), op_trend('denoising_l1_regularizer')),
    interp=Op(DC, (F + 'simplicial_trend_filter', FC), op_trend('interpolation_l1_regularizer')),
    kernel=Op(sorted(KERNELS), ('pytspl.hogde_gp.kernel_serializer', 'pytspl.hogde_gp.kernels'), op_kernel),
    serialize=Op(sorted(KERNELS), ('pytspl.hogde_gp.kernel_serializer', 'pytspl.hogde_gp.kernels'), op_kernel_serialize),
    kernel_data=Op(['forex'], ('pytspl.hogde_gp.kernel_serializer', 'pytspl.hogde_gp.kernels'), op_kernel_data),
    hodge_plot=Op(COMPS, ('pytspl.plot.plot', SCM, FC), op_hodge_plot, extra=(0, 1, 2.5, True)),
    eig_plot=Op(COMPS, ('pytspl.plot.plot', SCM, FC), op_eig_plot),
    dataset=Op(TRANS + ['paper', 'forex', 'lastfm-1k-artist', 'wsn'], ('pytspl.io.dataset_loader', 'pytspl.io.data_loaders.transportation_loader'), op_dataset),
)


def setup(env, op, top):
    if op in ('l1', 'l2', 'interp'):
        top = 'tri'  # any complex will do: cost
    n, E, T = complex_of(top)
    if op in ('l1', 'interp'):
        env.capture_cvxpy()
    sc = make_sc(env, n, E, T)
    f = env.flow('f', len(E), 0.5, 8) if op not in HEAVY else env.np.array([2.5 + i * i * 0.75 - 2 * (i % 3) for i in range(len(E))])
    o = OPS[op]
    call, chk = o.make(env, sc, n, E, T, f)
    return o, call, chk


def c37_bad(env, op, top, mode):
    """any value outside the documented set is refused, and the object can be used afterwards"""
    o, call, chk = setup(env, op, top)
    if mode == 'other':
        bad = env.pick('value', o.extra)
    else:
        bad = selector(env, o.docs, o.mods, mode)
    if not env.raises('undocumented value refused', ValueError, call, bad) or (op in HEAVY and mode != 'other'):
        return
    good = env.pick('good', o.docs) if mode == 'other' else o.docs[-1]
    ok, r = env.runs('documented value accepted after a refusal', call, good)
    if ok and chk:
        chk(good, r)


def c37_good(env, op, top):
    """every documented value is accepted and gives the result for that value, also after other values"""
    o, call, chk = setup(env, op, top)
    a = env.pick('first', [None] + list(o.docs))
    if a is not None:
        call(a)
    b = env.pick('value', o.docs)
    ok, r = env.runs('documented value accepted', call, b)
    if ok and chk:
        chk(b, r)


HEAVY = ('denoise_plot', 'grid', 'grid_sub', 'grid_comp', 'cheb', 'cheb_comp', 'ls1', 'ls2', 'l1', 'l2', 'interp')


@spec('C37', quick_s=200, thorough_s=600, preload=PRE + ['cvxpy'],
      bounds=dict(quick='24 operations with a selector; any string (compared symbolically with every string constant of the current source and with case, '
                        'blank, prefix and concatenation variants of the documented values), None, numbers; one refusal followed by a valid call',
                  thorough='as quick on two complexes'),
      assumptions=['strings other than the compared constants and variants behave alike (the code can only tell strings apart by comparing them)'])
def C37(tier):
    for t in ('diamond',) + (('house',) if tier == 'thorough' else ()):
        for op in OPS:
            for mode in ('sym', 'each', 'other'):
                yield c37_bad, dict(op=op, top=t, mode=mode)
            yield c37_good, dict(op=op, top=t)


# ----------------------------------------------------------------- C36
class Ctx:
    """one complex with features, everything the operations are given, and the long-lived objects they are called on"""

    def __init__(c, env, top, flow, k=1):
        n, E, T = complex_of(top) if isinstance(top, str) else top
        c.env, c.n, c.E, c.T, c.m = env, n, E, T, len(E)
        m, c.k = c.m, k
        c.nf = {i: {'v': 1.5 * i * k, 'w': -i} for i in range(n)}
        c.ef = {e: {'flow': (0.5 + j) * k, 'cap': j * j} for j, e in enumerate(E)}
        c.plt = env.plotting()
        c.sc = make_sc(env, n, E, T, node_features=c.nf, edge_features=c.ef)
        c.f = flow
        c.g = env.np.array([(2.7531 * i + 1) * (-1) ** i + 0.2519 * k for i in range(m)])
        c.h = env.np.array([1.0371 * k + 0.5173 * i for i in range(m)])
        c.mu = [2.0, 0.5, 1.0]
        c.snr = env.np.array([0.0])
        c.ratio = [0.2]
        c.pos = {i: (1.25 * i * k, float(i * i % 3)) for i in range(n)}
        c.fdict = {e: float(c.h[j]) if env.real_mode else c.h[j] for j, e in reversed(list(enumerate(E))[1:])}
        c.labels = dict(c.fdict)
        c.idx = [0]
        c.den, c.ls, c.grid, c.cheb = [env.cls(k)(c.sc) for k in (DEN, LSF, GBF, CHB)]
        # the randomised operations work on smaller complexes (cost)
        c.sc3 = make_sc(env, *(TOPO['tri'] if k == 1 else (3, [(1, 0), (2, 1), (0, 2)], [(0, 1, 2)])))
        c.g3 = env.np.array([1.5 * k, -2.25, 0.5])
        c.stf = env.cls(STF)(c.sc3)
        c.sc2 = make_sc(env, 3, [(0, 1), (2, 1)] if k == 1 else [(1, 0), (2, 1)], [])
        c.plot = env.cls(PLT)(c.sc, coordinates=c.pos)
        c._tr = None

    @property
    def trainer(c):
        if c._tr is None:
            t = c.env.torch
            c.y = c.env.np.array([0.5 + 1.25 * i * c.k for i in range(c.m)])
            c._tr = c.env.cls(TRN)(c.sc, c.y)
            c.y2 = c.env.np.array([0.5, 2.0])
            c.tr2 = c.env.cls(TRN)(c.sc2, c.y2)
            c.ty = [t.tensor([1.0, 2.5, -1.0]), t.tensor([0.5, 4.0]), t.tensor([1.0, 2.5, -1.0, 0.5, 4.0])]
            c.tx = t.tensor(list(range(c.m)))
            c.tyy = t.tensor([0.5 * i for i in range(c.m)])
        return c._tr

    def inputs(c):
        s = c.sc
        d = dict(nodes=s.nodes, edges=s.edges, triangles=s.triangles, node_features=s.node_features, edge_features=s.edge_features, B1=s.B1, B2=s.B2,
                 nf=c.nf, ef=c.ef, f=c.f, g=c.g, h=c.h, mu=c.mu, snr=c.snr, ratio=c.ratio, pos=c.pos, fdict=c.fdict, labels=c.labels, idx=c.idx)
        for i, q in enumerate((c.sc2, c.sc3)):
            d['small%d' % i] = [q.nodes, q.edges, q.triangles, q.B1, q.B2]
        d['g3'] = c.g3
        if c._tr is not None:
            d.update(y=c.y, y2=c.y2, ty=c.ty, tx=c.tx, tyy=c.tyy)
        return d


def hist(o):
    return {k: v for k, v in o.history.items() if v is not None}


def ran(o, r):
    """result of a filter run: what it returned and what it recorded"""
    return [r if r is not None else 0, hist(o)]


def _train(c):
    tr_ = c.trainer
    t, env = c.env.torch, c.env
    k = env.cls(KERNELS['matern'][0])(tr_.get_eigenpairs())
    lik = env.gpytorch.likelihoods.GaussianLikelihood()
    model = env.cls('pytspl.hogde_gp.exact_gp.ExactGPModel')(c.tx, c.tyy, lik, k, mean_function='zero')
    tr_.train(model, lik, c.tx, c.tyy, training_iters=0)
    return [tr_.get_model_parameters(), tr_.build_matern_kernel()[0]]


RO = dict(  # name -> operation
    sizes=lambda c: [c.sc.shape, c.sc.max_dim, c.sc.simplices, c.sc.edge_feature_names()],
    features=lambda c: [c.sc.get_node_features(), c.sc.get_edge_features(), c.sc.get_edge_features('cap'), c.sc.get_edge_features(name='flow')],
    faces=lambda c: [sorted(c.sc.get_faces(t)) for t in c.T] + [sorted(c.sc.get_faces(c.E[0]))],
    summary=lambda c: c.sc.print_summary(),
    matrices=lambda c: [c.sc.incidence_matrix(rank=r) for r in (0, 1, 2)] + [c.sc.adjacency_matrix(), c.sc.identity_matrix(), c.sc.laplacian_matrix()],
    laplacians=lambda c: [c.sc.lower_laplacian_matrix(rank=r) for r in (1, 2)] + [c.sc.upper_laplacian_matrix(rank=r) for r in (0, 1)] + [
        c.sc.hodge_laplacian_matrix(rank=r) for r in (0, 1, 2)],
    shifts=lambda c: [c.sc.apply_lower_shifting(c.f), c.sc.apply_lower_shifting(c.f, steps=2), c.sc.apply_upper_shifting(c.f, steps=2),
                      c.sc.apply_k_step_shifting(c.f, steps=2)],
    embeddings=lambda c: c.sc.get_simplicial_embeddings(c.f),
    eigenpairs=lambda c: [c.sc.get_component_eigenpair(component=x) for x in COMPS],
    tolerance=lambda c: [c.sc.get_component_eigenpair(component=x, tolerance=2.5) for x in COMPS],
    variance=lambda c: c.sc.get_total_variance(),
    divcurl=lambda c: [c.sc.get_divergence(c.f), c.sc.get_curl(c.f)],
    flows=lambda c: [c.sc.get_component_flow(flow=c.f, component=x, round_fig=False) for x in COMPS],
    rounded=lambda c: [c.sc.get_component_flow(flow=c.g, component=x) for x in COMPS],
    builder=lambda c: [c.sc.edges_to_B1(c.sc.edges, c.n), c.sc.triangles_to_B2(c.sc.triangles, c.sc.edges), c.sc.tocsr(c.sc.B1)],
    functions=lambda c: _functions(c),
    denoise=lambda c: ran(c.den, c.den.denoise(c.f, c.h, 'L1', mu_vals=c.mu)),
    denoise_low=lambda c: ran(c.den, c.den.denoise(c.g, c.h, 'L1L')),
    den_plot=lambda c: _denplot(c),
    grid_denoise=lambda c: ran(c.grid, c.grid.denoise(c.g, c.h, 'L1', L=3, mu=0.25)),
    grid_sub=lambda c: ran(c.grid, c.grid.subcomponent_extraction(c.g, 'gradient', 'L1L', L=2, num_of_samples=5)),
    grid_general=lambda c: ran(c.grid, c.grid.general_filter(c.g, 2, 1)),
    ls_one=lambda c: ran(c.ls, c.ls.subcomponent_extraction_type_one(c.g, 'gradient', L=2)),
    ls_two=lambda c: ran(c.ls, c.ls.subcomponent_extraction_type_two(c.g, 'curl', L=2)),
    ls_general=lambda c: ran(c.ls, c.ls.general_filter(c.g, 2, 1)),
    cheb=lambda c: ran(c.cheb, c.cheb.apply(c.g, 'L1L', 'gradient', L=3, n=3)),
    cheb_curl=lambda c: ran(c.cheb, c.cheb.apply(c.h, 'L1U', 'curl', L=2, n=3)),
    helpers=lambda c: [c.den.get_p_matrix('L1'), c.den.get_p_matrix('L1U'), c.ls.get_component_coefficients('curl'), c.grid.get_true_signal(c.f, 'curl'),
                       c.cheb.get_component_coefficients('gradient')],
    trend_op=lambda c: [c.stf.get_shift_operator('divergence', 0), c.stf.get_shift_operator('curl', 2), c.stf.get_power_noise(c.g3, c.snr)],
    trend_l2=lambda c: ran(c.stf, c.stf.denoising_l2_regularizer(c.g3, 'divergence', 1, c.snr)),
    trend_l1=lambda c: ran(c.stf, c.stf.denoising_l1_regularizer(c.g3, 'curl', 1, c.snr)),
    trend_int=lambda c: ran(c.stf, c.stf.interpolation_l1_regularizer(c.g3, 'divergence', c.ratio, 1)),
    gp_mats=lambda c: [c.trainer.get_laplacians(), c.trainer.get_incidence_matrices(), c.trainer.get_eigenpairs()],
    gp_norm=lambda c: c.trainer.normalize_data(y_train=c.ty[0], y_test=c.ty[1], y=c.ty[2]) if c.trainer else None,
    gp_split=lambda c: c.trainer and c.tr2.train_test_split(train_ratio=0.5, seed=3),
    gp_train=lambda c: _train(c),
    draw=lambda c: c.plot.draw_network(edge_flow=c.fdict) or [c.plot.create_edge_flow(c.h)],
    draw_array=lambda c: c.plot.draw_network(edge_flow=c.f, node_color=c.mu * c.n if False else 'red') or 0,
    draw_labels=lambda c: sorted(c.plot.draw_edge_labels(c.labels)),
    draw_hodge=lambda c: c.plot.draw_hodge_decomposition(flow=c.g) or 0,
    draw_eig=lambda c: c.plot.draw_eigenvectors('gradient', eigenvector_indices=c.idx) or 0,
)
STATEFUL = ('features', 'eigenpairs', 'tolerance', 'rounded', 'functions', 'denoise', 'grid_sub', 'ls_general', 'cheb_curl', 'trend_l2', 'gp_norm', 'draw')
RANDOM = ('trend_l2', 'trend_l1', 'trend_int', 'cheb', 'cheb_curl')
# gp_split: the seeded split repeats, but the permutation stand-in may not be tied to the seed in the concrete world


def _functions(c):
    ed, hd = c.env.load('pytspl.decomposition.eigendecomposition'), c.env.load('pytspl.decomposition.hodge_decomposition')
    B1, B2 = c.sc.incidence_matrix(rank=1), c.sc.incidence_matrix(rank=2)
    L = c.sc.lower_laplacian_matrix(rank=1).toarray()
    L0 = c.env.vec(L)
    out = [ed.get_divergence(B1, c.f), ed.get_curl(B2, c.f), ed.get_eigendecomposition(L), ed.get_gradient_eigenpair(L, 1e-3),
           ed.get_harmonic_eigenpair(L, 1e-3), ed.get_total_variance(L), hd.get_gradient_flow(B1, c.g, False), hd.get_curl_flow(B2, c.g),
           hd.get_harmonic_flow(B1, B2, c.g)]
    c.env.eq('matrix arguments are unchanged', c.env.vec(L), L0)
    c.env.eq('incidence matrices are unchanged', [B1, B2], [conc_B1(c.n, c.E), conc_B2(c.E, c.T)])
    return out


def _denplot(c):
    c.den.denoise(c.g, c.h, 'L1', mu_vals=[0.5])
    before = [hist(c.den)]
    from symx.env import pyval
    b = pyval(before)
    c.den.plot_desired_frequency_response('L1')
    c.env.close('plotting leaves the results alone', flat(hist(c.den)), flat(b[0]), tol=1e-9)
    return 0


def flat(x):
    """the numbers in a nested structure, in order"""
    from symx.env import pyval
    x = pyval(x)
    if isinstance(x, dict):
        return [z for k in sorted(x, key=repr) for z in flat(x[k])]
    if isinstance(x, (list, tuple)):
        return [z for v in x for z in flat(v)]
    if isinstance(x, (str, bytes)) or x is None:
        return []
    if isinstance(x, (int, float, Sym)) or type(x).__name__ == 'Fraction':
        return [x]
    if isinstance(x, SymBool):
        return []
    return []


def shape_of(x):
    """structure without the numbers"""
    from symx.env import pyval
    x = pyval(x)
    if isinstance(x, dict):
        return {k: shape_of(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [shape_of(v) for v in x]
    if isinstance(x, (int, float, Sym)) or type(x).__name__ == 'Fraction':
        return 0
    return x if isinstance(x, str) else None


def snap(x):
    return shape_of(x), list(flat(x))


def check_same(env, label, now, old, tol=1e-9):
    sh, l = now
    env.check(label + ' (structure)', sh == old[0], lambda: 'structure changed')
    if sh == old[0]:
        env.close(label, l, old[1], tol=tol)


def c36(env, first, top, others):
    env.capture_cvxpy()
    f = env.flow('f', len(complex_of(top)[1]))
    c = Ctx(env, top, f)
    before = snap(c.inputs())
    if first == 'gp_norm' or first.startswith('gp'):
        c.trainer
        before = snap(c.inputs())
    ra = RO[first](c)
    sa = snap(ra)
    check_same(env, 'inputs unchanged by %s' % first, snap(c.inputs()), before)
    hist_ = [first]
    for q in range(others):
        b = env.pick('op%d' % q, tuple(RO) if q == 0 else STATEFUL)
        c.trainer
        before = snap(c.inputs())
        RO[b](c)
        hist_.append(b)
        check_same(env, 'inputs unchanged by %s' % b, snap(c.inputs()), before)
        check_same(env, 'earlier result of %s unchanged by %s' % (first, b), snap(ra), sa)
    if first not in RANDOM:
        check_same(env, '%s repeated after %s' % (first, ', '.join(hist_[1:])), snap(RO[first](c)), sa, tol=1e-6)
        check_same(env, 'earlier result of %s unchanged by the repetition' % first, snap(ra), sa)


@spec('C36', quick_s=200, thorough_s=900, preload=PRE + ['cvxpy'],
      bounds=dict(quick='%d operations (queries, decompositions, filters, trend filters, GP preparation, drawings) on one complex: every ordered pair A, B, A; any flow' % len(RO),
                  thorough='every ordered sequence A, B, C, A with C among %d operations that keep state or work in place, on one complex' % len(STATEFUL) + ', every pair on two more'),
      assumptions=['randomised operations (trend filters) and the Chebyshev fit (external library) are compared for side effects only'])
def C36(tier):
    names = tuple(RO)
    for t in ('diamond',) + (('paw', 'house') if tier == 'thorough' else ()):
        for a in names:
            yield c36, dict(first=a, top=t, others=1)
    if tier == 'thorough':
        for a in names:
            yield c36, dict(first=a, top='diamond', others=2), dict(max_paths=4000)
