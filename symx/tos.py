"""Symbolic stand-ins for torch, gpytorch, sklearn.model_selection, torcheval."""
import os, types, functools, math
from fractions import Fraction
import numpy as _np
from . import core, nps
from .core import Sym, SymBool, Unsupported, num, approx
from .nps import SArr, asarr


def E():
    return core.ENG


class _Size(int):
    """the number of entries for numpy code, and torch's size()"""

    def __call__(s, d=None):
        return s.shape if d is None else s.shape[d]


class Tensor(SArr):
    """torch tensor on top of SArr"""
    requires_grad = False

    def __array_finalize__(s, obj):
        SArr.__array_finalize__(s, obj)

    def __array_ufunc__(s, ufunc, method, *inputs, out=None, **kw):
        return T(nps.ufunc_dispatch(ufunc, method, inputs, out, kw))

    def __array_function__(s, func, types_, args, kwargs):
        return T(SArr.__array_function__(s, func, types_, args, kwargs))

    def __getitem__(s, i):
        return T(nps._getitem(s, i))

    def __matmul__(s, o):
        return T(nps.matmul(s, o))

    def __rmatmul__(s, o):
        return T(nps.matmul(o, s))

    # torch methods
    def to(s, *a, **k):
        for x in a:
            kk = _dt(x)
            if kk and kk != s.kind:
                return T(s.astype(kk))
        return s

    def _same(s, *a, **k):
        return s

    cpu = cuda = detach = contiguous = requires_grad_ = double = evaluate = to_dense = _same
    add_jitter = _same

    def float(s):
        return T(s.astype('f'))

    def long(s):
        return T(s.astype('i'))

    int = long

    def bool(s):
        return T(s.astype('b'))

    def clone(s, **k):
        return T(s.copy())

    def numpy(s):
        r = s.copy().view(SArr)
        r.kind = s.kind
        return r

    def dim(s):
        return s.ndim

    @property
    def size(s):
        r = _Size(_np.ndarray.size.__get__(s))
        r.shape = s.shape
        return r

    def numel(s):
        return int(_np.prod(s.shape))

    def squeeze(s, d=None):
        if d is None:
            r = s.raw.squeeze()
        else:
            r = s.raw.squeeze(d) if s.shape[d] == 1 else s.raw
        return T(nps.wrap(r, s.kind))

    def unsqueeze(s, d):
        return T(nps.wrap(_np.expand_dims(s.raw, d), s.kind))

    def expand(s, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = tuple(sh[0])
        off = len(sh) - s.ndim
        if off < 0:
            raise RuntimeError('expand: too few sizes')
        new = []
        for j, n in enumerate(sh):
            cur = s.shape[j - off] if j >= off else 1
            if n == -1:
                if j < off:
                    raise RuntimeError('expand: -1 in a leading dimension')
                n = cur
            elif cur not in (1, n):
                raise RuntimeError('expand: sizes do not match')
            new.append(int(n))
        return T(nps.wrap(_np.broadcast_to(s.raw, new).copy(), s.kind))

    def expand_as(s, o):
        return s.expand(*o.shape)

    def view_as(s, o):
        return s.reshape(o.shape)

    def view(s, *a, **k):
        if a and isinstance(a[0], type):
            return SArr.view(s, *a, **k)
        return s.reshape(*a)

    def diag(s, k=0):
        if s.ndim == 1:
            return T(nps.diag(s, k))
        return T(nps.wrap(s.raw.diagonal(k).copy(), s.kind))

    def diagonal(s, offset=0, dim1=0, dim2=1):
        return T(nps.wrap(s.raw.diagonal(offset, dim1, dim2).copy(), s.kind))

    def t(s):
        return s.T

    def transpose(s, a, b):
        return T(nps.wrap(_np.swapaxes(s.raw, a, b), s.kind))

    def pow(s, e):
        return T(nps.power(s, e))

    def exp(s):
        return T(nps.exp(s))

    def sqrt(s):
        return T(nps.sqrt(s))

    def log(s):
        return T(nps.log(s))

    def reciprocal(s):
        return T(nps.divide(1, s))

    def mul(s, o):
        return s * o

    def add(s, o):
        return s + o

    def sub(s, o):
        return s - o

    def div(s, o):
        return s / o

    def matmul(s, o):
        return s @ o

    mm = mv = matmul

    def sum(s, dim=None, keepdim=False, axis=None, **k):
        return T(nps.sum_(s, axis=dim if dim is not None else axis, keepdims=keepdim))

    def mean(s, dim=None, keepdim=False, axis=None, **k):
        return T(nps.mean(s, axis=dim if dim is not None else axis, keepdims=keepdim))

    def std(s, dim=None, unbiased=True, keepdim=False, axis=None, **k):
        if 'correction' in k:
            d = int(k['correction'])
        else:
            d = 1 if unbiased else 0
        return T(nps.std(s, axis=dim if dim is not None else axis, ddof=d, keepdims=keepdim))

    def var(s, dim=None, unbiased=True, keepdim=False, axis=None, **k):
        return T(nps.var(s, axis=dim if dim is not None else axis, ddof=1 if unbiased else 0, keepdims=keepdim))

    def copy_(s, o):
        s[...] = o
        return s

    def fill_(s, v):
        s[...] = v
        return s

    def type(s, *a):
        return s.to(*a)

    def clamp(s, min=None, max=None, **k):
        return T(nps.clip(s, min, max))

    clip = clamp

    def clamp_min(s, v):
        return T(nps.clip(s, v, None))

    def clamp_max(s, v):
        return T(nps.clip(s, None, v))

    def abs(s):
        return abs(s)

    def neg(s):
        return -s

    def round(s, decimals=0):
        return T(nps.round_(s, decimals))

    def floor(s):
        return T(nps.floor(s))

    def ceil(s):
        return T(nps.ceil(s))

    def square(s):
        return s * s

    def rsqrt(s):
        return 1 / T(nps.sqrt(s))

    def __getattr__(s, n):
        if n in _torch_names():
            raise Unsupported('Tensor.%s' % n)
        raise AttributeError("'Tensor' object has no attribute %r" % n)

    def index_select(s, d, idx):
        return T(s.take(idx, axis=d))

    @property
    def data(s):
        return s

    @data.setter
    def data(s, v):
        s[...] = v

    @property
    def device(s):
        return device('cpu')

    @property
    def mT(s):
        return s.T


_NAMES = []


def _torch_names():
    """public attributes of the real class"""
    if not _NAMES:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'torch_names.txt')) as f:
            _NAMES.append(frozenset(f.read().split()))
    return _NAMES[0]


def T(x):
    if isinstance(x, SArr) and not isinstance(x, Tensor):
        k = x.kind
        r = _np.ndarray.view(x, Tensor)
        r.kind = k
        return r
    return x


class _Dtype:
    def __init__(s, name, kind):
        s.name, s._symx_kind = name, kind

    def __repr__(s):
        return 'torch.' + s.name


def _dt(x):
    if isinstance(x, _Dtype):
        return x._symx_kind
    if isinstance(x, type) and getattr(x, '_symx_kind', None):
        return x._symx_kind
    if isinstance(x, SArr):
        return x.kind
    return None


class device:
    def __init__(s, name='cpu'):
        s.type = str(name)

    def __repr__(s):
        return s.type


def tensor(x, dtype=None, device=None, requires_grad=False):
    if hasattr(x, '_symx_sparse'):
        raise TypeError('cannot make a tensor of a sparse matrix')
    r = asarr(x, copy=True)
    r = r.astype(_dt(dtype)) if dtype is not None else r.copy()
    return T(r.view(SArr)) if r.ndim else T(r)


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, Tensor) and dtype is None:
        return x
    return tensor(x, dtype)


def is_tensor(x):
    return isinstance(x, Tensor)


class Parameter(Tensor):
    pass


def _parameter(data=None, requires_grad=True):
    return data


class _NoGrad:
    def __init__(s, *a, **k):
        pass

    def __enter__(s):
        return s

    def __exit__(s, *a):
        return False

    def __call__(s, f):
        return f


class _Mod(types.ModuleType):
    def __getattr__(s, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (s.__name__, n))


def _w(f):
    def g(*a, **k):
        if 'dim' in k:
            k['axis'] = k.pop('dim')
        return T(f(*a, **k))
    return g


def _create(f):
    def g(*shape, dtype=None, device=None, requires_grad=False, **k):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        r = f(shape)
        return T(r.astype(_dt(dtype))) if dtype is not None else T(r)
    return g


# ---------------------------------------------------------------- gpytorch
INV = {}        # atom id of inverse transform -> argument


def softplus(x):
    x = num(x)
    c = x.const()
    if c is not None:
        c = float(c)
        return approx(math.log1p(math.exp(c)) if c < 30 else c)
    if not x.d and len(x.n) == 1:
        (m, cc), = x.n.items()
        if cc == 1 and len(m) == 1 and core.ATOMS[m[0]].key_inv is not None:
            return core.ATOMS[m[0]].key_inv
    xz = x.z3()
    r = core._fresh('softplus', 'f', ('softplus', x.key()), lambda t: (x.atoms(), [t > 0, t > xz]))
    E().nonzero.add(core.p_key(r.n))
    return r


def inv_softplus(y):
    y = num(y)
    c = y.const()
    if c is not None:
        c = float(c)
        return approx(c + math.log(-math.expm1(-c)))
    r = core._fresh('invsp', 'f', ('invsp', y.key()), lambda t: (y.atoms(), [t < y.z3()]))
    core.ATOMS[next(iter(r.n))[0]].key_inv = y
    return r


class Positive:
    lower_bound = 0.0

    def __init__(s, *a, initial_value=None, **k):
        s.initial_value = initial_value
        if a or k:
            raise Unsupported('options of Positive')

    def transform(s, x):
        return T(nps.emap(softplus, x)) if isinstance(x, _np.ndarray) else softplus(x)

    def inverse_transform(s, x):
        return T(nps.emap(inv_softplus, x)) if isinstance(x, _np.ndarray) else inv_softplus(x)


class Module:
    def __init__(s, *a, **k):
        object.__setattr__(s, '_params', {})
        object.__setattr__(s, '_cons', {})
        s.training = True

    def register_parameter(s, name, parameter):
        s._params[name] = parameter

    def register_constraint(s, name, constraint, replace=True):
        if name not in s._params:
            raise RuntimeError('Attempting to register constraint for nonexistent parameter.')
        s._cons[name + '_constraint'] = constraint
        if constraint.initial_value is not None:
            s.initialize(**{name: constraint.inverse_transform(num(constraint.initial_value))})

    def register_buffer(s, name, v):
        object.__setattr__(s, name, v)

    def register_prior(s, *a, **k):
        pass

    def __getattr__(s, n):
        if n in ('_params', '_cons'):
            raise AttributeError(n)
        p = s.__dict__.get('_params', {})
        if n in p:
            return p[n]
        c = s.__dict__.get('_cons', {})
        if n in c:
            return c[n]
        raise AttributeError("'%s' object has no attribute '%s'" % (type(s).__name__, n))

    def __setattr__(s, n, v):
        if n in s.__dict__.get('_params', {}):
            s._params[n] = v
            return
        object.__setattr__(s, n, v)

    def initialize(s, **kw):
        for n, v in kw.items():
            if n not in s._params:
                if not hasattr(type(s), n) and n not in s.__dict__:
                    raise AttributeError('Unknown parameter %s for %s' % (n, type(s).__name__))
                setattr(s, n, v)
                continue
            p = s._params[n]
            if not isinstance(v, _np.ndarray):
                s._params[n] = T(nps.full(p.shape, v, 'f'))
            else:
                try:
                    q = T(v.view(SArr)).expand(*p.shape) if v.ndim <= p.ndim else T(v).reshape(p.shape)
                except RuntimeError:
                    q = T(v).reshape(p.shape)
                s._params[n] = T(q.astype('f'))
        return s

    def parameters(s):
        out = list(s._params.values())
        for v in s.__dict__.values():
            if isinstance(v, Module):
                out += v.parameters()
        return iter(out)

    def named_parameters(s):
        for k, v in s._params.items():
            yield k, v

    def eval(s):
        s.training = False
        return s

    def train(s, mode=True):
        s.training = mode
        return s

    def to(s, *a, **k):
        return s

    double = float = to

    def __call__(s, *a, **k):
        return s.forward(*a, **k)

    def zero_grad(s, *a, **k):
        for p in s.parameters():
            p.grad = None


def _col(x):
    return x.unsqueeze(-1) if x is not None and x.ndim == 1 else x


class Kernel(Module):
    has_lengthscale = False

    def __init__(s, *a, **k):
        super().__init__()
        s.batch_shape = ()

    def __call__(s, x1, x2=None, diag=False, last_dim_is_batch=False, **k):
        x1 = _col(x1)
        return s.forward(x1, x1 if x2 is None else _col(x2), diag=diag, **k)


class ScaleKernel(Kernel):
    def __init__(s, base_kernel, outputscale_prior=None, outputscale_constraint=None, **k):
        super().__init__()
        s.base_kernel = base_kernel
        s.register_parameter('raw_outputscale', T(nps.zeros(())))
        s.register_constraint('raw_outputscale', outputscale_constraint or Positive())

    @property
    def outputscale(s):
        return s.raw_outputscale_constraint.transform(s.raw_outputscale)

    @outputscale.setter
    def outputscale(s, v):
        s.initialize(raw_outputscale=s.raw_outputscale_constraint.inverse_transform(
            v if isinstance(v, _np.ndarray) else num(v)))

    def forward(s, x1, x2, diag=False, **k):
        return T(s.outputscale * s.base_kernel(x1, x2, diag=diag, **k))


class _Noise(Module):
    def __init__(s):
        super().__init__()
        s.register_parameter('raw_noise', T(nps.zeros((1,))))
        s._noise = None

    @property
    def noise(s):
        return s._noise if s._noise is not None else T(nps.full((1,), approx(math.log(2) + 1e-4), 'f'))

    @noise.setter
    def noise(s, v):
        s._noise = T(nps.full((1,), v, 'f')) if not isinstance(v, _np.ndarray) else T(v)


class GaussianLikelihood(Module):
    def __init__(s, *a, **k):
        super().__init__()
        s.noise_covar = _Noise()

    @property
    def noise(s):
        return s.noise_covar.noise

    @noise.setter
    def noise(s, v):
        s.noise_covar.noise = v

    def __call__(s, d, *a, **k):
        if not isinstance(d, MultivariateNormal):
            raise Unsupported('likelihood of a sample')
        return MultivariateNormal(d.mean, T(d.covariance_matrix + nps.eye(d.mean.shape[0]) * s.noise))


class MultivariateNormal:
    def __init__(s, mean, covariance_matrix, validate_args=False):
        s.mean, s.covariance_matrix = T(mean), T(covariance_matrix)

    loc = property(lambda s: s.mean)
    lazy_covariance_matrix = property(lambda s: s.covariance_matrix)
    variance = property(lambda s: s.covariance_matrix.diag())
    stddev = property(lambda s: s.variance.sqrt())

    def log_prob(s, y):
        return _Value()


class ExactGP(Module):
    """prior at the training inputs while training, posterior given the training data in evaluation mode"""

    def __init__(s, x, y, likelihood):
        super().__init__()
        if x is not None and not isinstance(x, (tuple, list)):
            x = (x,)
        s.train_inputs = None if x is None else tuple(_col(t) for t in x)
        s.train_targets = y
        s.likelihood = likelihood

    def set_train_data(s, inputs=None, targets=None, strict=True):
        if inputs is not None:
            s.train_inputs = tuple(_col(t) for t in (inputs if isinstance(inputs, (tuple, list)) else (inputs,)))
        if targets is not None:
            s.train_targets = targets

    def train(s, mode=True):
        s.training = s.likelihood.training = mode
        return s

    def eval(s):
        return s.train(False)

    def __call__(s, x, **k):
        x = _col(x)
        if s.train_inputs is None or (not s.training and s.train_targets is None):
            return s.forward(x)
        tr = s.train_inputs[0]
        if s.training:
            if tr.shape != x.shape or not bool(nps.all_(nps.equal(tr, x))):
                raise RuntimeError('You must train on the training inputs!')
            return s.forward(x)
        n = tr.shape[0]
        full = s.forward(T(nps.concatenate([tr, x], 0)))
        m, K = full.mean, full.covariance_matrix
        A = K[:n, :n] + nps.eye(n) * s.likelihood.noise
        W = nps.linalg.inv(A)
        G = nps.matmul(K[n:, :n], W)
        mean = m[n:] + nps.matmul(G, s.train_targets - m[:n])
        return MultivariateNormal(T(mean), T(K[n:, n:] - nps.matmul(G, K[:n, n:])))


class _Value(float):
    """a number that is only reported"""

    def __new__(cls, *a):
        return float.__new__(cls, 'nan')

    def _no(s, *a):
        raise Unsupported('arithmetic on a reported value')

    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no

    def __neg__(s):
        return s

    def item(s):
        return s

    detach = cpu = item


class Theta:
    """the one parameter of a toy model"""

    def __init__(s, v):
        s.v, s.grad = v, None

    def move(s, d):
        s.v = s.v - d


class Loss:
    """value with its derivative in one parameter; formatting reports nothing"""

    def __init__(s, v, d, p):
        s.v, s.d, s.p = v, d, p

    def _lin(s, f):
        return Loss(f(s.v), f(s.d), s.p)

    def __neg__(s):
        return s._lin(lambda a: -a)

    def __mul__(s, c):
        return s._lin(lambda a: a * c)

    __rmul__ = __mul__

    def __truediv__(s, c):
        return s._lin(lambda a: a / c)

    def __add__(s, o):
        if isinstance(o, Loss):
            return Loss(s.v + o.v, s.d + o.d, s.p)
        return Loss(s.v + o, s.d, s.p)

    __radd__ = __add__

    def __sub__(s, o):
        return s + (-o)

    def __rsub__(s, o):
        return -s + o

    def backward(s, *a, **k):
        s.p.grad = s.d if s.p.grad is None else s.p.grad + s.d

    def item(s):
        return s.v

    def mean(s):
        return s

    sum = detach = cpu = mean


class Toy(Module):
    """model with prediction theta * x, in evaluation mode theta * x + 1"""

    def __init__(s, theta):
        super().__init__()
        s.theta = Theta(theta)

    def parameters(s):
        return iter([s.theta])

    def named_parameters(s):
        return iter([('theta', s.theta)])

    def value(s):
        return s.theta.v

    def forward(s, x):
        return ('toy', s, T(s.theta.v * x + (0 if s.training else 1)), x)


def toy_mll(likelihood, model):
    """minus half the sum of squares; the likelihood halves it in evaluation mode"""
    def f(out, y, *a, **k):
        tag, m, pred, x = out
        if m is not model:
            raise Unsupported('output of another model')
        if pred.shape != y.shape:
            raise RuntimeError('sizes do not match')
        r = pred - y
        w = num(1) if likelihood.training else num(Fraction(1, 2))
        return Loss(-w * nps.sum_(r * r) / 2, -w * nps.sum_(r * x), m.theta)
    return f


class ZeroMean(Module):
    def __init__(s, *a, **k):
        super().__init__()

    def forward(s, x):
        return T(nps.zeros((x.shape[0],)))


class ConstantMean(Module):
    def __init__(s, constant_prior=None, constant_constraint=None, **k):
        super().__init__()
        s.register_parameter('raw_constant', T(nps.zeros(())))

    @property
    def constant(s):
        return s.raw_constant

    @constant.setter
    def constant(s, v):
        s.initialize(raw_constant=v)

    def forward(s, x):
        return T(nps.zeros((x.shape[0],)) + s.constant)


# ------------------------------------------------------ metrics of predictions
def _mae(d, y, **k):
    return T(nps.mean(nps.absolute(d.mean - y)))


def _mse(d, y, squared=True):
    r = nps.mean((d.mean - y) * (d.mean - y))
    return T(r if squared else nps.sqrt(r))


def _r2(input, target, *, multioutput='uniform_average', num_regressors=0):
    if num_regressors or input.ndim != 1:
        raise Unsupported('r2_score options')
    if input.shape != target.shape:
        raise ValueError('The `input` and `target` should have the same size')
    if input.shape[0] < 2:
        raise ValueError('There is no enough data for computing. Needs at least two samples to calculate r2 score.')
    c = target - nps.mean(target)
    r = target - input
    return T(1 - nps.sum_(r * r) / nps.sum_(c * c))


def _msll(d, y, train_y=None):
    return _Value()


# ------------------------------------------------------------- gradient steps
class SGD:
    def __init__(s, params, lr=1e-3, momentum=0, dampening=0, weight_decay=0, nesterov=False, **k):
        if momentum or dampening or weight_decay or nesterov or k:
            raise Unsupported('options of SGD')
        s.params, s.lr = list(params), lr

    def zero_grad(s, set_to_none=True):
        for p in s.params:
            p.grad = None

    def step(s, closure=None):
        if closure is not None:
            raise Unsupported('closure')
        for p in s.params:
            g = getattr(p, 'grad', None)
            if g is not None:
                p.move(s.change(p, g))

    def change(s, p, g):
        return s.lr * g


class Adam(SGD):
    def __init__(s, params, lr=1e-3, betas=(0.9, 0.999), eps=1e-8, **k):
        if k:
            raise Unsupported('options of Adam')
        s.params, s.lr, s.b, s.st = list(params), lr, betas, {}

    def change(s, p, g):
        m, v, t = s.st.get(id(p), (0, 0, 0))
        if t:
            raise Unsupported('a second Adam step')
        s.st[id(p)] = (m, v, t + 1)
        # first step: the bias-corrected averages are g and g^2
        return s.lr * g / (abs(g) + approx(1e-8))


def train_test_split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    if stratify is not None:
        raise Unsupported('stratified split')
    n = len(arrays[0])
    for a in arrays:
        if len(a) != n:
            raise ValueError('Found input variables with inconsistent numbers of samples')

    def count(v, up):
        v = num(v)
        if v.const() is None:
            if v.k == 'i':
                return E().concretise(v)
            r = core.floor(v * n) if not up else -core.floor(-(v * n))
            return E().concretise(Sym(r.n, r.d, 'i'))
        c = v.const()
        if v.k == 'i':
            return int(c)
        return math.floor(float(c) * n) if not up else math.ceil(float(c) * n)
    if test_size is None and train_size is None:
        test_size = 0.25
    if test_size is not None:
        nte = count(test_size, True)
        ntr = n - nte if train_size is None else count(train_size, False)
    else:
        ntr = count(train_size, False)
        nte = n - ntr
    if ntr == 0:
        raise ValueError('the resulting train set will be empty')
    if shuffle:
        if n > 6:           # too many permutations: one of them
            p = [(3 * i + 1) % n if n % 3 else n - 1 - i for i in range(n)]
        elif random_state is None:
            p = nps.choose_distinct('split', n, n)
        else:
            sd = random_state if not isinstance(random_state, Sym) else (random_state.key())
            key = ('split', sd, n)
            if key not in E().memo:
                E().memo[key] = nps.choose_distinct('split', n, n)
            p = E().memo[key]
        te, tr = p[:nte], p[nte:nte + ntr]
    else:
        tr, te = list(range(ntr)), list(range(ntr, ntr + nte))
    out = []
    for a in arrays:
        for idx in (tr, te):
            if isinstance(a, Tensor):
                out.append(a[_np.array(idx, dtype=int)])
            elif isinstance(a, _np.ndarray):
                out.append(a[_np.array(idx, dtype=int)])
            else:
                out.append([a[i] for i in idx])
    return out


def make_modules():
    t = _Mod('torch')
    t.__path__ = []
    t.Tensor = Tensor
    t.tensor, t.as_tensor, t.is_tensor, t.from_numpy = tensor, as_tensor, is_tensor, tensor
    t.device = device
    for n, k in dict(float32='f', float64='f', float='f', double='f', int64='i', int32='i', long='i', int='i', bool='b').items():
        setattr(t, n, _Dtype(n, k))
    t.no_grad = _NoGrad
    t.set_default_dtype = lambda *a: None
    t.manual_seed = lambda *a: None
    for n in 'exp log sqrt matmul diag outer'.split():
        setattr(t, n, _w(getattr(nps, n)))
    t.abs = _w(nps.absolute)
    t.pow = lambda a, b: T(nps.power(a, b))
    t.mul, t.add, t.sub, t.div = [_w(f) for f in (nps.multiply, nps.add, nps.subtract, nps.divide)]
    t.mm = t.mv = t.matmul
    t.clamp = t.clip = lambda x, min=None, max=None: x.clamp(min, max)
    t.maximum, t.minimum, t.where = [_w(f) for f in (nps.maximum, nps.minimum, nps.where)]
    t.square, t.neg, t.multiply, t.subtract, t.divide = lambda x: x * x, lambda x: -x, t.mul, t.sub, t.div
    t.rsqrt = lambda x: x.rsqrt()
    t.round = lambda x, decimals=0: x.round(decimals)
    t.floor = lambda x: x.floor()
    t.ceil = lambda x: x.ceil()
    t.sum, t.mean = _w(nps.sum_), _w(nps.mean)
    t.std = lambda x, *a, **k: x.std(*a, **k)
    t.var = lambda x, *a, **k: x.var(*a, **k)
    t.zeros, t.ones = _create(nps.zeros), _create(nps.ones)
    t.full = lambda sh, v, **k: T(nps.full(sh, v, 'f'))
    t.eye = lambda n, *a, **k: T(nps.eye(n))
    t.zeros_like = lambda x, **k: T(nps.zeros_like(x))
    t.ones_like = lambda x, **k: T(nps.ones_like(x))
    t.full_like = lambda x, v, **k: T(nps.full_like(x, v))
    t.arange = lambda *a, **k: T(asarr(nps.arange(*a)))
    t.squeeze = lambda x, d=None: x.squeeze(d)
    t.unsqueeze = lambda x, d: x.unsqueeze(d)
    t.cat = t.concat = lambda l, dim=0: T(nps.concatenate(l, dim))
    t.stack = lambda l, dim=0: T(nps.stack(l, dim))
    t.reciprocal = lambda x: T(nps.divide(1, x))
    t.einsum = _w(nps.einsum)
    t.transpose = lambda x, a, b: x.transpose(a, b)
    t.diagonal = lambda x: x.diag()
    nn = _Mod('torch.nn')
    nn.Parameter = _parameter
    nn.Module = Module
    t.nn = nn
    opt = _Mod('torch.optim')

    opt.Adam, opt.SGD = Adam, SGD
    t.optim = opt

    g = _Mod('gpytorch')
    g.__path__ = []
    kern = _Mod('gpytorch.kernels'); kern.Kernel, kern.ScaleKernel = Kernel, ScaleKernel
    cons = _Mod('gpytorch.constraints'); cons.Positive = Positive
    models = _Mod('gpytorch.models'); models.ExactGP = ExactGP
    lik = _Mod('gpytorch.likelihoods'); lik.GaussianLikelihood = GaussianLikelihood
    means = _Mod('gpytorch.means'); means.ZeroMean, means.ConstantMean = ZeroMean, ConstantMean
    mlls = _Mod('gpytorch.mlls'); mlls.ExactMarginalLogLikelihood = lambda l, m: (lambda o, y: _Value())
    dist = _Mod('gpytorch.distributions'); dist.MultivariateNormal = MultivariateNormal
    sett = _Mod('gpytorch.settings')
    for n in 'fast_pred_var fast_computations cholesky_jitter debug max_cholesky_size'.split():
        setattr(sett, n, _NoGrad)
    met = _Mod('gpytorch.metrics')
    met.mean_absolute_error, met.mean_squared_error = _mae, _mse
    met.mean_standardized_log_loss = met.negative_log_predictive_density = _msll
    g.settings, g.metrics = sett, met
    g.kernels, g.constraints, g.models, g.likelihoods, g.means, g.mlls, g.distributions = kern, cons, models, lik, means, mlls, dist
    sk = _Mod('sklearn'); sk.__path__ = []
    ms = _Mod('sklearn.model_selection'); ms.train_test_split = train_test_split
    sk.model_selection = ms
    te = _Mod('torcheval'); tm = _Mod('torcheval.metrics'); tf = _Mod('torcheval.metrics.functional')
    tf.r2_score = _r2
    te.metrics, tm.functional = tm, tf
    return {'torch': t, 'torch.nn': nn, 'torch.optim': opt, 'gpytorch': g, 'gpytorch.kernels': kern,
            'gpytorch.constraints': cons, 'gpytorch.models': models, 'gpytorch.likelihoods': lik,
            'gpytorch.means': means, 'gpytorch.mlls': mlls, 'gpytorch.distributions': dist, 'gpytorch.settings': sett, 'gpytorch.metrics': met,
            'sklearn': sk, 'sklearn.model_selection': ms, 'torcheval': te, 'torcheval.metrics': tm,
            'torcheval.metrics.functional': tf}
