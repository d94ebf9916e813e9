"""The two worlds a harness can run in.

SymWorld   /repo's modules, compiled from the current source, executed with symbolic stand-ins for numpy, scipy, pandas,
           torch, gpytorch, matplotlib, cvxpy ... ; nothing of /repo is modified or copied.
RealWorld  /repo's modules imported normally with the real libraries (replay of counterexamples).
"""
import builtins as _b
import ast, importlib, os, re, sys, types, math as _math, warnings
import numpy as _np
from . import core, nps, sps, pds, tos, stubs
from .core import Sym, SymBool, Unsupported, num

REPO = os.environ.get('VP_REPO', '/repo')
_CODE = {}          # path -> (code, package?)
EXECUTED = {}       # qualified function -> file:line

STDLIB = {'typing', 'enum', 'itertools', 'warnings', 'collections', 'collections.abc', 'inspect', 'numbers', 'functools',
          'copy', 're', 'operator', 'abc', 'dataclasses', 'pickle', 'string', 'types', 'logging', 'bisect', 'heapq',
          'pathlib', 'io', 'contextlib', '__future__', 'fractions', 'decimal', 'statistics', 'time', 'textwrap', 'csv',
          'json', 'cmath', 'hashlib', 'traceback', 'sys', 'typing_extensions', 'datetime'}


# ------------------------------------------------------------ builtins shim
class _IMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.k == 'i'
        return isinstance(x, int)

    def __subclasscheck__(cls, c):
        return issubclass(c, int) if c is not cls else True

    def __call__(cls, x=0, *a):
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, Sym):
            return core.trunc(x)
        if isinstance(x, nps.SArr):
            return core.trunc(num(x.item()))
        return int(x, *a)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


class SInt(int, metaclass=_IMeta):
    _symx_kind = 'i'


class _FMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, Sym):
            return x.k == 'f'
        return isinstance(x, float)

    def __subclasscheck__(cls, c):
        return issubclass(c, float) if c is not cls else True

    def __call__(cls, x=0.0):
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, nps.SArr):
            x = x.item()
        if isinstance(x, Sym):
            return Sym(x.n, x.d, 'f')
        if isinstance(x, str):
            return float(x)
        return float(x)

    def __eq__(cls, o):
        return o is float or o is cls

    def __hash__(cls):
        return hash(float)


class SFloat(float, metaclass=_FMeta):
    _symx_kind = 'f'


class _BMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SymBool))

    def __call__(cls, x=False):
        return bool(x)

    def __eq__(cls, o):
        return o is bool or o is cls

    def __hash__(cls):
        return hash(bool)


class SBool(metaclass=_BMeta):
    _symx_kind = 'b'


def _symnum(x):
    return isinstance(x, Sym)


def _minmax(real, f):
    def g(*a, **k):
        if len(a) == 1:
            l = list(a[0])
        else:
            l = list(a)
        if k or not any(_symnum(x) for x in l) or not l:
            return real(l, **k) if l or 'default' in k else real(l)
        if all(isinstance(x, (int, float, Sym, _np.number)) for x in l):
            r = l[0]
            for x in l[1:]:
                r = f(r, x)
            return r
        return real(l)
    return g


def _mk_builtins(world):
    d = dict(vars(_b))
    d['__import__'] = world._import
    d['int'], d['float'], d['bool'] = SInt, SFloat, SBool
    def print_(*a, sep=' ', end='\n', file=None, flush=False):
        if world.out is not None and file is None:
            world.out.append((' ' if sep is None else sep).join(x if isinstance(x, str) else
                             (format(x, '') if isinstance(x, (Sym, nps.SArr)) else str(x)) for x in a) + ('\n' if end is None else end))
    d['print'] = print_
    d['__percent__'] = percent
    d['max'] = _minmax(max, core.s_max)
    d['min'] = _minmax(min, core.s_min)

    def open_(p, mode='r', *a, **k):
        f = world.vfs.get(str(p))
        if isinstance(f, stubs.PickleFile):
            world.touched.add(str(p))
            return f
        if str(p) in world.vfs or any(c in mode for c in 'wa+x'):
            raise Unsupported('open(%r)' % (p,))
        return open(p, mode, *a, **k)
    d['open'] = open_
    return d


def math_module():
    m = stubs.Mod('math')
    m.sqrt, m.exp, m.log = (lambda x: core.sqrt(num(x))), (lambda x: core.exp(num(x))), (
        lambda x, b=None: core.log(num(x)) if b is None else core.log(num(x)) / core.log(num(b)))
    m.floor = lambda x: core.floor(num(x))
    m.ceil = lambda x: -core.floor(-num(x))
    m.trunc = lambda x: core.trunc(num(x))
    m.fabs = lambda x: abs(num(x))
    m.pow = lambda a, b: core.power(num(a), num(b))
    m.log10 = lambda x: core.log(num(x)) / core.log(num(10))
    m.isclose = nps.isclose
    m.isnan = m.isinf = lambda x: False
    m.isfinite = lambda x: True
    m.hypot = lambda a, b: core.sqrt(num(a) * num(a) + num(b) * num(b))
    m.dist = lambda a, b: core.sqrt(sum((num(x) - num(y)) * (num(x) - num(y)) for x, y in zip(a, b)))
    m.comb, m.factorial, m.gcd, m.perm = _math.comb, _math.factorial, _math.gcd, _math.perm
    m.pi, m.e, m.inf, m.nan = _math.pi, _math.e, _math.inf, _math.nan
    m.prod = lambda l: __import__('functools').reduce(lambda a, b: a * b, l, 1)
    m.fsum = sum
    return m


_SHARED = {}


def _shared():
    if not _SHARED:
        npm = nps.make_module()
        _SHARED['numpy'] = npm
        _SHARED['numpy.linalg'] = nps.linalg
        _SHARED['numpy.random'] = nps.random
        _SHARED.update(sps.make_modules())
        _SHARED.update(tos.make_modules())
        _SHARED['math'] = math_module()
        real_finfo = _np.finfo

        def finfo(t=float):
            k = getattr(t, '_symx_kind', None)
            if k == 'f':
                t = float
            if isinstance(t, nps.SArr):
                t = float
            f = real_finfo(t)
            return types.SimpleNamespace(eps=num(float(f.eps)), tiny=num(float(f.tiny)), max=float(f.max), min=float(f.min),
                                         resolution=num(float(f.resolution)))
        npm.finfo = finfo
    return _SHARED


class _Percent(ast.NodeTransformer):
    """'...' % values goes through percent() so that symbolic values can be printed"""
    def visit_BinOp(s, n):
        s.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            f = ast.copy_location(ast.Name('__percent__', ast.Load()), n)
            return ast.copy_location(ast.Call(f, [n.left, n.right], []), n)
        return n


def percent(text, args):
    if not any(isinstance(a, core.Sym) and a.const() is None for a in (args if isinstance(args, tuple) else (args,))):
        return text % args
    it = iter(args if isinstance(args, tuple) else (args,))

    def one(m):
        if m.group()[-1] == '%':
            return '%'
        v = next(it)
        return format(v) if isinstance(v, core.Sym) and v.const() is None else m.group() % (v,)
    return re.sub(r'%[#0\- +]*\d*(?:\.\d+)?[a-zA-Z%]', one, text)


def _source(path):
    c = _CODE.get(path)
    if c is None:
        with open(path, 'rb') as f:
            src = f.read()
        c = compile(_Percent().visit(ast.parse(src, path)), path, 'exec', dont_inherit=True)
        _CODE[path] = c
    return c


class SymWorld:
    symbolic = True

    def __init__(s):
        s.vfs, s.gone, s.dirs, s.rng_events, s.touched = {}, set(), {}, [], set()
        s.plt = stubs.Plt()
        s.out = None
        s.cheb_log = []
        s.mods = {}
        s.table = dict(_shared())
        s.table.update(stubs.mpl_modules(s.plt))
        s.table['networkx'] = stubs.nx_module(s)
        s.table['random'] = stubs.random_module(s)
        s.table.update(stubs.os_modules(s))
        s.table['pkg_resources'] = stubs.pkg_module(REPO)
        s.table['pandas'] = pds.make_module(s)
        s.table['pickle'] = stubs.pickle_module()
        s.table['cvxpy'] = stubs.cvxpy_module()

        def chebcoef(n):
            k = int(n)
            return nps.from_list([core.ENG.fresh('chebcoef', 'f', -10, 10) for _ in range(k)], (k,), 'f')
        s.table['chebpy'] = stubs.chebpy_module(chebcoef, s.cheb_log)
        core.ENG.cp_log = []
        s._modules()

    def _modules(s):
        s.mods = {}
        s.builtins = _mk_builtins(s)
        top = types.ModuleType('pytspl')
        top.__path__ = [os.path.join(REPO, 'pytspl')]

        def lazy(n):
            if n.startswith('__'):
                raise AttributeError(n)
            path = os.path.join(REPO, 'pytspl', '__init__.py')
            exec(_source(path), s._globals(top, 'pytspl', path, True))
            del top.__getattr__
            return getattr(top, n)
        top.__getattr__ = lazy
        s.mods['pytspl'] = top

    def fresh(s):
        """the same libraries and files, but none of the loaded modules of the code"""
        import copy
        w = copy.copy(s)
        w._modules()
        return w

    def _globals(s, m, name, path, pkg):
        g = m.__dict__
        g['__name__'], g['__file__'] = name, path
        g['__package__'] = name if pkg else name.rpartition('.')[0]
        g['__builtins__'] = s.builtins
        return g

    def _import(s, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == 'pytspl' or name.startswith('pytspl.'):
            m = s.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and f not in m.__dict__ and s._find(name + '.' + f):
                        s.load(name + '.' + f)
                return m
            return s.mods[name.partition('.')[0]]
        if name in s.table:
            m = s.table[name]
            if fromlist:
                for f in fromlist:
                    if name + '.' + f in s.table and not hasattr_plain(m, f):
                        setattr(m, f, s.table[name + '.' + f])
                return m
            return s.table[name.partition('.')[0]]
        root = name.partition('.')[0]
        if name in STDLIB:
            return _b.__import__(name, None, None, fromlist or (), 0)
        if root in ('networkx', 'matplotlib'):
            pass
        # an import of something that does not exist must fail as it does for real
        try:
            found = importlib.util.find_spec(root)
        except (ImportError, ValueError):
            found = None
        if found is None:
            raise ModuleNotFoundError("No module named %r" % root)
        raise Unsupported('import %s' % name)

    def _find(s, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            return (p if os.path.exists(p) else None, True, base)
        if os.path.exists(base + '.py'):
            return (base + '.py', False, None)
        return None

    def load(s, name):
        m = s.mods.get(name)
        if m is not None:
            return m
        parent, _, leaf = name.rpartition('.')
        pm = s.load(parent)
        if name in s.mods:
            return s.mods[name]
        f = s._find(name)
        if f is None:
            raise ModuleNotFoundError("No module named %r" % name)
        path, pkg, base = f
        m = types.ModuleType(name)
        if pkg:
            m.__path__ = [base]
        s.mods[name] = m
        try:
            if path:
                exec(_source(path), s._globals(m, name, path, pkg))
        except BaseException:
            s.mods.pop(name, None)
            raise
        setattr(pm, leaf, m)
        return m


def hasattr_plain(m, f):
    try:
        return hasattr(m, f)
    except Unsupported:
        return False


# ------------------------------------------------------- executed functions
_TOOL = 3


def start_recording():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, 'symx')
    except ValueError:
        return
    pre = os.path.join(REPO, 'pytspl') + os.sep

    def on(code, off):
        fn = code.co_filename
        if fn.startswith(pre) and not code.co_name.startswith('<'):
            EXECUTED['%s::%s' % (os.path.relpath(fn, REPO), code.co_qualname)] = code.co_firstlineno
        return mon.DISABLE
    mon.register_callback(_TOOL, mon.events.PY_START, on)
    mon.set_events(_TOOL, mon.events.PY_START)


# ---------------------------------------------------------------- real world
_REAL = {}


def _real_setup():
    """import path with a bare top package, so that only the needed sub-packages are imported"""
    if _REAL:
        return
    os.environ.setdefault('MPLBACKEND', 'Agg')
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    top = types.ModuleType('pytspl')
    top.__path__ = [os.path.join(REPO, 'pytspl')]
    top.__file__ = os.path.join(REPO, 'pytspl', '__init__.py')

    def lazy(n):
        if n.startswith('__'):
            raise AttributeError(n)
        with open(top.__file__) as f:
            exec(compile(f.read(), top.__file__, 'exec'), top.__dict__)
        top.__dict__.pop('__getattr__', None)
        return getattr(top, n)
    top.__getattr__ = lazy
    top.__package__ = 'pytspl'
    sys.modules['pytspl'] = top
    _REAL['top'] = top


class _Item:
    def __init__(s, d):
        s.d = d


class RealWorld:
    symbolic = False

    def __init__(s, scratch=None):
        _real_setup()
        # fresh modules per run: no state is carried from one replay to the next
        for n in [n for n in sys.modules if n.startswith('pytspl.')]:
            del sys.modules[n]
        top = sys.modules['pytspl']
        for n in [n for n in vars(top) if not n.startswith('__')]:
            delattr(top, n)
        s.plt = stubs.Plt()
        s.patched = []
        s.rng_events = []
        s.scratch = scratch

    def load(s, name):
        return importlib.import_module(name)

    def swap(s, mods):
        """puts the given modules of the code in place of the loaded ones, which are returned"""
        old = {n: m for n, m in sys.modules.items() if n.startswith('pytspl.')}
        top = sys.modules['pytspl']
        names = {n: v for n, v in vars(top).items() if not n.startswith('__')}
        for n in old:
            del sys.modules[n]
        for n in names:
            delattr(top, n)
        sys.modules.update(mods.get('mods', {}))
        for n, v in mods.get('names', {}).items():
            setattr(top, n, v)
        return dict(mods=old, names=names)

    def patch(s, obj, name, val):
        s.patched.append((obj, name, getattr(obj, name, s)))
        setattr(obj, name, val)

    def patch_item(s, d, k, val):
        s.patched.append((_Item(d), k, d.get(k, s)))
        d[k] = val

    def close(s):
        for o, n, v in reversed(s.patched):
            if isinstance(o, _Item):
                if v is s:
                    o.d.pop(n, None)
                else:
                    o.d[n] = v
            elif v is s:
                delattr(o, n)
            else:
                setattr(o, n, v)
        s.patched = []
