"""Mechanical extraction: the modules of /repo/rockphypy are compiled from their current source text, unchanged, and
executed against the symbolic fronts (numpy, math, scipy, plotting).  Nothing is copied or rewritten by hand.
Dropped by the extraction: binary64 rounding/overflow (reals instead), dtype/int truncation, warnings, plotting and
printing effects, bodies of numpy/scipy routines (their contracts are used instead)."""
import ast, builtins, importlib, os, sys, types
from . import arr, sym as s_
from .sym import Unsupported, Sym, SymBool, S

REPO = os.environ.get('VERIF_REPO', '/repo')
REAL_PLOT = False
PKG = 'rockphypy'


class Stub(types.ModuleType):
    """inert module/object for plotting back ends: records nothing, returns itself"""

    def __init__(self, name='stub'):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__call__',):
            raise AttributeError(n)
        if (self.__name__, n) in (('rcParams', 'update'), ('style', 'use')) or n in ('rc', 'rcdefaults', 'switch_backend', 'close', 'ion', 'ioff', 'set_cmap'):
            return arr._setter('matplotlib ' + n)
        return Stub(n)

    def __call__(self, *a, **k): return Stub('call')
    def __iter__(self): return iter((Stub(), Stub()))
    def __getitem__(self, k): return Stub()
    def __setitem__(self, k, v):
        if self.__name__ == 'rcParams':
            arr.EFFECTS.append('matplotlib.rcParams[%r]' % (k,))
    def __enter__(self): return self
    def __exit__(self, *a): return False


class ExtStub:
    """external numeric routine under an assumed contract; contracts install a model in `impl`"""
    impl = {}

    def __init__(self, name): self.name = name

    def __call__(self, *a, **k):
        f = ExtStub.impl.get(self.name)
        if f is None:
            raise Unsupported('external routine ' + self.name)
        return f(*a, **k)


class _Partial(types.ModuleType):
    """a module of which only some routines have a contract"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s.%s' % (self.__name__, n))


# modules whose results do not depend on the arguments alone: no contract, a use leaves the fragment
AMBIENT = {'random', 'time', 'datetime', 'os', 'secrets', 'uuid', 'socket', 'getpass', 'platform', 'locale', 'tempfile', 'subprocess',
           'threading', 'multiprocessing', 'concurrent', 'gc', 'weakref', 'ctypes', 'inspect', 'sys', 'logging', 'io', 'pathlib', 'shelve',
           'pickle', 'shutil', 'signal', 'atexit', 'contextvars', 'joblib', 'resource', 'traceback', 'linecache', 'decimal', 'importlib'}


class _AmbientAttr:
    def __init__(self, name): self.__name = name

    def _no(self, *a, **k):
        raise Unsupported(self.__name)
    __call__ = __getitem__ = __iter__ = __bool__ = __len__ = __contains__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = \
        __truediv__ = __rtruediv__ = __mod__ = __rmod__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __float__ = __int__ = __index__ = \
        __enter__ = __exit__ = _no
    __hash__ = object.__hash__

    def __setitem__(self, k, v): arr.EFFECTS.append('%s[%r]' % (self.__name, k))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _AmbientAttr(self.__name + '.' + n)


class _Ambient(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return _AmbientAttr(self.__name__ + '.' + n)


def _mod(name, **attrs):
    m = _Partial(name)
    for k, v in attrs.items():
        setattr(m, k, v)
    return m


class _ScipySpecial(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('jv', 'jn'):
            def jv(k, z):
                if isinstance(z, arr.SymFilt):
                    return arr.SymFilt(s_.fn('jv', S(k), z.e), z.m)
                if isinstance(z, arr.SymVec):
                    return arr.SymVec(s_.fn('jv', S(k), z.e))
                if isinstance(z, arr.SObj):
                    return arr.smap(lambda x: s_.fn('jv', S(k), x), z)
                return s_.fn('jv', S(k), S(z))
            return jv
        if n in ('j0', 'j1'):
            return lambda z: self.jv(int(n[1]), z)
        raise Unsupported('scipy.special.' + n)


SPECIAL = _ScipySpecial('scipy.special')
OPT = _mod('scipy.optimize', fsolve=ExtStub('fsolve'), root=ExtStub('root'), brentq=ExtStub('brentq'),
           minimize=ExtStub('minimize'), least_squares=ExtStub('least_squares'))
INTEG = _mod('scipy.integrate', odeint=ExtStub('odeint'), solve_ivp=ExtStub('solve_ivp'), quad=ExtStub('quad'))
SCIPY = _mod('scipy', special=SPECIAL, optimize=OPT, integrate=INTEG)


class _ILoc:
    def __init__(self, df): self.df = df

    def __getitem__(self, k):
        cols = list(self.df.cols.values())
        if isinstance(k, tuple) and len(k) == 2:
            i, j = k
            if isinstance(i, arr.MapIdx):
                return arr.mkarr([c[i] for c in cols])[j]
            if isinstance(i, int) and j == slice(None):
                return arr.mkarr([c.view(arr.np.ndarray)[i] for c in cols])
            if i == slice(None) and isinstance(j, int):
                return cols[j]
            if isinstance(i, int) and isinstance(j, int):
                return cols[j].view(arr.np.ndarray)[i]
        elif isinstance(k, arr.MapIdx):
            return arr.mkarr([c[k] for c in cols])
        elif isinstance(k, int):
            return arr.mkarr([c.view(arr.np.ndarray)[k] for c in cols])
        raise Unsupported('DataFrame.iloc')


class DataFrame:
    """columns of equal length by name (model of the pandas subset the package uses)"""

    def __init__(self, data=None, **k):
        self.cols = {}
        if k:
            raise Unsupported('DataFrame arguments')
        if isinstance(data, dict):
            for n, c in data.items():
                self[n] = c
        elif data is not None:
            raise Unsupported('DataFrame of ' + type(data).__name__)

    def __setitem__(self, n, c):
        c = arr.mkarr(c)
        if isinstance(c, arr.SymVec) and not isinstance(c, arr.SymFilt):
            if any(not isinstance(o, arr.SymVec) for o in self.cols.values()):
                raise Unsupported('DataFrame columns')
            self.cols[n] = c
            return
        if not isinstance(c, arr.SObj) or c.ndim != 1:
            raise Unsupported('DataFrame column')
        for o in self.cols.values():
            if o.shape != c.shape:
                raise ValueError('Length of values does not match length of index')
        self.cols[n] = c

    def __getitem__(self, n): return self.cols[n]
    @property
    def iloc(self): return _ILoc(self)
    @property
    def columns(self): return list(self.cols)
    @property
    def shape(self): return (self.vsize, len(self.cols))
    def __len__(self): return len(next(iter(self.cols.values()))) if self.cols else 0
    @property
    def vsize(self): return _len(next(iter(self.cols.values()))) if self.cols else 0
    @property
    def values(self):
        if self.cols and isinstance(next(iter(self.cols.values())), arr.SymVec):
            return arr.SymMat([S(c.e) for c in self.cols.values()], tr=True)
        return arr.mkarr([[c.view(arr.np.ndarray)[i] for c in self.cols.values()] for i in range(len(self))])
    def to_numpy(self): return self.values

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('DataFrame.' + n)


PANDAS = _mod('pandas', DataFrame=DataFrame, set_option=arr._setter('set_option', 'pandas'), reset_option=arr._setter('reset_option', 'pandas'))


class _Warnings(types.ModuleType):
    """warnings: filters set outside catch_warnings() are an interpreter-wide setting"""
    def __init__(self):
        super().__init__('warnings')
        self.depth = 0

    def __getattr__(self, n):
        import contextlib, warnings
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('simplefilter', 'filterwarnings', 'resetwarnings'):
            return (lambda *a, **k: None) if self.depth else arr._setter('warnings.' + n)
        if n == 'catch_warnings':
            @contextlib.contextmanager
            def g(*a, **k):
                self.depth += 1
                try:
                    with warnings.catch_warnings(*a, **k) as w:
                        yield w
                finally:
                    self.depth -= 1
            return g
        return getattr(warnings, n)


WARNINGS = _Warnings()


class Loader:
    def __init__(self):
        self.mods = {}
        self.errors = {}
        self.extra = {}

    def importer(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = PKG
            full = base + ('.' + name if name else '')
            if not fromlist:
                return self.pkg(full)
            if not name:
                m = types.ModuleType(PKG)
                for f in fromlist:
                    setattr(m, f, self.module(PKG + '.' + f))
                return m
            return self.module(full)
        root = name.split('.')[0]
        if root == PKG:
            if fromlist and name == PKG:
                m = types.ModuleType(PKG)
                for f in fromlist:
                    mod = self.module(PKG + '.' + f)
                    setattr(m, f, mod)
                return m
            if fromlist:
                return self.module(name)
            return self.pkg(name)
        if root == 'numpy':
            if name == 'numpy':
                return arr.NP
            if name == 'numpy.linalg':
                return arr.NP.linalg if fromlist else arr.NP
            return importlib.import_module(name) if fromlist else arr.NP
        if root == 'math' or root == 'cmath':
            return arr.MATH
        if root == 'scipy':
            tgt = {'scipy': SCIPY, 'scipy.special': SPECIAL, 'scipy.optimize': OPT, 'scipy.integrate': INTEG}.get(name)
            if tgt is None:
                return Stub(name)
            return tgt if fromlist else SCIPY
        if root in ('matplotlib', 'mpl_toolkits', 'seaborn', 'kde_diffusion', 'pylab'):
            return self.extra.get(root) or Stub(name)
        if root == 'pandas':
            return PANDAS
        if root == 'warnings':
            return WARNINGS
        if root in AMBIENT:
            builtins.__import__(name, globals, locals, fromlist, level)
            return _Ambient(name if fromlist else root)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def pkg(self, name):
        m = types.ModuleType(PKG)
        parts = name.split('.')
        if len(parts) > 1:
            setattr(m, parts[1], self.module(PKG + '.' + parts[1]))
        return m

    def module(self, full):
        if full in self.mods:
            return self.mods[full]
        rel = full.split('.')[1:]
        path = os.path.join(REPO, PKG, *rel) + '.py'
        if not os.path.exists(path):
            path = os.path.join(REPO, PKG, *rel, '__init__.py')
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src, path)
        from . import loops
        tree = loops.instrument(tree)
        code = compile(tree, path, 'exec')
        m = types.ModuleType(full)
        m.__file__ = path
        b = dict(vars(builtins))
        b['__import__'] = self.importer
        b.update(BUILTINS)
        m.__dict__['__builtins__'] = b
        m.__dict__['__vc_loop__'] = loops.runtime
        self.mods[full] = m
        try:
            exec(code, m.__dict__)
        except Exception:
            del self.mods[full]
            raise
        return m

    def get(self, qual):
        """'EM.HS' -> function object"""
        mod, name = MODOF[qual.split('.')[0]], qual.split('.')
        m = self.module(PKG + '.' + mod)
        o = getattr(m, name[0])
        for p in name[1:]:
            o = getattr(o, p)
        return o


MODOF = {'utils': 'utils', 'EM': 'EM', 'Fluid': 'Fluid', 'GM': 'GM', 'AVO': 'AVO', 'BW': 'BW', 'Empirical': 'Emp',
         'Permeability': 'Perm', 'QI': 'QI', 'Anisotropy': 'Anisotropy'}


def _len(x):
    if isinstance(x, arr.SymVec):
        return x.size
    if isinstance(x, DataFrame):
        return x.vsize
    if isinstance(x, arr.SymMat):
        return x.shape[0]
    return len(x)


def _range(*a):
    if any(isinstance(x, Sym) and x.op != 'c' for x in a):
        from . import loops
        if len(a) == 1:
            return loops.SymRange(a[0])
        if len(a) == 2:
            return loops.SymRange(a[1] - a[0])
        raise Unsupported('range with a symbolic step')
    return range(*[int(x) if isinstance(x, Sym) else x for x in a])


def _enumerate(x, start=0):
    if isinstance(x, arr.SymVec):
        if start:
            raise Unsupported('enumerate of a generic vector with an offset')
        from . import loops
        return loops.MapIter(lambda i: (i, x[i]))
    return enumerate(x, start)


def _zip(*xs, **k):
    if any(isinstance(x, arr.SymVec) for x in xs):
        from . import loops
        if not all(isinstance(x, (arr.SymVec, loops.MapIter)) or isinstance(x, loops.SymRange) and x.n is arr.NLEN for x in xs):
            raise Unsupported('zip of a generic vector with something else')
        return loops.MapIter(lambda i: tuple(x.at(i) if isinstance(x, loops.MapIter) else i if isinstance(x, loops.SymRange) else x[i] for x in xs))
    return zip(*xs, **k)


def _abs(x):
    return abs(x)


def _sum(xs, start=0):
    if isinstance(xs, arr.SymVec):
        return arr.vsum(xs) + start
    return sum(xs, start)


def _isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        flat.extend(y if isinstance(y, tuple) else (y,))
    import numbers
    if isinstance(x, Sym):
        for y in flat:
            if y in (float, arr.VFloat, arr.NpFloat, numbers.Number, numbers.Real, arr.np.floating, arr.np.number, Sym):
                return True
            if y is int and x.op == 'c' and x.val.denominator == 1:
                return False
        return False
    return isinstance(x, t)


class _Type(type):
    """builtin type: `type(x)` answers with the stand-ins that the names ndarray and float are bound to"""
    def __call__(cls, x, *a):
        if a:
            return type(x, *a)
        if isinstance(x, (arr.SObj, arr.SymVec, arr.SymGrid)):
            return arr.NdArray
        if isinstance(x, (Sym, float)):
            return arr.VFloat
        return type(x)

    def __instancecheck__(cls, x):
        return isinstance(x, type)


class VType(metaclass=_Type):
    pass


def _vround(x, n=None):
    return round(x, n) if n is not None else round(x)


def _nobuiltin(n):
    def g(*a, **k):
        raise Unsupported(n + '()')
    return g


BUILTINS = {'type': VType, 'len': _len, 'range': _range, 'sum': _sum, 'enumerate': _enumerate, 'zip': _zip, 'isinstance': _isinstance, 'float': arr.VFloat,
            'print': lambda *a, **k: None, 'open': _nobuiltin('open'), 'id': _nobuiltin('id'), 'hash': _nobuiltin('hash'), 'input': _nobuiltin('input')}


_real = None


def real():
    """the unmodified package, imported from the same working tree"""
    global _real
    if _real is None:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        sys.dont_write_bytecode = True
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        import warnings
        warnings.simplefilter('ignore')
        _real = importlib.import_module(PKG)
        if not os.path.realpath(_real.__file__).startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError('rockphypy was not imported from ' + REPO)
    return _real


def real_func(qual):
    real()
    parts = qual.split('.')
    o = getattr(importlib.import_module(PKG + '.' + MODOF[parts[0]]), parts[0])
    for p in parts[1:]:
        o = getattr(o, p)
    return o
