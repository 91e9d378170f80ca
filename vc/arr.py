"""Symbolic arrays and the numpy/math/scipy front the real modules are executed against.

SymVec  : a vector of arbitrary (symbolic) length, represented by its element at a generic index.
SObj    : an ndarray of known shape holding scalars `Sym`.
NumpyProxy: what `import numpy` gives the extracted modules; symbolic where an argument is symbolic
            (or where an array is created), the real numpy otherwise.
"""
import builtins, functools, math, operator, types
from fractions import Fraction
import numpy as np
from . import sym as s_
from .sym import (Sym, SymBool, S, B, lift, const, ite, band, bor, bnot, fn, Unsupported, ZERO, ONE, PI, NAN)

NLEN = s_.var('#N')          # length of a generic vector


def is_sym(x):
    return isinstance(x, (Sym, SymBool, SymVec, SymFilt, SymMat, SymEdges)) or isinstance(x, SObj)


def deep_sym(x, d=3):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if d and isinstance(x, (list, tuple)):
        return any(deep_sym(y, d - 1) for y in x)
    if d and isinstance(x, dict):
        return any(deep_sym(y, d - 1) for y in x.values())
    return False


# ----------------------------------------------------------------------------- scalars
def _max(a, b):
    return ite(s_.lt(S(a), S(b)), b, a) if lift(a) is not None else None


def _s1(name):
    return lambda x: getattr(S(x), name)()


def _ident_real(f):
    return f


def _arctan2(a, b): return fn('arctan2', a, b)


def _np_lt(a, b): return s_.lt(S(a), S(b))


SCALAR = {
    'add': lambda a, b: S(a) + S(b), 'subtract': lambda a, b: S(a) - S(b), 'multiply': lambda a, b: _bmul(a, b),
    'divide': lambda a, b: S(a) / S(b), 'true_divide': lambda a, b: S(a) / S(b),
    'power': lambda a, b: s_.power(S(a), S(b)), 'float_power': lambda a, b: s_.power(S(a), S(b)),
    'negative': lambda a: -S(a), 'positive': lambda a: S(a), 'square': lambda a: S(a) * S(a),
    'reciprocal': lambda a: ONE / S(a), 'absolute': lambda a: s_.fabs(S(a)), 'fabs': lambda a: s_.fabs(S(a)),
    'conjugate': lambda a: s_.conj(S(a)), 'sign': _s1('sign'),
    'maximum': lambda a, b: ite(s_.lt(S(a), S(b)), S(b), S(a)),
    'minimum': lambda a, b: ite(s_.lt(S(b), S(a)), S(b), S(a)),
    'fmax': lambda a, b: ite(s_.lt(S(a), S(b)), S(b), S(a)),
    'fmin': lambda a, b: ite(s_.lt(S(b), S(a)), S(b), S(a)),
    'less': lambda a, b: s_.lt(S(a), S(b)), 'less_equal': lambda a, b: s_.le(S(a), S(b)),
    'greater': lambda a, b: s_.lt(S(b), S(a)), 'greater_equal': lambda a, b: s_.le(S(b), S(a)),
    'equal': lambda a, b: _sceq(a, b), 'not_equal': lambda a, b: bnot(_sceq(a, b)),
    'logical_and': lambda a, b: band(B(a), B(b)), 'logical_or': lambda a, b: bor(B(a), B(b)),
    'logical_not': lambda a: bnot(B(a)), 'invert': lambda a: bnot(B(a)),
    'logical_xor': lambda a, b: B(a) ^ B(b),
    'bitwise_and': lambda a, b: band(B(a), B(b)), 'bitwise_or': lambda a, b: bor(B(a), B(b)),
    'isnan': lambda a: S(a).op == 'nan', 'isfinite': lambda a: S(a).op not in ('nan', 'inf'),
    'isinf': lambda a: S(a).op == 'inf',
    'arctan2': lambda a, b: _arctan2(S(a), S(b)), 'hypot': lambda a, b: (S(a) * S(a) + S(b) * S(b)).sqrt(),
    'floor_divide': lambda a, b: S(a) // S(b), 'remainder': lambda a, b: S(a) % S(b),
    'matmul': None,
}
for _n in ('sqrt', 'cbrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arccosh', 'arcsinh', 'cosh', 'sinh',
           'tanh', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'deg2rad', 'radians', 'rad2deg', 'degrees'):
    SCALAR[_n] = _s1(_n)


def _bmul(a, b):
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return band(B(a), B(b))
    if isinstance(a, SymBool):
        return ite(a, S(b), ZERO)
    if isinstance(b, SymBool):
        return ite(b, S(a), ZERO)
    return S(a) * S(b)


def _sceq(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b
    if isinstance(a, SymBool) or isinstance(b, SymBool):
        a, b = B(a), B(b)
        return bor(band(a, b), band(bnot(a), bnot(b)))
    return s_.eq(S(a), S(b))


# ----------------------------------------------------------------------------- map loops
# "for every element of a generic vector": the body is verified once, at an arbitrary position.  While it runs only the
# elements at that position may be read or written (MAP[0]); afterwards the vectors hold the generic result, and the path
# conditions of the body belong to one position, so nothing may quantify over the positions any more (MAPPED[0]).
MAP = [None]
MAPPED = [False]


class MapIdx:
    """the arbitrary position of a map loop"""
    def __repr__(self): return '#i'
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('use of the index of a map loop')


class Poison:
    """value of a variable that a map loop carries from one position to another"""
    def __init__(self, n): self.__dict__['_n'] = n

    def __getattr__(self, k): raise Unsupported('variable %s carried through a map loop' % self.__dict__['_n'])


def _poison(k):
    def f(self, *a): raise Unsupported('variable %s carried through a map loop' % self.__dict__['_n'])
    setattr(Poison, k, f)


for _k in ('add radd sub rsub mul rmul truediv rtruediv pow rpow neg abs lt le gt ge eq ne bool iter len getitem setitem call float int index iadd isub imul '
           'itruediv array_ufunc array_function array and or invert mod floordiv contains').split():
    _poison('__%s__' % _k)
    if _k not in ('eq', 'ne', 'bool', 'contains', 'array', 'array_ufunc', 'array_function'):
        setattr(MapIdx, '__%s__' % _k, lambda self, *a: (_ for _ in ()).throw(Unsupported('arithmetic with the index of a map loop')))
Poison.__hash__ = object.__hash__


def nomap(what='operation on a whole vector'):
    if MAP[0] is not None:
        raise Unsupported(what + ' inside a map loop')


def noquant():
    nomap('quantification over a vector')
    if MAPPED[0]:
        raise Unsupported('quantification over a vector after a map loop')


# ----------------------------------------------------------------------------- generic vectors
class SymVec:
    """vector of arbitrary length, one generic element; mutable in place like an ndarray."""
    __array_priority__ = 2000

    def __init__(self, e, shape=None, col=None):
        if MAP[0] is not None:
            nomap()
        self.e = e if isinstance(e, (Sym, SymBool)) else (S(e) if not isinstance(e, (bool, np.bool_)) else bool(e))

    @property
    def shape(self): return (NLEN,)
    @property
    def ndim(self): return 1
    @property
    def size(self): return NLEN
    @property
    def dtype(self): return np.dtype(bool) if isinstance(self.e, (bool, SymBool)) else np.dtype(float)
    @property
    def T(self): return self
    @property
    def real(self): return SymVec(s_.re(self.e))
    @property
    def imag(self): return SymVec(s_.im(self.e))
    @property
    def values(self): return self

    def __len__(self): raise Unsupported('len() of a generic vector')
    def __iter__(self): raise Unsupported('iteration over a generic vector')
    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def __float__(self): raise TypeError('only length-1 arrays can be converted to Python scalars')
    def __repr__(self): return 'vec[%r]' % (self.e,)

    def _b(self, f, o, r=False):
        if isinstance(o, (list, tuple)) or isinstance(o, np.ndarray) and o.ndim > 0 and o.size != 1:
            raise Unsupported('generic vector with a fixed-size array')
        if isinstance(o, np.ndarray):
            o = o.reshape(())[()]
        if isinstance(o, SymFilt):
            raise Unsupported('filtered with unfiltered vector')
        if o is None or isinstance(o, str):
            return NotImplemented
        oe = o.e if isinstance(o, SymVec) else o
        return SymVec(SCALAR[f](oe, self.e) if r else SCALAR[f](self.e, oe))

    def __add__(s, o): return s._b('add', o)
    def __radd__(s, o): return s._b('add', o, True)
    def __sub__(s, o): return s._b('subtract', o)
    def __rsub__(s, o): return s._b('subtract', o, True)
    def __mul__(s, o): return s._b('multiply', o)
    def __rmul__(s, o): return s._b('multiply', o, True)
    def __truediv__(s, o): return s._b('divide', o)
    def __rtruediv__(s, o): return s._b('divide', o, True)
    def __pow__(s, o): return s._b('power', o)
    def __rpow__(s, o): return s._b('power', o, True)
    def __neg__(s): return SymVec(-S(s.e))
    def __pos__(s): return SymVec(s.e)
    def __abs__(s): return SymVec(s_.fabs(s.e))
    def __lt__(s, o): return s._b('less', o)
    def __le__(s, o): return s._b('less_equal', o)
    def __gt__(s, o): return s._b('greater', o)
    def __ge__(s, o): return s._b('greater_equal', o)
    def __eq__(s, o):
        if o is None or isinstance(o, str):
            return SymVec(False)
        return s._b('equal', o)
    def __ne__(s, o):
        if o is None or isinstance(o, str):
            return SymVec(True)
        return s._b('not_equal', o)
    __hash__ = None
    def __and__(s, o): return s._b('logical_and', o)
    def __rand__(s, o): return s._b('logical_and', o)
    def __or__(s, o): return s._b('logical_or', o)
    def __ror__(s, o): return s._b('logical_or', o)
    def __invert__(s): return SymVec(bnot(B(s.e)))
    def __matmul__(s, o): return dot(s, o)

    def _ip(s, f, o):
        nomap()
        r = s._b(f, o)
        if r is NotImplemented:
            return r
        s.e = r.e
        return s
    def __iadd__(s, o): return s._ip('add', o)
    def __isub__(s, o): return s._ip('subtract', o)
    def __imul__(s, o): return s._ip('multiply', o)
    def __itruediv__(s, o): return s._ip('divide', o)
    def __ipow__(s, o): return s._ip('power', o)

    def __getitem__(s, k):
        if isinstance(k, MapIdx):
            return s.e
        if isinstance(k, SymVec):
            return SymFilt(s.e, B(k.e))
        if isinstance(k, slice) and k == slice(None) or k is Ellipsis or (isinstance(k, tuple) and k == ()):
            return s
        raise Unsupported('index %r into a generic vector' % (k,))

    def __setitem__(s, k, v):
        if isinstance(k, MapIdx):
            if isinstance(v, np.ndarray):
                if v.shape != ():
                    raise Unsupported('array stored at one position')
                v = v.view(np.ndarray)[()]
            s.e = v if isinstance(v, (Sym, SymBool)) else S(v)
            return
        nomap()
        if isinstance(k, slice) and k == slice(None) or k is Ellipsis:
            k = SymVec(True)
        if not isinstance(k, SymVec):
            raise Unsupported('store at %r of a generic vector' % (k,))
        m = B(k.e)
        if isinstance(v, SymFilt):
            if v.m is not m:
                raise Unsupported('masked store with another mask')
            s.e = ite(m, v.e, s.e)
        elif isinstance(v, SymVec):
            if m is not True:
                raise Unsupported('masked store of a full vector')
            s.e = v.e
        else:
            s.e = ite(m, v if isinstance(v, (Sym, SymBool)) else S(v), s.e)

    def copy(s, *a, **k): return SymVec(s.e)
    def astype(s, t=None, **k):
        if _intdtype(t):
            raise Unsupported('astype(int)')
        return SymVec(s.e)
    def view(s, *a): return s
    def ravel(s): return s
    def flatten(s): return SymVec(s.e)
    def squeeze(s, *a): return s
    def reshape(s, *a, **k):
        if a in ((-1,), ((-1,),)):
            return s
        raise Unsupported('reshape')
    def tolist(s): raise Unsupported('tolist')
    def sum(s, *a, **k): return vsum(s)
    def mean(s, *a, **k): return vsum(s) / NLEN
    def dot(s, o): return dot(s, o)
    def min(s, *a, **k): noquant(); return fn('Min', s.e)
    def max(s, *a, **k): noquant(); return fn('Max', s.e)
    def any(s, *a, **k): return _quant(s, True)
    def all(s, *a, **k): return _quant(s, False)
    def fill(s, v): nomap(); s.e = S(v)
    def clip(s, lo=None, hi=None): return np_clip(s, lo, hi)
    def conj(s): return SymVec(s_.conj(s.e))
    conjugate = conj
    def __copy__(s): return SymVec(s.e)
    def __deepcopy__(s, memo): return SymVec(s.e)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a generic vector to ndarray')


class SymFilt(SymVec):
    """x[mask] of a generic vector: elementwise operations stay under the same mask."""

    def __init__(self, e, m):
        self.e = e
        self.m = m

    def _b(self, f, o, r=False):
        if isinstance(o, SymFilt):
            if o.m is not self.m:
                raise Unsupported('different masks')
            o = o.e
        elif isinstance(o, (SymVec, list, tuple)) or isinstance(o, np.ndarray) and o.ndim:
            raise Unsupported('filtered with unfiltered vector')
        return SymFilt(SCALAR[f](o, self.e) if r else SCALAR[f](self.e, o), self.m)

    @property
    def shape(self): raise Unsupported('shape of a filtered vector')
    @property
    def size(self): raise Unsupported('size of a filtered vector')
    def __neg__(s): return SymFilt(-S(s.e), s.m)
    def __abs__(s): return SymFilt(s_.fabs(s.e), s.m)
    def __pos__(s): return SymFilt(s.e, s.m)
    def __invert__(s): return SymFilt(bnot(B(s.e)), s.m)
    @property
    def real(self): return SymFilt(s_.re(self.e), self.m)
    @property
    def imag(self): return SymFilt(s_.im(self.e), self.m)
    def conj(s): return SymFilt(s_.conj(s.e), s.m)
    def __getitem__(s, k): raise Unsupported('index of filtered vector')
    def __setitem__(s, k, v): raise Unsupported('store to filtered vector')
    def copy(s, *a, **k): return SymFilt(s.e, s.m)
    def sum(s, *a, **k): return vsum(SymVec(ite(s.m, s.e, ZERO)))
    def mean(s, *a, **k): raise Unsupported('mean of filtered')


_qcount = [0]


def _quant(v, is_any):
    """np.any/np.all of a generic mask: an arbitrary truth value whose informative side constrains the element."""
    e = B(v.e)
    if isinstance(e, bool):
        return e
    noquant()
    from . import explore
    b = s_._mk(SymBool, 'bvar', (), ('any' if is_any else 'all', e.uid))
    t = explore.decide(b)
    if is_any and not t:
        explore.assume(bnot(e))
    if not is_any and t:
        explore.assume(e)
    return t


def vsum(v):
    noquant()
    if isinstance(v, SymFilt):
        return v.sum()
    return fn('Sum', S(v.e))


def dot(a, b):
    if isinstance(a, SymMat):
        return a.dot(b)
    if isinstance(b, SymMat):
        return b.T.dot(a)
    if isinstance(a, SymVec) and isinstance(b, SymVec):
        return vsum(SymVec(S(a.e) * S(b.e)))
    if isinstance(a, SymVec) or isinstance(b, SymVec):
        o = b if isinstance(a, SymVec) else a
        v = a if isinstance(a, SymVec) else b
        if lift(o) is not None:
            return v * o
        raise Unsupported('dot of generic vector and fixed array')
    a, b = mkarr(a), mkarr(b)
    return wrap(np.dot(a.view(np.ndarray), b.view(np.ndarray)))


class SymEdges:
    """the N+1 edges of N intervals: edge_0 = d0, edge_i+1 = edge_i + th_i; lo is the i-th lower edge, th the i-th thickness"""
    __array_priority__ = 1000
    ndim = 1
    T = property(lambda s: s)
    values = property(lambda s: s)
    dtype = np.dtype(float)

    def __init__(self, d0, lo, th): self.d0, self.lo, self.th = S(d0), S(lo), S(th)

    @property
    def shape(self): return (NLEN + 1,)

    @property
    def size(self): return NLEN + 1

    def __len__(self): raise Unsupported('len() of generic edges')
    def __iter__(self): raise Unsupported('iteration over generic edges')
    def copy(self, *a, **k): return self
    def astype(self, t=None, **k):
        if _intdtype(t):
            raise Unsupported('edges as integers')
        return self

    def __getitem__(self, k):
        if k == slice(1, None):
            return SymVec(self.lo + self.th)
        if k == slice(None, -1) or k == slice(0, -1):
            return SymVec(self.lo)
        if isinstance(k, (int, np.integer)) and k in (0, -1):
            return self.d0 + (fn('Sum', self.th) if k else 0)
        raise Unsupported('element of generic edges')

    def __setitem__(self, k, v): raise Unsupported('store to generic edges')
    def __array_ufunc__(self, *a, **k): raise Unsupported('ufunc on generic edges')
    def __array_function__(self, func, types, args, kwargs): return array_function(func, args, kwargs)
    def __array__(self, *a, **k): raise Unsupported('edges as numpy array')


class SymMat:
    """k generic vectors stacked: shape (k, N), or (N, k) when tr"""
    __array_priority__ = 2000

    def __init__(self, rows, tr=False):
        self.rows, self.tr = list(rows), tr

    @property
    def T(self): return SymMat(self.rows, not self.tr)
    def transpose(self): return self.T
    @property
    def ndim(self): return 2
    @property
    def shape(self): return (NLEN, len(self.rows)) if self.tr else (len(self.rows), NLEN)
    def copy(self): return SymMat(self.rows, self.tr)

    def _coef(self, o):
        c = list(mkarr(o, copy=False).view(np.ndarray).ravel()) if isinstance(o, (np.ndarray, list, tuple)) else None
        if c is None or len(c) != len(self.rows) or getattr(o, 'ndim', 1) != 1:
            raise Unsupported('operand of a stack of generic vectors')
        return [S(x) for x in c]

    def dot(self, o):
        if not self.tr:
            raise Unsupported('dot over the generic axis')
        c = self._coef(o)
        return SymVec(functools.reduce(lambda a, b: a + b, [S(r) * x for r, x in zip(self.rows, c)]))
    __matmul__ = dot

    def _b(self, o, f):
        if isinstance(o, SymMat):
            if o.tr != self.tr or len(o.rows) != len(self.rows):
                raise Unsupported('stacks of different shape')
            return SymMat([f(a, b) for a, b in zip(self.rows, o.rows)], self.tr)
        if isinstance(o, SymVec):
            if self.tr:
                raise Unsupported('broadcast')
            return SymMat([f(a, o.e) for a in self.rows], self.tr)
        if lift(o) is not None:
            return SymMat([f(a, S(o)) for a in self.rows], self.tr)
        if not self.tr:
            raise Unsupported('broadcast')
        return SymMat([f(a, b) for a, b in zip(self.rows, self._coef(o))], self.tr)
    def __add__(s, o): return s._b(o, lambda a, b: a + b)
    __radd__ = __add__
    def __mul__(s, o): return s._b(o, lambda a, b: a * b)
    __rmul__ = __mul__
    def __sub__(s, o): return s._b(o, lambda a, b: a - b)
    def __rsub__(s, o): return s._b(o, lambda a, b: b - a)
    def __truediv__(s, o): return s._b(o, lambda a, b: a / b)
    def __rtruediv__(s, o): return s._b(o, lambda a, b: b / a)

    def sum(self, axis=None, **k):
        if axis in ((1, -1) if self.tr else (0, -2)):
            return SymVec(functools.reduce(lambda a, b: a + b, self.rows))
        raise Unsupported('sum over the generic axis')

    def __getitem__(self, k):
        if self.tr and isinstance(k, MapIdx):
            return mkarr(list(self.rows))
        if self.tr and isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], MapIdx):
            return mkarr(list(self.rows))[k[1]]
        if isinstance(k, int) and not self.tr:
            return SymVec(self.rows[k])
        if isinstance(k, tuple) and len(k) == 2 and self.tr and k[0] == slice(None) and isinstance(k[1], int):
            return SymVec(self.rows[k[1]])
        raise Unsupported('index of a stack of generic vectors')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        f = {'add': lambda a, b: a + b, 'multiply': lambda a, b: a * b, 'subtract': lambda a, b: a - b, 'divide': lambda a, b: a / b}.get(ufunc.__name__)
        if method != '__call__' or kw or len(inputs) != 2 or f is None:
            raise Unsupported('ufunc on a stack of generic vectors')
        a, b = inputs
        return a._b(b, f) if isinstance(a, SymMat) else b._b(a, lambda x, y: f(y, x))

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)


# ----------------------------------------------------------------------------- generic grids
class SymGrid:
    """array over named axes of arbitrary length ('i', 'j') and axes of length one (1); one generic element.

    Axes broadcast like numpy's: aligned from the right, an axis of length one stretches.  Two different names at one place are
    arrays of different length, which numpy accepts only if the lengths happen to agree: no obligation is generated for that."""
    __array_priority__ = 3000

    def __init__(self, e, ax, base=None):
        self.e = e if isinstance(e, (Sym, SymBool)) else (S(e) if not isinstance(e, (bool, np.bool_)) else bool(e))
        self.ax, self.base = tuple(ax), base

    @staticmethod
    def join(xs):
        n = builtins.max(len(x.ax) for x in xs)
        out = []
        for k in range(n):
            a = {x.ax[k - n + len(x.ax)] for x in xs if k - n + len(x.ax) >= 0} - {1}
            if len(a) > 1:
                raise Unsupported('axes %s at one place' % sorted(a))
            out.append(a.pop() if a else 1)
        return tuple(out)

    @staticmethod
    def apply(f, *ins):
        """an elementwise function of grids and scalars"""
        g, es = [], []
        for x in ins:
            if isinstance(x, np.ndarray):
                if x.size != 1:
                    raise Unsupported('generic grid with a fixed-size array')
                g.append(SymGrid(0, (1,) * x.ndim))
                es.append(x.reshape(-1)[0])
            elif isinstance(x, SymGrid):
                g.append(x)
                es.append(x.e)
            elif isinstance(x, (SymVec, SymMat, SymEdges, list, tuple)):
                raise Unsupported('generic grid with another array')
            else:
                es.append(x)
        return SymGrid(f(*es), SymGrid.join(g))

    shape = property(lambda s: tuple(1 if a == 1 else NLEN if a == 'i' else fn('len', s_.var('#' + a)) for a in s.ax))
    ndim = property(lambda s: len(s.ax))
    dtype = property(lambda s: np.dtype(bool) if isinstance(s.e, (bool, SymBool)) else np.dtype(float))
    T = property(lambda s: SymGrid(s.e, s.ax[::-1], s))
    real = property(lambda s: SymGrid(s_.re(s.e), s.ax))
    imag = property(lambda s: SymGrid(s_.im(s.e), s.ax))
    values = property(lambda s: s)

    @property
    def size(self):
        r = ONE
        for x in self.shape:
            r = r * x
        return r

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('%s of a generic grid' % n)

    def __len__(self): raise Unsupported('len() of a generic grid')
    def __iter__(self): raise Unsupported('iteration over a generic grid')
    def __bool__(self): raise ValueError('The truth value of an array with more than one element is ambiguous.')
    def __float__(self): raise TypeError('only length-1 arrays can be converted to Python scalars')
    def __repr__(self): return 'grid%r[%r]' % (self.ax, self.e)
    __hash__ = None

    def _b(self, f, o, r=False):
        if o is None or isinstance(o, str):
            return NotImplemented
        return SymGrid.apply(SCALAR[f], o, self) if r else SymGrid.apply(SCALAR[f], self, o)

    def _ip(self, f, o):
        nomap()
        x = self._b(f, o)
        if x.ax != self.ax:
            raise Unsupported('in-place operation that changes the shape')
        return self._put(x.e)

    def _put(self, e):
        b = self
        while b is not None:
            b.e, b = e, b.base
        return self

    def __neg__(s): return SymGrid(-S(s.e), s.ax)
    def __pos__(s): return SymGrid(s.e, s.ax)
    def __abs__(s): return SymGrid(s_.fabs(s.e), s.ax)
    def __invert__(s): return SymGrid(bnot(B(s.e)), s.ax)

    def __getitem__(s, k):
        k = k if isinstance(k, tuple) else (k,)
        if any(x is Ellipsis for x in k):
            i = [x is Ellipsis for x in k].index(True)
            k = k[:i] + (slice(None),) * (s.ndim - builtins.sum(x is not None for x in k) + 1) + k[i + 1:]
        out, ax = [], list(s.ax)
        for x in k:
            if x is None:
                out.append(1)
            elif isinstance(x, slice) and x == slice(None) and ax:
                out.append(ax.pop(0))
            elif isinstance(x, int) and x in (0, -1) and ax and ax[0] == 1:
                ax.pop(0)
            else:
                raise Unsupported('index %r into a generic grid' % (x,))
        return SymGrid(s.e, out + ax, s)

    def __setitem__(s, k, v):
        nomap()
        if isinstance(k, SymGrid) and k.ax == s.ax and not (isinstance(v, (SymVec, SymGrid, list, tuple)) or isinstance(v, np.ndarray) and v.ndim):
            s._put(ite(B(k.e), v if isinstance(v, (Sym, SymBool)) else S(v), s.e))
        elif (k is Ellipsis or isinstance(k, slice) and k == slice(None)) and (not isinstance(v, SymGrid) or SymGrid.join([s, v]) == s.ax):
            s._put(v.e if isinstance(v, SymGrid) else S(v))
        else:
            raise Unsupported('store into a generic grid')

    def copy(s, *a, **k): return SymGrid(s.e, s.ax)
    flatten = ravel = lambda s, *a: s if s.ndim == 1 else s.__getattr__('ravel')
    def astype(s, t=None, **k):
        if _intdtype(t):
            raise Unsupported('astype(int)')
        return SymGrid(s.e, s.ax)

    def reshape(s, *a, **k):
        a = a[0] if len(a) == 1 and isinstance(a[0], tuple) else a
        if s.ndim == 1 and a == (-1,):
            return SymGrid(s.e, s.ax, s)
        if s.ndim == 1 and a in ((-1, 1), (1, -1)):
            return s[:, None] if a[1] == 1 else s[None, :]
        raise Unsupported('reshape')

    def _agg(s, axis, f):
        if axis is not None or [a for a in s.ax if a != 1] != ['i']:
            raise Unsupported('aggregate of a generic grid')
        noquant()
        return f(s.e)
    def sum(s, axis=None, **k): return s._agg(axis, lambda e: fn('Sum', S(e)))
    def mean(s, axis=None, **k): return s._agg(axis, lambda e: fn('Sum', S(e)) / NLEN)
    def min(s, axis=None, **k): return s._agg(axis, lambda e: fn('Min', e))
    def max(s, axis=None, **k): return s._agg(axis, lambda e: fn('Max', e))
    def any(s, *a, **k):
        if a or k:
            raise Unsupported('any(axis)')
        return _quant(s, True)
    def all(s, *a, **k):
        if a or k:
            raise Unsupported('all(axis)')
        return _quant(s, False)
    def clip(s, lo=None, hi=None): return np_clip(s, lo, hi)
    def __copy__(s): return SymGrid(s.e, s.ax)
    def __deepcopy__(s, memo): return SymGrid(s.e, s.ax)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported('conversion of a generic grid to ndarray')


def _gridops():
    for op, f in dict(add='add', sub='subtract', mul='multiply', truediv='divide', pow='power', lt='less', le='less_equal', gt='greater', ge='greater_equal', eq='equal',
                      ne='not_equal', **{'and': 'logical_and', 'or': 'logical_or'}).items():
        setattr(SymGrid, '__%s__' % op, lambda s, o, f=f: s._b(f, o))
        if op in ('add', 'sub', 'mul', 'truediv', 'pow', 'and', 'or'):
            setattr(SymGrid, '__r%s__' % op, lambda s, o, f=f: s._b(f, o, True))
            setattr(SymGrid, '__i%s__' % op, lambda s, o, f=f: s._ip(f, o))


_gridops()


# ----------------------------------------------------------------------------- fixed-shape arrays
class SObj(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, args, kwargs)

    def astype(self, t=None, *a, **k):
        if _intdtype(t):
            if all(x.op == 'c' for x in self.view(np.ndarray).ravel()):
                return np.vectorize(lambda x: int(x.val), otypes=[int])(self.view(np.ndarray))
            raise Unsupported('astype(int)')
        return self.copy()

    def mean(self, axis=None, **k):
        n = self.size if axis is None else self.shape[axis]
        return self.sum(axis=axis) / n

    def sum(self, axis=None, **k):
        return wrap(np.add.reduce(self.view(np.ndarray), axis=axis))

    def prod(self, axis=None, **k):
        return wrap(np.multiply.reduce(self.view(np.ndarray), axis=axis))

    def min(self, axis=None, **k): return _fold('minimum', self, axis)
    def max(self, axis=None, **k): return _fold('maximum', self, axis)
    def any(self, axis=None, **k): return bool(functools.reduce(bor, [B(x) for x in self.view(np.ndarray).ravel()], False))
    def all(self, axis=None, **k): return bool(functools.reduce(band, [B(x) for x in self.view(np.ndarray).ravel()], True))
    def dot(self, o): return dot(self, o)
    def round(self, *a, **k): raise Unsupported('round')
    @property
    def real(self): return smap(s_.re, self)
    @property
    def imag(self): return smap(s_.im, self)
    def conj(self): return smap(s_.conj, self)
    def __setitem__(self, k, v):
        if isinstance(k, SObj):
            k = tobool(k)
        if isinstance(v, (list, tuple)):
            v = mkarr(v)
        elif lift(v) is not None and not isinstance(v, np.ndarray):
            v = S(v)
        np.ndarray.__setitem__(self, k, v)
    def __getitem__(self, k):
        if isinstance(k, SObj):
            k = tobool(k)
        return np.ndarray.__getitem__(self, k)
    def __float__(self): raise Unsupported('float() of symbolic array')


def tobool(k):
    r = np.empty(k.shape, dtype=bool)
    f = k.view(np.ndarray)
    for i in np.ndindex(*k.shape):
        x = f[i]
        if isinstance(x, Sym):
            if x.op == 'c':
                raise Unsupported('integer index array')
            raise Unsupported('symbolic index array')
        r[i] = bool(x)
    return r


def _fold(name, a, axis):
    f = SCALAR[name]
    v = a.view(np.ndarray)
    if axis is None:
        return functools.reduce(f, list(v.ravel()))
    return wrap(functools.reduce(lambda x, y: np.frompyfunc(f, 2, 1)(x, y), [np.take(v, i, axis) for i in range(v.shape[axis])]))


def smap(f, a):
    v = a.view(np.ndarray)
    r = np.empty(v.shape, dtype=object)
    for i in np.ndindex(*v.shape):
        r[i] = f(v[i])
    return wrap(r)


def wrap(x):
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return x[()]
        if x.dtype == object:
            return x.view(SObj)
    return x


def mkarr(x, copy=True):
    """nested lists/arrays/scalars -> SObj (elements lifted)"""
    if isinstance(x, SObj):
        return x.copy() if copy else x
    if isinstance(x, (SymVec, SymMat, SymEdges, SymGrid)):
        return x.copy() if copy else x
    if isinstance(x, (list, tuple)):
        items = [mkarr(y) for y in x]
        if items and all(type(i) is SymVec for i in items):
            return SymMat([S(i.e) for i in items])
        if any(isinstance(i, SymVec) for i in items):
            raise Unsupported('array of generic vectors')
        if not items:
            return np.empty((0,), dtype=object).view(SObj)
        shp = items[0].shape
        if any(i.shape != shp for i in items):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        r = np.empty((len(items),) + shp, dtype=object)
        for n, i in enumerate(items):
            r[n] = i.view(np.ndarray) if shp else i[()]
        return r.view(SObj)
    if isinstance(x, np.ndarray):
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            v = x[i]
            r[i] = v if isinstance(v, (SymBool, Sym)) else (v if isinstance(v, (str, type(None))) else S(v))
        return r.view(SObj)
    r = np.empty((), dtype=object)
    if x is None or isinstance(x, str):
        r[()] = x
    else:
        v = x if isinstance(x, (SymBool, Sym)) else lift(x)
        if v is None:
            raise Unsupported('array of %r' % type(x))
        r[()] = v
    return r.view(SObj)


def _intdtype(t):
    """integers, and floats of less than double precision"""
    if t is None or isinstance(t, type) and t in (bool, float, complex):
        return False
    try:
        d = np.dtype(t)
        return np.issubdtype(d, np.integer) or d.kind == 'f' and d.itemsize < 8 or d.kind == 'c' and d.itemsize < 16
    except TypeError:
        return t is int


# ----------------------------------------------------------------------------- ufunc/function protocols
def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if kw.pop('where', True) is not True:
        raise Unsupported('ufunc where=')
    if _intdtype(kw.pop('dtype', None)):
        raise Unsupported('integer or single-precision arithmetic')
    kw.pop('casting', None)
    if any(isinstance(i, SymGrid) for i in inputs):
        f = SCALAR.get(name)
        if method != '__call__' or f is None or out is not None:
            raise Unsupported('ufunc %s on a generic grid' % name)
        return SymGrid.apply(f, *inputs)
    if method == 'reduce':
        x = inputs[0]
        if isinstance(x, SymVec):
            if name == 'add':
                return vsum(x)
            raise Unsupported('reduce ' + name)
        x = mkarr(x, copy=False).view(np.ndarray)
        axis = kw.get('axis', 0)
        if name in ('add', 'multiply'):
            return wrap(ufunc.reduce(x, axis=axis))
        if name in ('maximum', 'minimum'):
            return _fold(name, x.view(SObj), axis)
        if name in ('logical_and', 'logical_or'):
            return getattr(x.view(SObj), 'all' if name.endswith('and') else 'any')()
        raise Unsupported('reduce ' + name)
    if method == 'outer':
        a, b = mkarr(inputs[0]), mkarr(inputs[1])
        return array_ufunc(ufunc, '__call__', (a.reshape(a.shape + (1,) * b.ndim), b), {})
    if method == 'accumulate':
        return wrap(ufunc.accumulate(mkarr(inputs[0]).view(np.ndarray), **kw))
    if method != '__call__':
        raise Unsupported('ufunc method ' + method)
    if name == 'matmul':
        return dot(*inputs)
    f = SCALAR.get(name)
    if f is None:
        raise Unsupported('ufunc ' + name)
    if any(isinstance(i, SymVec) for i in inputs):
        filt = [i for i in inputs if isinstance(i, SymFilt)]
        if filt and any(isinstance(i, SymVec) and not (isinstance(i, SymFilt) and i.m is filt[0].m) for i in inputs):
            raise Unsupported('mixed filtered vectors')
        ins = []
        for i in inputs:
            if isinstance(i, SymVec):
                ins.append(i.e)
            elif isinstance(i, np.ndarray):
                if i.size != 1:
                    raise Unsupported('generic vector with a fixed-size array')
                ins.append(i.reshape(-1)[0])
            elif isinstance(i, (list, tuple)):
                raise Unsupported('generic vector with a list')
            else:
                ins.append(i)
        e = f(*ins)
        if out is not None:
            o = out[0]
            if isinstance(o, SymVec):
                o.e = e
                return o
            raise Unsupported('out=')
        return SymFilt(e, filt[0].m) if filt else SymVec(e)
    ins = [np.asarray(mkarr(i, copy=False).view(np.ndarray)) if isinstance(i, (np.ndarray, list, tuple)) else i for i in inputs]
    if any(isinstance(i, np.ndarray) and i.ndim for i in ins):
        arrs = []
        for i in ins:
            if not isinstance(i, np.ndarray):
                z = np.empty((), dtype=object)
                z[()] = i
                i = z
            arrs.append(i)
        bs = np.broadcast_arrays(*arrs)
        r = np.empty(bs[0].shape, dtype=object)
        for k in np.ndindex(*r.shape):
            r[k] = f(*[b[k] for b in bs])
        if name in ('less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
                    'logical_not', 'invert', 'isnan', 'isfinite', 'isinf') and all(isinstance(x, bool) for x in r.ravel()):
            r = r.astype(bool)
        if out is not None:
            o = out[0]
            if not isinstance(o, SObj):
                raise Unsupported('in-place update of a machine array with symbolic values')
            o[...] = r
            return o
        return r.view(SObj) if r.dtype == object else r
    ins = [i[()] if isinstance(i, np.ndarray) else i for i in ins]
    r = f(*ins)
    if out is not None:
        o = out[0]
        if isinstance(o, SObj):
            o[...] = r
            return o
        raise Unsupported('out=')
    return r


def array_function(func, args, kwargs):
    h = HANDLERS.get(func.__name__)
    if h is None:
        mod = getattr(func, '__module__', '') or ''
        h = HANDLERS.get(('linalg.' if 'linalg' in mod else '') + func.__name__)
    if h is None:
        raise Unsupported('numpy function ' + func.__name__)
    return h(*args, **kwargs)


# ----------------------------------------------------------------------------- handlers
HANDLERS = {}


def handler(*names):
    def deco(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return deco


def _shape(sh):
    if isinstance(sh, (list, tuple)):
        sh = tuple(sh)
        if any(x is NLEN for x in sh):
            if len(sh) == 1:
                return NLEN
            raise Unsupported('2-d array with a generic axis')
        return tuple(operator.index(x) for x in sh)
    if sh is NLEN:
        return NLEN
    return (operator.index(sh),)


def _filled(sh, v, dtype=None):
    sh = _shape(sh)
    if _intdtype(dtype):
        raise Unsupported('array of integers or of single precision')
    if isinstance(dtype, type) and dtype is bool or dtype is np.bool_ or getattr(dtype, '_isbool', False):
        v = bool(v) if not isinstance(v, Sym) else bool(v.val)
    else:
        v = v if isinstance(v, (Sym, SymBool)) else S(v)
    if sh is NLEN:
        return SymVec(v)
    r = np.empty(sh, dtype=object)
    r[...] = v
    return r.view(SObj)


@handler('array')
def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if _intdtype(dtype) and deep_sym(x):
        raise Unsupported('array(dtype=int)')
    if isinstance(x, (builtins.range,)):
        x = list(x)
    if isinstance(x, types.GeneratorType):
        raise Unsupported('array of generator')
    if not _numeric(x):
        return np.array(x, dtype=dtype)
    r = mkarr(x)
    while isinstance(r, np.ndarray) and r.ndim < ndmin:
        r = r.reshape((1,) + r.shape)
    return r


def _numeric(x):
    if isinstance(x, (list, tuple)):
        return all(_numeric(y) for y in x)
    if isinstance(x, np.ndarray):
        return x.dtype.kind in 'biufcO'
    return is_sym(x) or lift(x) is not None or x is None and False


@handler('asarray', 'asanyarray', 'ascontiguousarray', 'asfarray')
def np_asarray(x, dtype=None, **k):
    if isinstance(x, (SymVec, SObj, SymMat, SymEdges, SymGrid)):
        if _intdtype(dtype):
            raise Unsupported('asarray(dtype=int)')
        return x
    if hasattr(x, 'to_numpy'):
        return x.to_numpy()
    return np_array(x, dtype)


@handler('copy')
def np_copy(x, **k): return mkarr(x)


@handler('atleast_1d')
def np_atleast_1d(*xs):
    r = []
    for x in xs:
        x = np_asarray(x)
        r.append(x.reshape(1) if isinstance(x, np.ndarray) and x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


@handler('atleast_2d')
def np_atleast_2d(x):
    x = np_asarray(x)
    if isinstance(x, SymVec):
        raise Unsupported('atleast_2d')
    return x.reshape((1,) * (2 - x.ndim) + x.shape) if x.ndim < 2 else x


handler('zeros')(lambda shape, dtype=None, **k: _filled(shape, 0, dtype))
handler('empty')(lambda shape, dtype=None, **k: _filled(shape, NAN if dtype is not bool else 0, dtype))
handler('ones')(lambda shape, dtype=None, **k: _filled(shape, 1, dtype))
handler('full')(lambda shape, fill_value, dtype=None, **k: _filled(shape, fill_value, dtype))


def _like(x, v, dtype=None, shape=None):
    if isinstance(x, SymGrid):
        return SymGrid(_filled((), v, dtype)[()], x.ax)
    if isinstance(x, SymVec):
        return _filled(NLEN, v, dtype)
    if is_sym(x) and not isinstance(x, SObj):
        return _filled((), v, dtype)
    return _filled(np.shape(mkarr(x)), v, dtype)


handler('zeros_like')(lambda a, dtype=None, **k: _like(a, 0, dtype))
handler('empty_like')(lambda a, dtype=None, **k: _like(a, NAN, dtype))
handler('ones_like')(lambda a, dtype=None, **k: _like(a, 1, dtype))
handler('full_like')(lambda a, fill_value, dtype=None, **k: _like(a, fill_value, dtype))


@handler('eye', 'identity')
def np_eye(n, m=None, k=0, dtype=None, **kw): return mkarr(np.eye(operator.index(n), m, k))


LINSPACE = [None]       # contracts over a whole grid install the generic grid point here


@handler('linspace')
def np_linspace(start, stop, num=50, endpoint=True, **k):
    num = operator.index(num)
    start, stop = S(start), S(stop)
    if LINSPACE[0] is not None:
        return LINSPACE[0](start, stop, num, endpoint)
    d = num - 1 if endpoint else num
    r = np.empty(num, dtype=object)
    for i in range(num):
        r[i] = start + (stop - start) * Fraction(i, d) if d else start
    return r.view(SObj)


@handler('arange')
def np_arange(*a, **k):
    if all(isinstance(x, int) for x in a):
        return np.arange(*a, **k)
    a = [S(x) for x in a]
    if any(x.op != 'c' for x in a):
        raise Unsupported('arange')
    st, en, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else a
    n = max(0, math.ceil((en.val - st.val) / step.val))
    return mkarr([const(st.val + i * step.val) for i in range(n)])


@handler('dot', 'matmul', 'inner', 'vdot')
def np_dot(a, b, **k):
    if isinstance(a, (list, tuple)):
        a = mkarr(a)
    if isinstance(b, (list, tuple)):
        b = mkarr(b)
    return dot(a, b)


@handler('sum', 'nansum')
def np_sum(x, axis=None, **k):
    if isinstance(x, SymMat):
        return x.sum(axis)
    if isinstance(x, SymVec):
        return vsum(x)
    if isinstance(x, SymGrid):
        return x.sum(axis)
    x = mkarr(x, copy=False)
    return x.sum(axis=axis)


@handler('prod')
def np_prod(x, axis=None, **k):
    x = mkarr(x, copy=False)
    if isinstance(x, SymVec):
        raise Unsupported('prod')
    return x.prod(axis=axis)


@handler('mean', 'average', 'nanmean')
def np_mean(x, axis=None, weights=None, **k):
    if weights is not None:
        return np_sum(np_asarray(x) * np_asarray(weights)) / np_sum(weights)
    if isinstance(x, SymVec):
        return x.mean()
    if isinstance(x, SymGrid):
        return x.mean(axis)
    return mkarr(x).mean(axis=axis)


@handler('max', 'amax', 'nanmax')
def np_max(x, axis=None, **k):
    x = mkarr(x, copy=False)
    return x.max() if isinstance(x, SymVec) else x.max(axis=axis)


@handler('min', 'amin', 'nanmin')
def np_min(x, axis=None, **k):
    x = mkarr(x, copy=False)
    return x.min() if isinstance(x, SymVec) else x.min(axis=axis)


@handler('ptp')
def np_ptp(x, axis=None, **k):
    return np_max(x, axis) - np_min(x, axis)


@handler('any')
def np_any(x, axis=None, **k):
    if isinstance(x, SymGrid):
        return x.any(*(() if axis is None else (axis,)))
    if isinstance(x, SymVec):
        return _quant(x, True)
    if isinstance(x, (Sym, SymBool)):
        return B(x)
    return mkarr(x).any()


@handler('all')
def np_all(x, axis=None, **k):
    if isinstance(x, SymGrid):
        return x.all(*(() if axis is None else (axis,)))
    if isinstance(x, SymVec):
        return _quant(x, False)
    if isinstance(x, (Sym, SymBool)):
        return B(x)
    return mkarr(x).all()


def _where3(c, a, b):
    if any(isinstance(z, SymGrid) for z in (c, a, b)):
        return SymGrid.apply(lambda x, y, z: ite(B(x), *[t if isinstance(t, (Sym, SymBool)) else S(t) for t in (y, z)]), c, a, b)
    if any(isinstance(z, SymVec) for z in (c, a, b)):
        z = []
        for i in (c, a, b):
            if isinstance(i, SymFilt):
                raise Unsupported('where on filtered')
            if isinstance(i, SymVec):
                z.append(i.e)
            elif isinstance(i, np.ndarray) and i.size == 1:
                z.append(i.reshape(-1)[0])
            elif isinstance(i, (list, tuple, np.ndarray)):
                raise Unsupported('where with fixed arrays')
            else:
                z.append(i)
        e = ite(B(z[0]), z[1] if isinstance(z[1], (Sym, SymBool)) else S(z[1]), z[2] if isinstance(z[2], (Sym, SymBool)) else S(z[2]))
        return SymVec(e)
    cs, aa, bb = [mkarr(z, copy=False).view(np.ndarray) for z in (c, a, b)]
    cs, aa, bb = np.broadcast_arrays(cs, aa, bb)
    r = np.empty(cs.shape, dtype=object)
    for k in np.ndindex(*r.shape):
        r[k] = ite(B(cs[k]), aa[k], bb[k])
    # numpy.where gives a 0-d array for scalars
    return r.view(SObj)


@handler('where')
def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where(cond)')
    return _where3(c, a, b)


@handler('select')
def np_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = _where3(c, v, r)
    return r


@handler('piecewise')
def np_piecewise(x, condlist, funclist, *args, **kw):
    if len(funclist) == len(condlist) + 1:
        r = funclist[-1]
        r = r(x, *args, **kw) if callable(r) else r
        funclist = funclist[:-1]
    else:
        r = 0
    # later conditions win
    for c, v in zip(condlist, funclist):
        r = _where3(c, v(x, *args, **kw) if callable(v) else v, r)
    return r


@handler('clip')
def np_clip(x, a_min=None, a_max=None, **k):
    a_min = k.get('min', a_min)
    a_max = k.get('max', a_max)
    if a_min is not None:
        x = NP.maximum(x, a_min)
    if a_max is not None:
        x = NP.minimum(x, a_max)
    return x


@handler('real')
def np_real(x): return x.real if is_sym(x) else np.real(x)


@handler('imag')
def np_imag(x): return x.imag if is_sym(x) else np.imag(x)


@handler('real_if_close')
def np_ric(x, tol=100): return x


@handler('isscalar')
def np_isscalar(x): return isinstance(x, Sym) or np.isscalar(x)


@handler('ndim')
def np_ndim(x):
    if isinstance(x, (Sym, SymBool)):
        return 0
    if isinstance(x, SymVec):
        return 1
    return mkarr(x).ndim if deep_sym(x) else np.ndim(x)


@handler('shape')
def np_shape(x):
    if isinstance(x, (SymVec, Sym, SymBool)):
        return x.shape
    return mkarr(x).shape if deep_sym(x) else np.shape(x)


@handler('size')
def np_size(x, axis=None):
    if isinstance(x, (SymVec, Sym, SymBool)):
        return x.size
    return mkarr(x).size if deep_sym(x) else np.size(x)


def _cat(f):
    def g(xs, *a, **k):
        k.pop('dtype', None)
        xs = [mkarr(x, copy=False) for x in xs]
        if f in (np.vstack, np.column_stack, np.stack) and xs and all(type(x) is SymVec for x in xs):
            ax = a[0] if a else k.get('axis', 0)
            return SymMat([S(x.e) for x in xs], tr=(f is np.column_stack) or (f is np.stack and ax in (1, -1)))
        if any(isinstance(x, SymVec) for x in xs):
            raise Unsupported(f.__name__ + ' of generic vectors')
        return wrap(f([x.view(np.ndarray) for x in xs], *a, **k))
    return g


for _f in (np.vstack, np.hstack, np.concatenate, np.stack, np.column_stack, np.dstack):
    handler(_f.__name__)(_cat(_f))


def _pass(f):
    def g(x, *a, **k):
        if isinstance(x, SymGrid):
            if f is np.expand_dims and a in ((0,), (1,), (-1,)) and x.ndim == 1:
                return x[None, :] if a == (0,) else x[:, None]
            if f is np.transpose and not a and not k:
                return x.T
            raise Unsupported(f.__name__ + ' of a generic grid')
        if isinstance(x, SymEdges) and f is np.diff and not a and not k:
            return SymVec(x.th)
        if isinstance(x, SymVec):
            raise Unsupported(f.__name__ + ' of a generic vector')
        if any(isinstance(y, SymVec) for y in a):
            raise Unsupported(f.__name__ + ' with a generic vector')
        a = [mkarr(y, copy=False).view(np.ndarray) if deep_sym(y) else y for y in a]
        return wrap(f(mkarr(x, copy=False).view(np.ndarray), *a, **k))
    return g


@handler('block')
def np_block(x):
    def plain(y):
        if isinstance(y, list):
            return [plain(z) for z in y]
        if isinstance(y, SymVec):
            raise Unsupported('block of a generic vector')
        return mkarr(y, copy=False).view(np.ndarray)
    return wrap(np.block(plain(x)))


@handler('meshgrid')
def np_meshgrid(*xs, **k):
    if any(isinstance(x, SymGrid) for x in xs):
        if len(xs) != 2 or k.get('indexing', 'xy') not in ('xy', 'ij') or any(not isinstance(x, SymGrid) or x.ndim != 1 for x in xs) or k.pop('sparse', False):
            raise Unsupported('meshgrid')
        ax = (xs[1].ax + xs[0].ax) if k.get('indexing', 'xy') == 'xy' else xs[0].ax + xs[1].ax
        return SymGrid(xs[0].e, ax), SymGrid(xs[1].e, ax)
    if any(isinstance(x, SymVec) for x in xs):
        raise Unsupported('meshgrid of generic vectors')
    return tuple(wrap(y) for y in np.meshgrid(*[mkarr(x, copy=False).view(np.ndarray) for x in xs], **k))


for _f in (np.transpose, np.diag, np.flip, np.fliplr, np.flipud, np.swapaxes, np.moveaxis, np.reshape, np.ravel,
           np.squeeze, np.expand_dims, np.tile, np.repeat, np.roll, np.diff, np.cumsum, np.cumprod, np.trace, np.triu,
           np.tril, np.rollaxis, np.delete, np.take, np.append, np.insert, np.rot90, np.diagonal, np.atleast_3d):
    handler(_f.__name__)(_pass(_f))


@handler('squeeze')
def np_squeeze(x, *a, **k):
    if isinstance(x, SymGrid):
        raise Unsupported('squeeze of a generic grid')
    if isinstance(x, (SymVec, Sym)):
        return x
    return wrap(np.squeeze(mkarr(x, copy=False).view(np.ndarray), *a, **k))


@handler('ravel')
def np_ravel(x, *a, **k):
    if isinstance(x, SymVec):
        return x
    return wrap(np.ravel(mkarr(x, copy=False).view(np.ndarray)))


@handler('fill_diagonal')
def np_fill_diagonal(a, v):
    for i in range(min(a.shape)):
        a[i, i] = v


@handler('outer')
def np_outer(a, b, **k):
    a, b = mkarr(a), mkarr(b)
    return dot(a.reshape(-1, 1), b.reshape(1, -1))


@handler('einsum')
def np_einsum(spec, *ops, **k):
    ops = [mkarr(o) for o in ops]
    if any(isinstance(o, SymVec) for o in ops):
        lhs = spec.replace(' ', '')
        if lhs in ('i,i->', 'i,i'):
            return dot(*ops)
        raise Unsupported('einsum')
    return wrap(np.einsum(spec, *[o.view(np.ndarray) for o in ops], optimize=False)) if False else _einsum(spec, ops)


def _einsum(spec, ops):
    import itertools
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        al = ''.join(sorted(set(ins.replace(',', ''))))
        out = ''.join(c for c in al if ins.count(c) == 1)
    if '.' in spec:
        raise Unsupported('einsum ellipsis')
    terms = ins.split(',')
    dim = {}
    for t, o in zip(terms, ops):
        for c, n in zip(t, o.shape):
            dim[c] = n
    summed = [c for c in dim if c not in out]
    r = np.empty(tuple(dim[c] for c in out), dtype=object)
    for oi in np.ndindex(*r.shape):
        env = dict(zip(out, oi))
        acc = ZERO
        for si in itertools.product(*[range(dim[c]) for c in summed]):
            env.update(zip(summed, si))
            p = ONE
            for t, o in zip(terms, ops):
                p = p * o.view(np.ndarray)[tuple(env[c] for c in t)]
            acc = acc + p
        r[oi] = acc
    return wrap(r)


def _iszero(x):
    return x.op == 'c' and x.val == 0


def _det(m):
    n = len(m)
    if n == 1:
        return m[0][0]
    # expand along the sparsest row
    r = max(range(n), key=lambda i: sum(_iszero(x) for x in m[i]))
    acc = ZERO
    for j in range(n):
        if _iszero(m[r][j]):
            continue
        sub = [[m[a][b] for b in range(n) if b != j] for a in range(n) if a != r]
        d = _det(sub)
        if _iszero(d):
            continue
        t = m[r][j] * d
        acc = acc + t if (r + j) % 2 == 0 else acc - t
    return acc


INVERSE = [None]


@handler('linalg.inv', 'inv')
def np_inv(a):
    a = mkarr(a)
    if isinstance(a, SymVec) or a.ndim != 2:
        raise Unsupported('inv')
    n = a.shape[0]
    m = [[a.view(np.ndarray)[i, j] for j in range(n)] for i in range(n)]
    # split into connected blocks so that block-diagonal matrices stay small
    comp = list(range(n))

    def find(i):
        while comp[i] != i:
            i = comp[i]
        return i
    for i in range(n):
        for j in range(n):
            if not _iszero(m[i][j]):
                comp[find(i)] = find(j)
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), []).append(i)
    r = np.empty((n, n), dtype=object)
    r[...] = ZERO
    for g in groups.values():
        if len(g) > 4:
            x = INVERSE[0](m) if INVERSE[0] else None          # assumed contract of the dense inverse
            if x is not None:
                return x
            raise Unsupported('inverse of a dense %dx%d matrix' % (len(g), len(g)))
        d = _det([[m[i][j] for j in g] for i in g])
        if _iszero(d):
            raise np.linalg.LinAlgError('Singular matrix')
        for x, i in enumerate(g):
            for y, j in enumerate(g):
                minor = [[m[p][q] for q in g if q != i] for p in g if p != j]
                c = _det(minor) if minor else ONE
                if (x + y) % 2:
                    c = -c
                r[i, j] = c / d
    return r.view(SObj)


inverse = np_inv


@handler('roots')
def np_roots(c):
    """assumed contract of numpy.roots for a cubic x^3 + p x - q with p >= 0 < q: one positive real root r and the pair
    -r/2 +- i s"""
    from . import explore, smt
    c = [S(x) for x in mkarr(c).view(np.ndarray).ravel()] if not isinstance(c, SymVec) else None
    if c is None or len(c) != 4 or not _iszero(c[1]):
        raise Unsupported('numpy.roots of this polynomial')
    p, q = c[2] / c[0], -(c[3] / c[0])
    cur = explore.current()
    hyp = cur.dom.pre + cur.pc
    if not smt.prove(hyp, s_.le(ZERO, p), 2000) or not smt.prove(hyp, s_.lt(ZERO, q), 2000):
        raise Unsupported('numpy.roots: sign of the coefficients not established')
    r = s_.fn('posroot', p, q)
    explore.assume(s_.lt(ZERO, r))
    a = np.empty(3, dtype=object)
    a[0], a[1], a[2] = r, -r / 2 + s_.I * s_.fn('posim', p, q), -r / 2 - s_.I * s_.fn('posim', p, q)
    return a.view(SObj)


@handler('linalg.det', 'det')
def np_det(a):
    a = mkarr(a).view(np.ndarray)
    return _det([list(x) for x in a])


@handler('linalg.solve', 'solve')
def np_solve(a, b):
    return dot(np_inv(a), mkarr(b))


@handler('linalg.norm', 'norm')
def np_norm(a, *r, **k):
    if r or k:
        raise Unsupported('norm')
    a = mkarr(a)
    return vsum(a * a).sqrt() if isinstance(a, SymVec) else (a * a).sum().sqrt()


@handler('nan_to_num')
def np_n2n(x, **k): return x


@handler('isclose')
def np_isclose(a, b, rtol=1e-05, atol=1e-08, **k):
    d = NP.abs(a - b)
    return d <= atol + rtol * NP.abs(b)


@handler('allclose')
def np_allclose(*a, **k): return np_all(np_isclose(*a, **k))


@handler('array_equal')
def np_array_equal(a, b): return np_all(NP.equal(a, b))


@handler('isreal')
def np_isreal(a): raise Unsupported('isreal')


@handler('interp')
def np_interp(*a, **k): raise Unsupported('interp')


@handler('broadcast_to')
def np_broadcast_to(x, shape, **k):
    if isinstance(x, SymVec):
        return x
    return _filled(shape, x) if isinstance(x, Sym) else wrap(np.broadcast_to(mkarr(x).view(np.ndarray), _shape(shape)))


@handler('broadcast_arrays')
def np_broadcast_arrays(*xs, **k):
    if any(isinstance(x, SymVec) for x in xs):
        out = []
        for x in xs:
            if isinstance(x, SymVec):
                out.append(x)
            elif lift(x) is not None or isinstance(x, np.ndarray) and x.size == 1:
                out.append(SymVec(S(x if not isinstance(x, np.ndarray) else x.reshape(-1)[0])))
            else:
                raise Unsupported('broadcast')
        return tuple(out)
    return tuple(wrap2(b) for b in np.broadcast_arrays(*[mkarr(x).view(np.ndarray) for x in xs]))


def wrap2(x):
    return x.copy().view(SObj)


@handler('iscomplexobj')
def np_iscomplexobj(x):
    return any(s_.has_I(y) for y in mkarr(x).view(np.ndarray).ravel()) if not isinstance(x, SymVec) else s_.has_I(x.e)


@handler('polyval')
def np_polyval(p, x):
    r = ZERO
    for c in (mkarr(p).view(np.ndarray) if not isinstance(p, (list, tuple)) else p):
        r = r * x + c
    return r


# ----------------------------------------------------------------------------- the numpy front
class _MetaAny(type):
    def __instancecheck__(cls, x): return cls._chk(x)
    def __subclasscheck__(cls, c): return issubclass(c, cls._real)
    def __eq__(cls, o): return o is cls or o is cls._real
    def __hash__(cls): return hash(cls._real)


class NdArray(metaclass=_MetaAny):
    _real = np.ndarray

    @staticmethod
    def _chk(x): return isinstance(x, (np.ndarray, SymVec, SymGrid))


def _numtype(real, chk):
    class T(metaclass=_MetaAny):
        _real = real

        def __new__(cls, x=0):
            if isinstance(x, (Sym, SymVec, SObj, SymGrid)):
                return x
            return real(x)
        _chk = staticmethod(chk)
    T.__name__ = real.__name__
    return T


NpFloat = _numtype(np.float64, lambda x: isinstance(x, (np.float64, Sym)))


class VFloat(metaclass=_MetaAny):
    """builtin float: a symbolic scalar counts as a float"""
    _real = float
    _chk = staticmethod(lambda x: isinstance(x, (float, Sym)))

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SObj) and x.size == 1:
            return x.view(np.ndarray).reshape(-1)[0]
        if isinstance(x, SymVec):
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        return float(x)


VFloat.__name__ = 'float'


def _tr_dtype(k):
    d = k.get('dtype')
    if d in (VFloat, NpFloat):
        k = dict(k)
        k['dtype'] = float
    return k


class _Linalg:
    def __getattr__(self, n):
        real = getattr(np.linalg, n)
        h = HANDLERS.get('linalg.' + n)
        if h is None:
            return real

        def g(*a, **k):
            if deep_sym(list(a)):
                return h(*a, **k)
            return real(*a, **k)
        return g


ALWAYS = {'array', 'asarray', 'asanyarray', 'zeros', 'ones', 'empty', 'full', 'eye', 'identity', 'linspace', 'arange',
          'zeros_like', 'ones_like', 'empty_like', 'full_like', 'isscalar', 'atleast_1d'}


EFFECTS = []          # interpreter-wide settings written by the code under verification (the stand-ins below record, the engine's own settings stay)


def _setter(n, lib='numpy'):
    def g(*a, **k):
        EFFECTS.append('%s.%s(%s)' % (lib, n, ', '.join(['%s=%r' % x for x in k.items()] + [repr(x) for x in a])))
        return np.geterr() if n == 'seterr' else None
    return g


def _reader(n):
    def g(*a, **k):
        raise Unsupported('numpy.%s: the result would depend on an interpreter-wide setting' % n)
    return g


class _Random(types.ModuleType):
    """numpy.random: seeding is an effect on the interpreter, drawing has no contract"""
    def __init__(self): super().__init__('numpy.random')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('seed', 'set_state'):
            return _setter('random.' + n)

        def g(*a, **k):
            EFFECTS.append('numpy.random.' + n)
            raise Unsupported('numpy.random.' + n)
        return g


class NumpyProxy(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.pi = PI
        self.e = fn('exp', ONE)
        self.nan = self.NaN = self.NAN = NAN
        self.inf = s_.INF
        self.ndarray = NdArray
        self.float64 = self.float_ = self.double = NpFloat
        self.linalg = _Linalg()
        self.newaxis = None
        self._cache = {n: _setter(n) for n in ('seterr', 'seterrcall', 'set_printoptions', 'setbufsize')}
        self._cache['random'] = _Random()
        self._cache.update((n, _reader(n)) for n in ('geterr', 'geterrcall', 'get_printoptions', 'getbufsize'))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        c = self.__dict__['_cache']
        if n in c:
            return c[n]
        real = getattr(np, n)
        h = HANDLERS.get(n)
        if isinstance(real, np.ufunc):
            u = real
            if n in SCALAR or u.__name__ in SCALAR:
                def g(*a, **k):
                    k = _tr_dtype(k)
                    if deep_sym(list(a)) or any(lift(x) is not None for x in a):
                        return array_ufunc(u, '__call__', a, k)
                    return u(*a, **k)
                g.__name__ = n
                for m in ('reduce', 'accumulate', 'outer'):
                    setattr(g, m, getattr(u, m))
            else:
                g = u
        elif h is not None:
            if n in ALWAYS:
                def g(*a, **k):
                    if _intdtype(k.get('dtype')) and not deep_sym(list(a)):
                        return real(*a, **_tr_dtype(k))
                    return h(*a, **_tr_dtype(k))
            else:
                def g(*a, **k):
                    k = _tr_dtype(k)
                    if deep_sym(list(a)) or deep_sym(k):
                        return h(*a, **k)
                    return real(*a, **k)
            g.__name__ = n
        elif n == 'vectorize':
            g = SVectorize
        elif callable(real) and not isinstance(real, type):
            def g(*a, **k):
                k = _tr_dtype(k)
                if any(isinstance(x, (SymVec, Sym)) for x in a):
                    raise Unsupported('numpy.' + n)
                return real(*a, **k)
            g.__name__ = n
        else:
            g = real
        c[n] = g
        return g


class SVectorize:
    def __init__(self, f, *a, **k):
        self.f = f
        self.excl = k.get('excluded') or ()

    def __call__(self, *a, **k):
        if any(isinstance(x, SymVec) for x in a):
            ins = [x.e if isinstance(x, SymVec) else x for x in a]
            if any(isinstance(x, (np.ndarray, list, tuple)) for x in ins):
                raise Unsupported('vectorize')
            r = self.f(*ins, **k)
            return tuple(SymVec(x) for x in r) if isinstance(r, tuple) else SymVec(r)
        arrs = np.broadcast_arrays(*[mkarr(x).view(np.ndarray) for x in a])
        sh = arrs[0].shape
        outs = {}
        for i in np.ndindex(*sh):
            outs[i] = self.f(*[x[i] for x in arrs], **k)
        first = next(iter(outs.values()))
        if isinstance(first, tuple):
            rs = [np.empty(sh, dtype=object) for _ in first]
            for i, v in outs.items():
                for r, x in zip(rs, v):
                    r[i] = S(x)
            return tuple(wrap(r) for r in rs)
        r = np.empty(sh, dtype=object)
        for i, v in outs.items():
            r[i] = S(v) if not isinstance(v, SymBool) else v
        return r.view(SObj)


NP = NumpyProxy()


# ----------------------------------------------------------------------------- math front
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.pi = PI
        self.e = fn('exp', ONE)
        self.nan = NAN
        self.inf = s_.INF

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        real = getattr(math, n)
        if not callable(real):
            return real
        m = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'acosh': 'arccosh', 'asinh': 'arcsinh',
             'fabs': 'absolute', 'atan2': 'arctan2', 'pow': 'power'}.get(n, n)

        def g(*a, **kw):
            if any(isinstance(x, SymVec) for x in a):
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            if n == 'isclose':
                a, b = a[:2]
                a, b, rel, ab = S(a), S(b), kw.get('rel_tol', 1e-9), kw.get('abs_tol', 0.0)
                d = s_.fabs(a - b)
                return bor(bor(d <= s_.fabs(a) * rel, d <= s_.fabs(b) * rel), d <= S(ab))
            if kw:
                raise Unsupported('math.' + n)
            if all(isinstance(x, (int, bool)) for x in a) and n in ('factorial', 'comb', 'gcd', 'floor', 'ceil', 'isnan'):
                return real(*a)
            if n == 'log' and len(a) == 2:
                return S(a[0]).log() / S(a[1]).log()
            if n == 'prod':
                return functools.reduce(operator.mul, list(a[0]), 1)
            if n == 'fsum':
                return sum(a[0])
            if n == 'hypot':
                return sum(S(x) * S(x) for x in a).sqrt()
            f = SCALAR.get(m)
            if f is None:
                raise Unsupported('math.' + n)
            return f(*[x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x for x in a])
        return g


MATH = MathShim()
