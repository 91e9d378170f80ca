"""Symbolic values: a hash-consed term DAG with operator overloading.

The real function bodies of /repo are executed by CPython over these values.  A scalar `Sym`
stands for an arbitrary real (or complex) number; `SymBool` for a condition on such numbers: when
CPython asks for its truth value, the path explorer (explore.py) decides/forks.
Machine floats that enter a term are read as exact reals (see `exact`).
"""
import math, operator
from fractions import Fraction


class Unsupported(Exception):
    """The code left the fragment the VC generator covers (not a verdict)."""


class PathAbort(BaseException):
    """current path is infeasible / budget spent"""


_PI = math.pi


def _close(a, b, ulps=4):
    return abs(a - b) <= ulps * max(math.ulp(a), math.ulp(b))


def exact(x):
    """Reading of a machine number as an exact real: returns (Fraction, power of pi)."""
    if isinstance(x, bool):
        return Fraction(int(x)), 0
    if isinstance(x, int):
        return Fraction(x), 0
    if isinstance(x, Fraction):
        return x, 0
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non-finite constant %r' % x)
    if x == int(x) if abs(x) < 2**53 else False:
        return Fraction(int(x)), 0
    d = Fraction(repr(x))
    if len(repr(x).replace('-', '').replace('.', '').lstrip('0').split('e')[0]) <= 12:
        return d, 0                      # a short decimal literal means itself
    q = Fraction(x).limit_denominator(2000)
    if q and _close(float(q), x):
        return q, 0
    for k in (1, -1, 2):
        y = x / _PI**k
        q = Fraction(y).limit_denominator(2000)
        if q and _close(float(q) * _PI**k, x):
            return q, k
    # products of short decimals may carry a rounding error: 0.7+0.1 -> 0.7999999999999999
    s = '%.14g' % x
    if len(s.replace('-', '').replace('.', '').lstrip('0').split('e')[0]) <= 11:
        return Fraction(s), 0
    return d, 0


_table = {}
_nid = [0]


class Expr:
    __slots__ = ('op', 'args', 'val', 'uid', '__weakref__')


def _mk(cls, op, args=(), val=None):
    key = (op, tuple(a.uid for a in args), val)
    n = _table.get(key)
    if n is None:
        n = object.__new__(cls)
        n.op = op
        n.args = args
        n.val = val
        _nid[0] += 1
        n.uid = _nid[0]
        _table[key] = n
    return n


class Digits(str):
    """text of a symbolic value: may be joined to other text and used as a label, not looked into"""
    __slots__ = ()
    def __add__(s, o): return Digits(str.__add__(s, o))
    def __radd__(s, o): return Digits(str.__add__(o, s))
    def __eq__(s, o): return str.__eq__(s, o)
    def __ne__(s, o): return str.__ne__(s, o)
    def __hash__(s): return str.__hash__(s)


def _peek(n):
    def g(*a, **k):
        raise Unsupported('text of a symbolic value: ' + n)
    return g


for _n in ('__getitem__ __len__ __contains__ __iter__ __lt__ __le__ __gt__ __ge__ startswith endswith find rfind index rindex count split rsplit replace '
           'strip lstrip rstrip partition rpartition encode isdigit isnumeric isdecimal splitlines translate upper lower casefold removeprefix '
           'removesuffix zfill ljust rjust center').split():
    setattr(Digits, _n, _peek(_n))


class Sym(Expr):
    __slots__ = ()
    __array_priority__ = 1000

    # --- arithmetic
    def __add__(s, o): return _bin(add, s, o)
    def __radd__(s, o): return _bin(add, o, s)
    def __sub__(s, o): return _bin(sub, s, o)
    def __rsub__(s, o): return _bin(sub, o, s)
    def __mul__(s, o): return _bin(mul, s, o)
    def __rmul__(s, o): return _bin(mul, o, s)
    def __truediv__(s, o): return _bin(div, s, o)
    def __rtruediv__(s, o): return _bin(div, o, s)
    def __pow__(s, o): return _bin(power, s, o)
    def __rpow__(s, o): return _bin(power, o, s)
    def __neg__(s): return mul(const(-1), s)
    def __pos__(s): return s
    def __abs__(s): return fabs(s)
    def __floordiv__(s, o): return _bin(_floordiv, s, o)
    def __rfloordiv__(s, o): return _bin(_floordiv, o, s)
    def __mod__(s, o): return _bin(_mod, s, o)
    def __rmod__(s, o): return _bin(_mod, o, s)

    # --- comparisons
    def __lt__(s, o): return _cmp('lt', s, o)
    def __le__(s, o): return _cmp('le', s, o)
    def __gt__(s, o): return _cmp('lt', o, s, True)
    def __ge__(s, o): return _cmp('le', o, s, True)

    def __eq__(s, o):
        if s is o:
            return True
        r = lift(o)
        if r is None:
            return NotImplemented if not isinstance(o, (str, bytes, tuple, list, dict)) and o is not None else False
        return eq(s, r)

    def __ne__(s, o):
        r = s.__eq__(o)
        if r is NotImplemented:
            return r
        return bnot(r) if isinstance(r, SymBool) else (not r)

    def __hash__(s):          # constant: dictionary lookups fork on key equality
        return 7

    def __bool__(s):
        r = eq(s, const(0))
        return not bool(r)

    # --- conversions
    def __float__(s):
        raise Unsupported('float() of a symbolic number')

    def __int__(s):
        if s.op == 'c' :
            return int(s.val)
        raise Unsupported('int() of a symbolic number')

    def __index__(s):
        if s.op == 'c' and s.val.denominator == 1:
            return int(s.val)
        raise Unsupported('symbolic index')

    def __round__(s, n=None):
        if s.op == 'c':
            return const(round(s.val, n)) if n is not None else int(round(s.val))
        raise Unsupported('round() of a symbolic number')

    def __complex__(s):
        raise Unsupported('complex() of symbolic')

    def __iter__(s):
        raise TypeError("'float' object is not iterable")

    def __len__(s):
        raise TypeError("object of type 'float' has no len()")

    def __getitem__(s, k):
        if k == () or k is Ellipsis:
            return s
        raise TypeError("'float' object is not subscriptable")

    def __repr__(s):
        return show(s)

    # the digits of a value are not part of the symbolic fragment: code of the package that looks at them is not decided
    def __str__(s):
        return show(s) if s.op == 'c' and s.val.denominator == 1 else Digits(show(s))

    def __format__(s, spec):
        import sys
        if '__vc_loop__' in sys._getframe(1).f_globals and not (s.op == 'c' and s.val.denominator == 1):
            raise Unsupported('text of a symbolic value')
        return format(show(s), spec)

    # --- numpy scalar look-alike API (object ufunc loops call these too)
    def sqrt(s): return power(s, const(Fraction(1, 2)))
    def cbrt(s): return power(s, const(Fraction(1, 3)))
    def sin(s): return fn('sin', s)
    def cos(s): return fn('cos', s)
    def tan(s): return fn('tan', s)
    def arcsin(s): return fn('arcsin', s)
    def arccos(s): return fn('arccos', s)
    def arctan(s): return fn('arctan', s)
    def arccosh(s): return fn('arccosh', s)
    def arcsinh(s): return fn('arcsinh', s)
    def cosh(s): return fn('cosh', s)
    def sinh(s): return fn('sinh', s)
    def tanh(s): return fn('tanh', s)
    def exp(s): return fn('exp', s)
    def log(s): return fn('log', s)
    def log10(s): return div(fn('log', s), fn('log', const(10)))
    def log2(s): return div(fn('log', s), fn('log', const(2)))
    def log1p(s): return fn('log', add(const(1), s))
    def expm1(s): return sub(fn('exp', s), const(1))
    def square(s): return mul(s, s)
    def reciprocal(s): return div(const(1), s)
    def deg2rad(s): return mul(s, div(PI, const(180)))
    def radians(s): return s.deg2rad()
    def rad2deg(s): return mul(s, div(const(180), PI))
    def degrees(s): return s.rad2deg()
    def conjugate(s): return conj(s)
    conj = conjugate
    def item(s): return s
    def copy(s): return s
    def astype(s, *a, **k): return s
    def squeeze(s): return s
    def tolist(s): return s
    def fabs(s): return fabs(s)
    def isnan(s): return False
    def sign(s): return ite(lt(const(0), s), const(1), ite(eq(s, const(0)), const(0), const(-1)))
    def mean(s, *a, **k): return s
    def max(s, *a, **k): return s
    def min(s, *a, **k): return s
    def sum(s, *a, **k): return s
    def flatten(s): raise Unsupported('flatten of scalar')
    def is_integer(s):
        if s.op == 'c':
            return s.val.denominator == 1
        raise Unsupported('is_integer')
    @property
    def real(s): return re(s)
    @property
    def imag(s): return im(s)
    @property
    def ndim(s): return 0
    @property
    def shape(s): return ()
    @property
    def size(s): return 1
    @property
    def dtype(s):
        import numpy as np
        return np.dtype(float)
    @property
    def T(s): return s

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)


class SymBool(Expr):
    __slots__ = ()
    __array_priority__ = 1000

    def __bool__(s):
        from . import explore
        return explore.decide(s)

    def __and__(s, o): return band(s, o) if not _vec(o) else NotImplemented
    def __rand__(s, o): return band(s, o) if not _vec(o) else NotImplemented
    def __or__(s, o): return bor(s, o) if not _vec(o) else NotImplemented
    def __ror__(s, o): return bor(s, o) if not _vec(o) else NotImplemented
    def __invert__(s): return bnot(s)
    def __xor__(s, o): return bor(band(s, bnot(o)), band(bnot(s), o))
    def __hash__(s): return 11

    def __eq__(s, o):
        if isinstance(o, bool):
            return s if o else bnot(s)
        if isinstance(o, SymBool):
            return s is o or bool(s) == bool(o)
        return NotImplemented

    # arithmetic use of a boolean (mask*value)
    def _num(s): return ite(s, const(1), const(0))
    def __add__(s, o): return s._num() + (o._num() if isinstance(o, SymBool) else o)
    __radd__ = __add__
    def __mul__(s, o): return s._num() * (o._num() if isinstance(o, SymBool) else o)
    __rmul__ = __mul__
    def __sub__(s, o): return s._num() - (o._num() if isinstance(o, SymBool) else o)
    def __rsub__(s, o): return o - s._num()
    def __repr__(s): return show(s)
    def any(s, *a, **k): return s
    def all(s, *a, **k): return s
    def logical_not(s): return bnot(s)
    def item(s): return s
    @property
    def shape(s): return ()
    @property
    def ndim(s): return 0
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.array_function(func, args, kwargs)


def _vec(o):
    from . import arr
    return isinstance(o, arr.SymVec)


# ------------------------------------------------------------------ constructors
def const(x):
    return _mk(Sym, 'c', (), Fraction(x))


PI = _mk(Sym, 'pi')
I = _mk(Sym, 'I')
NAN = _mk(Sym, 'nan')
INF = _mk(Sym, 'inf')
ZERO = const(0)
ONE = const(1)
TRUE, FALSE = True, False


def var(name):
    return _mk(Sym, 'v', (), name)


def lift(x):
    """Python/numpy number -> Sym; None when not a number."""
    if isinstance(x, Sym):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, (bool, int, Fraction)):
        return const(x)
    import numpy as np
    if isinstance(x, (float, np.floating)):
        if x != x:
            return NAN
        if x in (math.inf,):
            return INF
        if x in (-math.inf,):
            return mul(const(-1), INF)
        q, k = exact(x)
        c = const(q)
        return c if k == 0 else mul(c, power(PI, const(k)))
    if isinstance(x, (np.integer, np.bool_)):
        return const(int(x))
    if isinstance(x, (complex, np.complexfloating)):
        return add(lift(x.real), mul(I, lift(x.imag)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def S(x):
    r = lift(x)
    if r is None:
        raise Unsupported('cannot read %r as a number' % type(x))
    return r


def _bin(f, a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return NotImplemented
    import numpy as np
    # 0-d arrays are handled by lift
    return f(x, y)


def _cmp(op, a, b, swapped=False):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        return NotImplemented
    return lt(x, y) if op == 'lt' else le(x, y)


def add(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'c' and b.op == 'c':
        return const(a.val + b.val)
    if a.op == 'c' and a.val == 0:
        return b
    if b.op == 'c' and b.val == 0:
        return a
    return _mk(Sym, '+', (a, b))


def sub(a, b):
    if a is b and a.op not in ('nan', 'inf'):
        return ZERO
    return add(a, mul(const(-1), b))


def mul(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if a.op == 'c' and b.op == 'c':
        return const(a.val * b.val)
    if a.op == 'c' and a.val == 0 or b.op == 'c' and b.val == 0:
        return ZERO
    if a.op == 'c' and a.val == 1:
        return b
    if b.op == 'c' and b.val == 1:
        return a
    if a.op == 'I' and b.op == 'I':
        return const(-1)
    return _mk(Sym, '*', (a, b))


def div(a, b):
    if b.op == 'c':
        if b.val == 0:
            raise ZeroDivisionError('division by zero (symbolic execution)')
        return mul(a, const(1 / b.val))
    return mul(a, power(b, const(-1)))


def power(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return NAN
    if b.op == 'c':
        if b.val == 0:
            return ONE
        if b.val == 1:
            return a
        if a.op == 'c':
            if a.val == 0:
                if b.val < 0:
                    raise ZeroDivisionError('zero to a negative power (symbolic execution)')
                return ZERO
            if b.val.denominator == 1:
                return const(a.val ** int(b.val))
            if a.val == 1:
                return ONE
            if a.val > 0:
                n, d = _iroot(a.val.numerator, b.val.denominator), _iroot(a.val.denominator, b.val.denominator)
                if n is not None and d is not None:
                    return const(Fraction(n, d) ** b.val.numerator)
        if a.op == '^' and a.args[1].op == 'c' and b.val.denominator == 1:
            return power(a.args[0], const(a.args[1].val * b.val))
        if a.op == 'I' and b.val.denominator == 1:
            return [ONE, I, const(-1), mul(const(-1), I)][int(b.val) % 4]
    return _mk(Sym, '^', (a, b))


def _iroot(n, k):
    r = round(n ** (1.0 / k)) if n < 2**200 else None
    if r is not None and r ** k == n:
        return r
    return None


def _floordiv(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.val // b.val)
    raise Unsupported('symbolic floor division')


def _mod(a, b):
    if a.op == 'c' and b.op == 'c':
        return const(a.val % b.val)
    raise Unsupported('symbolic modulo')


_FN0 = {'sin': ZERO, 'tan': ZERO, 'arcsin': ZERO, 'arctan': ZERO, 'sinh': ZERO, 'cos': ONE, 'exp': ONE, 'cosh': ONE,
        'tanh': ZERO}


def fn(name, *args):
    args = tuple(S(a) for a in args)
    if any(a.op == 'nan' for a in args):
        return NAN
    if len(args) == 1 and args[0].op == 'c':
        v = args[0].val
        if v == 0 and name in _FN0:
            return _FN0[name]
        if v == 1 and name in ('log', 'arccos', 'arccosh'):
            return ZERO
        if name == 'log' and v <= 0:
            return NAN if v < 0 else mul(const(-1), INF)
    return _mk(Sym, 'f', args, name)


def fabs(x):
    x = S(x)
    if x.op == 'c':
        return const(abs(x.val))
    if has_I(x):
        return fn('cabs', x)
    return ite(le(ZERO, x), x, mul(const(-1), x))


_hasI = {}


def has_I(x):
    r = _hasI.get(x.uid)
    if r is None:
        stack = [x]
        while stack:
            n = stack[-1]
            if n.uid in _hasI:
                stack.pop()
                continue
            if n.op == 'I' or (n.op == 'f' and n.val in ('csqrt', 'cxvar', 'jv')):
                _hasI[n.uid] = True
                stack.pop()
                continue
            if n.op == 'f' and n.val in ('re', 'im', 'cabs'):
                _hasI[n.uid] = False
                stack.pop()
                continue
            todo = [a for a in n.args if a.uid not in _hasI]
            if todo:
                stack.extend(todo)
                continue
            _hasI[n.uid] = any(_hasI[a.uid] for a in n.args)
            stack.pop()
        r = _hasI[x.uid]
    return r


def _parts(x, d=0):
    """(real part, imaginary part) of a sum/product of real terms and I, or None"""
    if not has_I(x):
        return x, ZERO
    if x.op == 'I':
        return ZERO, ONE
    if x.op not in '+*' or d > 3:
        return None
    a, b = _parts(x.args[0], d + 1), _parts(x.args[1], d + 1)
    if a is None or b is None:
        return None
    if x.op == '+':
        return add(a[0], b[0]), add(a[1], b[1])
    return sub(mul(a[0], b[0]), mul(a[1], b[1])), add(mul(a[0], b[1]), mul(a[1], b[0]))


def re(x):
    x = S(x)
    if not has_I(x):
        return x
    p = _parts(x)
    return p[0] if p else fn('re', x)


def im(x):
    x = S(x)
    if not has_I(x):
        return ZERO
    p = _parts(x)
    return p[1] if p else fn('im', x)


def conj(x):
    x = S(x)
    if not has_I(x):
        return x
    return fn('conj', x)


# ------------------------------------------------------------------ booleans
def B(x):
    if isinstance(x, SymBool):
        return x
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, Sym):
        return bnot(eq(x, ZERO))
    if isinstance(x, (int, float)):
        return bool(x)
    raise Unsupported('not a condition: %r' % type(x))


def _sgn(d):
    """cheap sign of a constant"""
    if d.op == 'c':
        return d.val
    return None


def lt(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return False
    if a.op == 'c' and b.op == 'c':
        return a.val < b.val
    if a is b:
        return False
    if b.op == 'inf':
        return True
    if a.op == 'inf':
        return False
    return _mk(SymBool, 'lt', (a, b))


def le(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return False
    if a.op == 'c' and b.op == 'c':
        return a.val <= b.val
    if a is b:
        return True
    if b.op == 'inf':
        return True
    if a.op == 'inf':
        return False
    return _mk(SymBool, 'le', (a, b))


def eq(a, b):
    if a.op == 'nan' or b.op == 'nan':
        return False
    if a.op == 'c' and b.op == 'c':
        return a.val == b.val
    if a is b:
        return True
    if 'inf' in (a.op, b.op):
        return False
    if a.uid > b.uid:
        a, b = b, a
    return _mk(SymBool, 'eq', (a, b))


def bnot(x):
    if isinstance(x, bool):
        return not x
    x = B(x)
    if isinstance(x, bool):
        return not x
    if x.op == 'not':
        return x.args[0]
    if x.op == 'lt':
        return le(x.args[1], x.args[0])
    if x.op == 'le':
        return lt(x.args[1], x.args[0])
    return _mk(SymBool, 'not', (x,))


def band(*xs):
    out = []
    for x in xs:
        x = B(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    r = out[0]
    for y in out[1:]:
        if y is not r:
            r = _mk(SymBool, 'and', (r, y))
    return r


def bor(*xs):
    out = []
    for x in xs:
        x = B(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    r = out[0]
    for y in out[1:]:
        if y is not r:
            r = _mk(SymBool, 'or', (r, y))
    return r


def ite(c, a, b):
    c = B(c)
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return bor(band(c, a), band(bnot(c), b))
    a, b = S(a), S(b)
    if a is b:
        return a
    return _mk(Sym, 'ite', (c, a, b))


# ------------------------------------------------------------------ traversal
def topo(*roots):
    seen, out = set(), []
    stack = [(r, False) for r in roots if isinstance(r, Expr)]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.uid in seen:
            continue
        seen.add(n.uid)
        stack.append((n, True))
        for a in n.args:
            if a.uid not in seen:
                stack.append((a, False))
    return out


def free_vars(*roots):
    return sorted({n.val for n in topo(*roots) if n.op == 'v'})


def rebuild(n, args):
    op = n.op
    if op == '+':
        return add(*args)
    if op == '*':
        return mul(*args)
    if op == '^':
        return power(*args)
    if op == 'f':
        return fn(n.val, *args)
    if op == 'ite':
        return ite(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'not':
        return bnot(args[0])
    if op == 'and':
        return band(*args)
    if op == 'or':
        return bor(*args)
    return n


def substitute(root, m):
    """m: {uid: replacement} for any node"""
    if not isinstance(root, Expr):
        return root
    memo = {}
    for n in topo(root):
        if n.uid in m:
            memo[n.uid] = m[n.uid]
        elif n.args:
            na = tuple(memo[a.uid] for a in n.args)
            memo[n.uid] = n if all(x is y for x, y in zip(na, n.args)) else rebuild(n, na)
        else:
            memo[n.uid] = n
    return memo[root.uid]


def show(n, depth=8):
    if not isinstance(n, Expr):
        return repr(n)
    if depth == 0:
        return '…'
    o = n.op
    if o == 'c':
        return str(n.val)
    if o == 'v':
        return n.val
    if o in ('pi', 'I', 'nan', 'inf'):
        return o
    d = depth - 1
    if o in '+*^':
        return '(' + o.join(show(a, d) for a in n.args) + ')'
    if o == 'f':
        return n.val + '(' + ','.join(show(a, d) for a in n.args) + ')'
    return o + '(' + ','.join(show(a, d) for a in n.args) + ')'


# ------------------------------------------------------------------ numeric evaluation
def evaluate(root, env, ctx=None, memo=None):
    """evaluate with mpmath (ctx=mpmath.mp) or floats."""
    import mpmath
    mp = ctx or mpmath.mp
    memo = {} if memo is None else memo
    F = _mpfuncs(mp)
    roots = [root] if isinstance(root, Expr) else []
    if not roots:
        return root
    # ite evaluated lazily: process via recursion on demand
    import sys
    sys.setrecursionlimit(100000)

    def ev(n):
        if not isinstance(n, Expr):
            return n
        u = n.uid
        if u in memo:
            return memo[u]
        o = n.op
        if o == 'c':
            r = mp.mpf(n.val.numerator) / n.val.denominator
        elif o == 'v':
            r = env[n.val]
        elif o == 'pi':
            r = mp.pi * 1
        elif o == 'I':
            r = mp.mpc(0, 1)
        elif o == 'nan':
            r = mp.nan
        elif o == 'inf':
            r = mp.inf
        elif o == '+':
            r = ev(n.args[0]) + ev(n.args[1])
        elif o == '*':
            r = ev(n.args[0]) * ev(n.args[1])
        elif o == '^':
            b, e = ev(n.args[0]), n.args[1]
            if e.op == 'c' and e.val.denominator == 1:
                r = b ** int(e.val)
            elif e.op == 'c' and e.val == Fraction(1, 2):
                r = mp.sqrt(b)
            else:
                r = mp.power(b, ev(e))
        elif o == 'f' and n.val == 'Sum':
            r = mp.mpf(0)
            for sub in env['[i]']:
                e2 = {k: (mp.mpf(x) if isinstance(x, (int, float)) else x) for k, x in sub.items()}
                e2['[i]'] = env['[i]']
                r += evaluate(n.args[0], e2, mp)
        elif o == 'f' and n.val[0] == '@':
            r = opaque_value(n.val, [ev(a) for a in n.args], mp)
        elif o == 'f':
            r = F[n.val](*[ev(a) for a in n.args])
        elif o == 'ite':
            r = ev(n.args[1]) if ev(n.args[0]) else ev(n.args[2])
        elif o == 'lt':
            r = ev(n.args[0]) < ev(n.args[1])
        elif o == 'le':
            r = ev(n.args[0]) <= ev(n.args[1])
        elif o == 'eq':
            r = ev(n.args[0]) == ev(n.args[1])
        elif o == 'not':
            r = not ev(n.args[0])
        elif o == 'and':
            r = ev(n.args[0]) and ev(n.args[1])
        elif o == 'or':
            r = ev(n.args[0]) or ev(n.args[1])
        elif o == 'bvar':
            r = env.get(n.val, True)
        else:
            raise KeyError(o)
        memo[u] = r
        return r
    return ev(root)


_MPF = {}
OPAQUE = {}          # opaque function symbols of contracted callees -> definition (their specification)
_OPT = {}


def opaque_value(name, vals, mp):
    k = (name, len(vals))
    if k not in _OPT:
        vs = [var('#o%d' % i) for i in range(len(vals))]
        _OPT[k] = S(OPAQUE[name](*vs))
    return evaluate(_OPT[k], {'#o%d' % i: x for i, x in enumerate(vals)}, mp)


def _posroot(mp, p, q):
    """the positive root of x^3 + p x - q, p >= 0, q > 0"""
    if q <= 0:
        return mp.mpf(0)
    x = max(mp.power(q, mp.mpf(1) / 3), mp.mpf(0))
    for _ in range(200):
        d = (x ** 3 + p * x - q) / (3 * x ** 2 + p)
        x -= d
        if abs(d) <= abs(x) * (mp.mpf(10) ** -38 if hasattr(mp, 'dps') and mp.dps > 20 else 1e-16):
            break
    return x



def _mpfuncs(mp):
    r = _MPF.get(id(mp))
    if r is None:
        g = lambda n: getattr(mp, n, None) or getattr(mpmath, n)
        import mpmath
        r = _MPF[id(mp)] = {
            'sin': g('sin'), 'cos': g('cos'), 'tan': g('tan'), 'arcsin': g('asin'), 'arccos': g('acos'), 'arctan': g('atan'),
            'arccosh': g('acosh'), 'arcsinh': g('asinh'), 'cosh': g('cosh'), 'sinh': g('sinh'), 'tanh': g('tanh'),
            'exp': g('exp'), 'log': g('log'), 'csqrt': g('sqrt'), 're': lambda z: g('re')(z), 'im': lambda z: g('im')(z), 'cabs': abs,
            'conj': lambda z: g('conj')(z), 'jv': g('besselj'), 'arctan2': g('atan2'), 'gamma': g('gamma'), 'mp': mp, 'cxvar': lambda z: z, 'posroot': lambda p, q: _posroot(mp, p, q),
        }
    return r
