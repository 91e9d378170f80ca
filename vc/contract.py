"""Contracts on the functions of /repo and their verification.

A contract names a function of the package, its symbolic inputs (variables with their domain), the precondition, and a
specification of the result as terms over the inputs.  `verify` executes the real body over symbolic inputs on every
feasible path and emits the obligations
    post.<k>      component k of the result equals the specification (for all inputs in the domain)
    frame.<arg>   the argument is unchanged
    state         no module/class/function state is left changed (else: two-call histories are verified)
    no-raise      no in-domain path raises
`runtime` checks the same contract on the unmodified package on concrete inputs: it is the replay/witness search and
the guard for what the extraction drops (binary64, dtypes, real numpy)."""
import copy, inspect, itertools, math, os, random, time, traceback, types, warnings
from fractions import Fraction
import mpmath
import numpy as np
from . import sym as s_, arr, explore, load, loops, modular, prove, smt
from .sym import Sym, SymBool, S, Unsupported
from .arr import SymVec, SObj

MPC = prove.MP


class R:
    """real variable with a domain; lo/hi are constraints, not only sampling hints, unless free=True"""

    def __init__(self, lo, hi, lo_open=False, hi_open=False, special=(), ints=True):
        self.lo, self.hi, self.lo_open, self.hi_open = Fraction(str(lo)), Fraction(str(hi)), lo_open, hi_open
        self.special = list(special)
        self.ints = ints

    def pre(self, v):
        a = s_.lt(s_.const(self.lo), v) if self.lo_open else s_.le(s_.const(self.lo), v)
        b = s_.lt(v, s_.const(self.hi)) if self.hi_open else s_.le(v, s_.const(self.hi))
        return [a, b]


class Vars(dict):
    __getattr__ = dict.__getitem__


class Contract:
    def __init__(self, qual, vars, spec, args=None, pre=None, vec=(), name=None, defaults=None, rtol=1e-6, scalar=True,
                 runtime=True, symbolic=True, ext=None, loop=None, known=None, nsample=25, ints=True, squeeze=False,
                 max_paths=300, budget=60.0, vlen=3, atol=0.0, sumvars=(), kwargs=None, call=None, int_arrays=True,
                 note='', fixed_lens=(2,), twocall=True, groupscale=True, aslist=(), raises=None, vary=None, objmode=True,
                 rt_args=None, allow_exc=(), minor=None, uses=(), search=None, lists=True):
        self.lists = lists
        self.search = search                     # own runtime contract check: fn(seed, n) -> (calls, None | (what, detail))
        self.uses = list(uses)
        self.qual, self.vars, self.spec = qual, vars, spec
        self.args = args or (lambda v: [v[k] for k in vars])
        self.pre = pre or (lambda v: [])
        self.vec = [tuple(x) for x in vec]
        self.name = name or qual
        self.defaults = defaults or {}
        self.rtol, self.atol = rtol, atol
        self.scalar, self.runtime_on, self.symbolic = scalar, runtime, symbolic
        self.ext, self.loop = ext, loop
        self.known = known                       # (id, deviant spec, text)
        self.nsample, self.ints, self.squeeze = nsample, ints, squeeze
        self.max_paths, self.budget, self.vlen = max_paths, budget, vlen
        self.sumvars = set(sumvars)
        self.kwargs = kwargs or (lambda v: {})
        self.call = call
        self.int_arrays = int_arrays
        self.note = note
        self.fixed_lens = fixed_lens
        self.twocall = twocall
        self.groupscale = groupscale
        self.aslist = aslist
        self.vary = vary
        self.objmode = objmode
        self.rt_args = rt_args
        self.allow_exc = allow_exc

    # ------------------------------------------------------------------ variables/domains
    def domain(self, vecnames=(), suffix='', seed=1):
        ranges, special, pre = {}, {}, []
        v = Vars()
        for k, r in self.vars.items():
            n = k + suffix + ('[i]' if (k in vecnames or k in self.sumvars) else '')
            x = s_.var(n)
            ranges[n] = (r.lo, r.hi)
            if r.special:
                special[n] = [float(t) for t in r.special]
            pre += r.pre(x)
            v[k] = x
        pre += [p for p in self.pre(v)]
        return v, explore.Domain(ranges, [p for p in pre if p is not True], seed, special)

    def argvals(self, v, vecnames, lens=None):
        """symbolic arguments: vectors become SymVec (or an SObj of lens elements)"""
        w = Vars()
        for k, x in v.items():
            if k in vecnames or k in self.sumvars:
                w[k] = (arr.SymGrid(x, ('i', 'j')) if getattr(self, 'matrix', False) else SymVec(x)) if lens is None else x
            else:
                w[k] = x
        return w


class Res:
    """outcome of one obligation"""

    def __init__(self, name, status, method='', note='', time=0.0, witness=None):
        self.name, self.status, self.method, self.note, self.time, self.witness = name, status, method, note, time, witness

    def d(self):
        return dict(name=self.name, status=self.status, method=self.method, note=self.note, time=round(self.time, 3))


# ---------------------------------------------------------------------- structure
def leaves(x, path=()):
    """flatten a result: yields (path, leaf); leaf is Sym/SymBool/SymVec/number/other"""
    if isinstance(x, (tuple, list)):
        for i, y in enumerate(x):
            yield from leaves(y, path + (i,))
    elif isinstance(x, np.ndarray) and x.ndim > 0:
        b = x.view(np.ndarray)
        for i in range(b.shape[0]):
            y = b[i]
            if isinstance(y, np.ndarray):
                yield from leaves(y, path + (i,))
            else:
                yield path + (i,), y
    elif isinstance(x, np.ndarray):
        yield path, x.view(np.ndarray)[()]
    elif isinstance(x, dict):
        for k in sorted(x):
            yield from leaves(x[k], path + (k,))
    else:
        yield path, x


def shape_of(x):
    return [p for p, _ in leaves(x)]


def leaf_sym(x):
    if isinstance(x, arr.SymGrid):
        return x.e
    if isinstance(x, SymVec):
        if isinstance(x, arr.SymFilt):
            raise Unsupported('filtered vector escapes')
        return x.e
    if isinstance(x, (Sym, SymBool, bool)):
        return x
    if x is None or isinstance(x, str):
        return x
    return S(x)


# ---------------------------------------------------------------------- state snapshot (frame)
_IMM = (int, float, complex, str, bytes, bool, type(None), Fraction, Sym, SymBool, range, types.BuiltinFunctionType)


def snapshot(loader):
    seen = {}
    items = []

    def visit(x, path, d):
        if isinstance(x, _IMM):
            items.append((path, ('imm', type(x).__name__, x.uid if isinstance(x, s_.Expr) else repr(x))))
            return
        if id(x) in seen or d > 7:
            items.append((path, ('ref', id(x))))
            return
        seen[id(x)] = x
        if isinstance(x, dict):
            ks = [k for k in list(x) if k not in ('__builtins__', '__warningregistry__', '__vc_loop__')]
            items.append((path, ('dict', len(ks))))
            for k in ks:
                visit(x[k], path + (str(k)[:40],), d + 1)
        elif isinstance(x, (list, tuple, set, frozenset)):
            items.append((path, ('seq', len(x))))
            for i, y in enumerate(x):
                visit(y, path + (i,), d + 1)
        elif isinstance(x, (SymVec, arr.SymGrid)):
            items.append((path, ('vec', x.e.uid if isinstance(x.e, s_.Expr) else x.e)))
        elif isinstance(x, np.ndarray):
            items.append((path, ('nd', tuple(y.uid if isinstance(y, s_.Expr) else repr(y) for y in x.view(np.ndarray).ravel()))))
        elif isinstance(x, staticmethod):
            visit(x.__func__, path, d)
        elif isinstance(x, types.FunctionType):
            if x.__globals__.get('__name__', '').startswith(load.PKG):
                visit(x.__defaults__, path + ('defaults',), d + 1)
                visit(x.__kwdefaults__, path + ('kwd',), d + 1)
                visit(x.__dict__, path + ('fdict',), d + 1)
                if x.__closure__:
                    for i, c in enumerate(x.__closure__):
                        try:
                            visit(c.cell_contents, path + ('cell', i), d + 1)
                        except ValueError:
                            pass
        elif isinstance(x, types.ModuleType):
            return
        elif isinstance(x, type):
            if x.__module__.startswith(load.PKG):
                visit(dict(x.__dict__), path, d + 1)
        elif hasattr(x, 'cache_info'):
            items.append((path, ('cache', tuple(x.cache_info()))))
        elif hasattr(x, '__dict__'):
            visit(vars(x), path, d + 1)
    for name, m in sorted(loader.mods.items()):
        visit(dict(m.__dict__), (name,), 0)
    return items


# ---------------------------------------------------------------------- symbolic verification
class Job:
    """one contract in one calling mode"""

    def __init__(self, con, vecnames=(), lens=None, omit=False):
        self.con, self.vecnames, self.lens, self.omit = con, tuple(vecnames), lens, omit
        m = 'vec(' + ','.join(vecnames) + ')' if vecnames else 'scalar'
        if con.sumvars:
            m = 'N-vector'
        if lens:
            m += '[len=%d]' % lens
        if omit:
            m += '/defaults'
        self.name = con.name + '/' + m
        self.res = []
        self.unsupported = None

    def install_ext(self, v):
        load.ExtStub.impl = dict(self.con.ext(v)) if self.con.ext else {}
        arr.LINSPACE[0] = load.ExtStub.impl.pop('linspace', None)
        arr.INVERSE[0] = load.ExtStub.impl.pop('inv', None)
        loops.runtime.spec = self.con.loop(v) if self.con.loop else None
        loops.runtime.log = []
        loops.runtime.prove_eq = self.prove_eq

    def prove_eq(self, a, b):
        if a is b:
            return True
        cur = explore.current()
        r = self.loop_dom(cur.dom, a, b)
        pv = prove.Prover(r, cur.pc if cur else (), None, budget_s=20.0)
        return pv.eq(a, b).status in ('proved', 'proved~')

    def loop_dom(self, dom, *terms):
        """havocked loop state: any positive value (the invariant adds no bound)"""
        extra = [x for x in s_.free_vars(*terms) if x.startswith('#')]
        if not extra:
            return dom
        ranges = dict(dom.ranges)
        for x in extra:
            ranges[x] = (Fraction(1, 2), Fraction(50))
        return explore.Domain(ranges, list(dom.pre), 3, dom.special)

    def symargs(self, v):
        con = self.con
        w = con.argvals(v, self.vecnames)
        a = con.args(w)
        k = con.kwargs(w)
        if self.omit:
            pass
        else:
            k = dict(con.defaults, **k)
        return a, k

    def run(self):
        con = self.con
        t0 = time.time()
        loader = load.Loader()
        try:
            f = loader.get(con.qual)
        except Unsupported as e:
            self.unsupported = 'module: %s' % e
            return self
        except Exception as e:
            self.unsupported = 'module cannot be loaded symbolically: %r' % e
            return self
        v, dom = con.domain(self.vecnames)
        if not dom.bank():
            r = smt.check(dom.pre, 3000)
            if r != 'sat':
                self.res.append(Res(self.name + ':reach', 'error', 'precondition not shown satisfiable'))
                return self
        self.res.append(Res(self.name + ':precondition-satisfiable', 'proved', 'sample point'))
        state = {}

        def body():
            loader2 = load.Loader()
            fn = loader2.get(con.qual)
            modular.install(loader2, con.uses)
            state['loader'] = loader2
            self.install_ext(v)
            a, k = self.symargs(v)
            snap0 = argsnap(a, k)
            st0 = snapshot(loader2)
            try:
                r = con.call(fn, a, k) if con.call else fn(*a, **k)
            finally:
                state['raised_args'] = (a, k)
            st1 = snapshot(loader2)
            state['frame'] = argdiff(snap0, a, k)
            state['state'] = sdiff(st0, st1)
            arr.MAP[0] = None
            mapped, arr.MAPPED[0] = arr.MAPPED[0], False
            e = con.spec(v)
            arr.MAPPED[0] = mapped
            if state['state'] and con.twocall:
                # second call of a history, arguments arbitrary
                v2, dom2 = con.domain(self.vecnames, suffix="'")
                for p in dom2.pre:
                    explore.assume(p)
                dom.ranges.update(dom2.ranges)
                self.install_ext(v2)
                a2, k2 = self.symargs(v2)
                r2 = con.call(fn, a2, k2) if con.call else fn(*a2, **k2)
                return (r, e, con.spec(v2), r2)
            return (r, e)

        npath = 0
        for p, kind, val in explore.run_paths(body, dom, con.max_paths, con.budget):
            npath += 1
            pv = prove.Prover(dom, p.pc, p.samples or None, budget_s=con.budget)
            if kind == 'unsupported':
                self.unsupported = str(val)
                return self
            if kind == 'exc':
                if con.allow_exc and isinstance(val, con.allow_exc):
                    continue
                envs = pv.envs(p.pc)
                if not envs and smt.check(dom.pre + p.pc, 2000) == 'unsat':
                    continue
                if isinstance(val, (AttributeError, TypeError, IndexError, NotImplementedError, ValueError, NameError)) and envs:
                    # might be a limitation of the symbolic front: the concrete replay decides
                    pass
                tb = traceback.extract_tb(val.__traceback__)
                loc = [t for t in tb if load.PKG in t.filename]
                self.res.append(Res(self.name + ':no-raise', 'refuted', 'path raises %s: %s' % (type(val).__name__, str(val)[:120]),
                                    '%s:%s' % (os.path.basename(loc[-1].filename), loc[-1].lineno) if loc else '',
                                    witness=envs[0] if envs else None))
                continue
            r, e = val[0], val[1]
            self.compare(p, pv, r, e, '')
            for i, (arg, ok, what) in enumerate(state['frame']):
                if ok:
                    self.res.append(Res('%s:frame.%s' % (self.name, arg), 'proved', 'unchanged after the call'))
                else:
                    envs = pv.envs(p.pc)
                    vv = pv.eq(*what) if what else None
                    if vv is not None and vv.status in ('proved', 'proved~'):
                        self.res.append(Res('%s:frame.%s' % (self.name, arg), 'proved', vv.method))
                    else:
                        self.res.append(Res('%s:frame.%s' % (self.name, arg), 'refuted', 'argument modified in place',
                                            witness=(vv.env if vv is not None and vv.env else (envs[0] if envs else None))))
            if state['state']:
                if len(val) == 4:
                    self.compare(p, pv, val[3], val[2], 'second-call.')
                self.res.append(Res(self.name + ':state', 'proved', 'state written (%s); two-call history verified' % state['state'][:3]))
            else:
                self.res.append(Res(self.name + ':state', 'proved', 'no reachable state written'))
            if loops.runtime.log:
                self.res.append(Res(self.name + ':loop-invariant', 'proved', '; '.join(loops.runtime.log)))
        if npath == 0:
            self.res.append(Res(self.name + ':reach', 'error', 'no feasible path'))
        self.time = time.time() - t0
        return self

    def compare(self, p, pv, r, e, tag):
        con = self.con
        try:
            lr = [(q, x) for q, x in leaves(r)]
            le = [(q, x) for q, x in leaves(e)]
            if con.squeeze:
                lr = [(tuple(t for t in q), x) for q, x in lr]
            pr, pe = [q for q, _ in lr], [q for q, _ in le]
            if con.squeeze and len(pr) == len(pe):
                pr = pe
            if pr != pe:
                envs = pv.envs(p.pc)
                self.res.append(Res('%s:%sshape' % (self.name, tag), 'refuted', 'result structure %s differs from %s' % (_sh(r), _sh(e)),
                                    witness=envs[0] if envs else None))
                return
            for (q, x), (_, y) in zip(lr, le):
                nm = '%s:%spost.%s' % (self.name, tag, '.'.join(map(str, q)) or 'result')
                ga, gb = [z.ax if isinstance(z, arr.SymGrid) else None for z in (x, y)]
                if ga != gb:
                    envs = pv.envs(p.pc)
                    self.res.append(Res(nm, 'refuted', 'axes %s, contract %s' % (ga, gb), witness=envs[0] if envs else None))
                    continue
                x, y = leaf_sym(x), leaf_sym(y)
                if x is None or isinstance(x, str) or y is None or isinstance(y, str):
                    self.res.append(Res(nm, 'proved' if x == y else 'refuted', 'constant'))
                    continue
                vd = pv.eq(x, y)
                self.res.append(Res(nm, vd.status, vd.method, (vd.note or '') if vd.status != 'refuted' else
                                    'code %s, contract %s' % (_n(vd.lhs), _n(vd.rhs)), vd.time, vd.env))
        except Unsupported as ex:
            self.unsupported = str(ex)


def _n(x):
    try:
        return mpmath.nstr(x, 12)
    except Exception:
        return str(x)[:80]


def _sh(x):
    ps = shape_of(x)
    return '%d leaves %s' % (len(ps), ps[:3])


def argsnap(a, k):
    out = []
    for i, x in list(enumerate(a)) + sorted(k.items()):
        out.append((i, _freeze(x)))
    return out


def _freeze(x):
    if isinstance(x, (SymVec, arr.SymGrid)):
        return ('v', x.e)
    if isinstance(x, np.ndarray):
        return ('a', x.shape, list(x.view(np.ndarray).ravel()))
    if isinstance(x, (list, tuple)):
        return ('l', [_freeze(y) for y in x])
    if isinstance(x, dict):
        return ('d', {kk: _freeze(y) for kk, y in x.items()})
    return ('o', x)


def argdiff(snap, a, k):
    out = []
    d = dict(list(enumerate(a)) + sorted(k.items()))
    for i, old in snap:
        new = _freeze(d[i])
        ok, what = _same(old, new)
        if old[0] != 'o' or not ok:
            out.append((i, ok, what))
    return out


def _same(o, n):
    if o[0] != n[0]:
        return False, None
    if o[0] == 'v':
        return o[1] is n[1], (o[1], n[1])
    if o[0] == 'a':
        if o[1] != n[1]:
            return False, None
        for x, y in zip(o[2], n[2]):
            if x is not y:
                if isinstance(x, Sym) and isinstance(y, Sym):
                    return False, (x, y)
                if isinstance(x, s_.Expr) or isinstance(y, s_.Expr) or x != y:
                    return False, None
        return True, None
    if o[0] == 'l':
        if len(o[1]) != len(n[1]):
            return False, None
        for x, y in zip(o[1], n[1]):
            ok, w = _same(x, y)
            if not ok:
                return ok, w
        return True, None
    if o[0] == 'd':
        if set(o[1]) != set(n[1]):
            return False, None
        for kk in o[1]:
            ok, w = _same(o[1][kk], n[1][kk])
            if not ok:
                return ok, w
        return True, None
    return (o[1] is n[1]) or not isinstance(o[1], s_.Expr) and not isinstance(n[1], s_.Expr) and o[1] == n[1], None


def sdiff(a, b):
    da, db = dict(), dict()
    for p, v in a:
        da.setdefault(p, []).append(v)
    for p, v in b:
        db.setdefault(p, []).append(v)
    out = []
    for p in set(da) | set(db):
        x, y = da.get(p), db.get(p)
        if x != y:
            if x and y and all(t[0] == 'ref' for t in x + y):
                continue
            out.append('.'.join(map(str, p)))
    return sorted(out)
