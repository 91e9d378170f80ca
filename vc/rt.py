"""Runtime evaluation of contracts on the unmodified package: witness replay, directed/random search, and the guard for
everything the symbolic extraction drops (binary64, dtypes, real numpy, containers)."""
import copy, io, contextlib, math, random, warnings
from fractions import Fraction
import mpmath
import numpy as np
from . import sym as s_, arr, explore, load
from .sym import Sym, SymBool, S, Unsupported
from .contract import Contract, Vars, leaves, R
from .arr import SymVec, SObj

MP = mpmath.mp.clone() if hasattr(mpmath.mp, 'clone') else mpmath.mp
MP.dps = 34


class N(R):
    """integer-valued variable (iteration counts, counts)"""
    integer = True


def is_int(r):
    return getattr(r, 'integer', False)


def ev(x, env, ctx=MP):
    return s_.evaluate(x, env, ctx)


def mpenv(env):
    return {k: (MP.mpf(v.numerator) / v.denominator if isinstance(v, Fraction) else MP.mpf(v)) if not isinstance(v, list) else v
            for k, v in env.items()}


def conc(x, env):
    """concrete Python/numpy value of a symbolic argument structure"""
    if isinstance(x, Sym):
        if x.op == 'v' and x.val in env:
            return env[x.val]
        r = ev(x, mpenv(env))
        return complex(r) if isinstance(r, type(MP.mpc(0))) else float(r)
    if isinstance(x, SObj):
        b = x.view(np.ndarray)
        r = np.empty(b.shape, dtype=float)
        for i in np.ndindex(*b.shape):
            r[i] = conc(b[i], env) if isinstance(b[i], Sym) else b[i]
        return r
    if isinstance(x, (list, tuple)):
        return type(x)(conc(y, env) for y in x)
    if isinstance(x, dict):
        return {k: conc(y, env) for k, y in x.items()}
    return x


class Fail(Exception):
    def __init__(self, what, detail):
        self.what, self.detail = what, detail
        super().__init__(what)


def plain(x, d=0):
    if isinstance(x, np.ndarray):
        return {'ndarray': x.tolist() if x.dtype.kind != 'c' else [str(y) for y in x.ravel()], 'dtype': str(x.dtype)}
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, dict):
        return {str(k): plain(y) for k, y in x.items()}
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


_CONST = {}


def constants(f):
    """numeric constants that the function (or a package function it calls) compares with"""
    import ast, inspect, textwrap, sys
    out, seen = set(), set()

    def visit(f, d):
        if f in seen or d > 3:
            return
        seen.add(f)
        try:
            t = ast.parse(textwrap.dedent(inspect.getsource(f)))
        except Exception:
            return
        g = getattr(f, '__globals__', {})
        for x in ast.walk(t):
            if isinstance(x, ast.Compare) or (isinstance(x, ast.Call) and getattr(x.func, 'attr', getattr(x.func, 'id', '')) in
                                              ('where', 'minimum', 'maximum', 'clip', 'min', 'max', 'isclose', 'allclose', 'piecewise', 'select')):
                for y in ast.walk(x):
                    if isinstance(y, ast.Constant) and isinstance(y.value, (int, float)) and not isinstance(y.value, bool):
                        out.update((float(y.value), -float(y.value)))
                        try:
                            import math
                            out.add(float(y.value) * 180 / math.pi)
                        except Exception:
                            pass
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
                o = g.get(x.value.id)
                if isinstance(o, type) and o.__module__.startswith('rockphypy'):
                    h = getattr(o, x.attr, None)
                    if inspect.isfunction(h):
                        visit(h, d + 1)
    if f not in _CONST:
        visit(f, 0)
        _CONST[f] = sorted(out)[:24]
    return _CONST[f]


def lengths(f):
    """array lengths to try: short ones, and those next to a number the code compares with"""
    out = {7, 10, 33, 101}
    for c in constants(f):
        if float(c).is_integer() and 2 <= c <= 1500:
            out |= {int(c) - 1, int(c), int(c) + 1}
    return sorted(out)


def layout(c, how):
    """the same values in another memory layout: a strided view, a column of a matrix, a reversed view, a read-only array"""
    if how == 'strided':
        return np.repeat(c, 2)[::2]
    if how == 'column':
        return np.column_stack([c, c])[:, 0]
    if how == 'reversed':
        return np.ascontiguousarray(c[::-1])[::-1]
    return c


def same_value(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.flags.writeable == b.flags.writeable and bool(np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc'))
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same_value(a[k], b[k]) for k in a)
    try:
        return bool(a == b) or (a != a and b != b)
    except Exception:
        return True


class Runtime:
    def __init__(self, con, seed=1, deviant=None):
        self.con = con
        self.f = load.real_func(con.qual)
        self.rng = random.Random(seed * 7919 + sum(map(ord, con.name)))
        self.calls = 0
        self.dags = {}
        self.deviant = deviant
        self.specf = deviant or con.spec

    def vdom(self, ints):
        key = tuple(sorted(ints.items()))
        if key not in self.dags:
            con = self.con
            v, dom = con.domain()
            for k, n in ints.items():
                v[k] = s_.const(n)
            a = con.args(_argvars(con, v))
            kw = con.kwargs(_argvars(con, v))
            e = self.specf(v)
            self.dags[key] = (v, dom, a, kw, list(leaves(e)))
        return self.dags[key]

    def draw(self, base=None, only=None, rng=None):
        rng = rng or self.rng
        con = self.con
        v, dom = con.domain()
        for _ in range(400):
            e = dom.draw(rng)
            for k, r in con.vars.items():
                n = k if k not in con.sumvars else k + '[i]'
                if is_int(r):
                    e[n] = rng.randint(int(r.lo), int(r.hi))
            if base is not None:
                for k in base:
                    if only is None or k not in only:
                        e[k] = base[k]
            if dom.ok(e):
                return e
        return None

    # ---------------------------------------------------------------- call & compare
    def invoke(self, a, kw, omit):
        con = self.con
        k = dict(kw) if omit else dict(con.defaults, **kw)
        b4 = copy.deepcopy((a, k))
        self.calls += 1
        with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            try:
                r = con.call(self.f, a, k) if con.call else self.f(*a, **k)
            except Exception as ex:
                raise Fail('raises %s: %s' % (type(ex).__name__, str(ex)[:200]), {'args': plain(b4[0]), 'kwargs': plain(b4[1])})
        if not same_value(b4, (a, k)):
            raise Fail('arguments modified by the call', {'args_before': plain(b4[0]), 'args_after': plain(a), 'kwargs_after': plain(k)})
        return r, b4

    def tol(self, exp, fpv, g):
        t = self.con.rtol * max(abs(exp), 1e-3 * g) + self.con.atol
        if fpv is not None:
            try:
                d = float(2e3 * abs(fpv - exp))
                t += d if d < float('inf') else 0.0            # nan or inf: the float evaluation of the specification tells nothing
            except Exception:
                pass
        return float(t)

    def expected(self, leafs, env):
        out = []
        m = mpenv(env)
        fe = {k: (float(x) if not isinstance(x, list) else x) for k, x in env.items()}
        for p, x in leafs:
            if not isinstance(x, (Sym, SymBool)):
                x2 = x
                out.append((p, x2, None))
                continue
            val = ev(x, m)
            try:
                f = ev(x, fe, mpmath.fp)
            except Exception:
                f = None
            out.append((p, val, f))
        return out

    def close(self, got, exp, fpv, g, rtol=None):
        if isinstance(exp, (bool, np.bool_)):
            return bool(got) == bool(exp)
        if exp is None or isinstance(exp, str):
            return got is exp or got == exp
        if got is None or isinstance(got, str):
            return False
        cexp = complex(exp)
        if cexp != cexp:
            return got != got
        try:
            cgot = complex(got)
        except Exception:
            return False
        if abs(cexp) == float('inf'):
            return cgot == cexp
        return abs(cgot - cexp) <= self.tol(exp, fpv, g)

    def groups(self, exps):
        g = {}
        for p, x, _ in exps:
            k = p[:1] if len(p) > 1 else ()
            if len(p) <= 1 and not self.flatgroup(exps):
                k = p
            try:
                g[k] = max(g.get(k, 0.0), float(abs(x)))
            except Exception:
                g.setdefault(k, 0.0)
        return g

    def flatgroup(self, exps):
        return self.con.groupscale == 'all'

    def gof(self, g, p, exps):
        k = p[:1] if len(p) > 1 else (() if self.flatgroup(exps) else p)
        return g.get(k, 0.0)

    def check_scalar(self, env, omit=False, ints=False):
        con = self.con
        iv = {k: int(env[k]) for k, r in con.vars.items() if is_int(r)}
        v, dom, a, kw, leafs = self.vdom(iv)
        e2 = dict(env)
        if ints:
            e2 = {k: int(x) if float(x).is_integer() else x for k, x in e2.items()}
        a, kw = conc(a, e2), conc(kw, e2)
        a = [int(x) if isinstance(y, Sym) and y.op == 'c' and y.val.denominator == 1 and isinstance(x, float) else x for x, y in zip(a, self.vdom(iv)[2])] if iv else a
        exps = self.expected(leafs, env)
        r, b4 = self.invoke(a, kw, omit)
        self.match(r, exps, b4)
        return r

    def match(self, r, exps, b4):
        got = list(leaves(r))
        gp, epth = [p for p, _ in got], [p for p, _, _ in exps]
        if gp != epth and not (self.con.squeeze and len(gp) == len(epth)):
            raise Fail('result structure: %d leaves %s, contract %d leaves %s' % (len(gp), gp[:3], len(epth), epth[:3]),
                       {'args': plain(b4[0]), 'kwargs': plain(b4[1]), 'got': plain(r)})
        g = self.groups(exps)
        for (p, x), (q, y, fp) in zip(got, exps):
            if not self.close(x, y, fp, self.gof(g, q, exps)):
                raise Fail('component %s is %s, contract says %s' % ('.'.join(map(str, q)) or 'result', _f(x), _f(y)),
                           {'args': plain(b4[0]), 'kwargs': plain(b4[1]), 'got': _f(x), 'expected': _f(y), 'component': list(q)})

    def check_vector(self, vecnames, envs, ints=False, container='array', omit=False):
        con = self.con
        v, dom = con.domain(vecnames)
        base = envs[0]
        iv = {k: int(base[k]) for k, r in con.vars.items() if is_int(r)}
        w = Vars()
        cols = {}
        for k in con.vars:
            if k in vecnames:
                col = [e[k] for e in envs]
                if ints and all(float(x).is_integer() for x in col):
                    col = np.array([int(x) for x in col])
                else:
                    col = np.array(col, dtype=float)
                cols[k] = layout(col, container)
                w[k] = _VecMark(k)
            else:
                w[k] = s_.const(iv[k]) if k in iv else s_.var(k)
        a = con.args(w)
        kw = con.kwargs(w)

        def cv(x):
            if isinstance(x, _VecMark):
                c = x.ev(cols, base)
                return list(c) if container == 'list' else c
            if isinstance(x, (list, tuple)):
                return type(x)(cv(y) for y in x)
            if isinstance(x, Sym) and x.op == 'c' and x.val.denominator == 1:
                return int(x.val)
            return conc(x, base)
        a = [cv(x) for x in a]
        kw = {k: cv(x) for k, x in kw.items()}
        _, _, _, _, leafs = self.vdom(iv)
        memo = {}
        exps = []
        for e in envs:
            if id(e) not in memo:
                memo[id(e)] = self.expected(leafs, e)
            exps.append(memo[id(e)])
        r, b4 = self.invoke(a, kw, omit)
        n = len(envs)
        for j, (p, _) in enumerate(leafs):
            x = r
            for t in p:
                x = x[t]
            x = np.asarray(x)
            if con.squeeze and x.shape not in ((), (n,)):
                x = np.squeeze(x) if x.size != 1 else x.reshape(())
                if n == 1 and x.shape == ():
                    x = x.reshape(1)
            if x.shape not in ((), (n,)):
                raise Fail('component %s has shape %s for %d inputs' % (p, x.shape, n), {'args': plain(b4[0]), 'kwargs': plain(b4[1])})
            for i in range(n):
                xi = x[i] if x.shape else x[()]
                _, y, fp = exps[i][j]
                g = self.groups(exps[i])
                if not self.close(xi, y, fp, self.gof(g, p, exps[i])):
                    raise Fail('element %d of component %s is %s, contract says %s' % (i, '.'.join(map(str, p)) or 'result', _f(xi), _f(y)),
                               {'args': plain(b4[0]), 'kwargs': plain(b4[1]), 'got': _f(xi), 'expected': _f(y)})

    def check_sum(self, n, rng, container='array', ints=False):
        """N-phase contracts: sumvars are vectors of length n"""
        con = self.con
        envs = []
        while len(envs) < n:
            e = self.draw()
            if e is None:
                return
            if envs:
                for k in con.vars:
                    if k not in con.sumvars:
                        e[k] = envs[0][k]
            envs.append(e)
        envs = self.pattern(envs, [k + '[i]' for k in con.sumvars])
        v, dom = con.domain()
        cols = {k: np.array([e[k + '[i]'] for e in envs]) for k in con.sumvars}
        if con.vary:
            cols = con.vary(cols)
            for k in con.sumvars:
                for e, x in zip(envs, cols[k]):
                    e[k + '[i]'] = float(x)
        if any(not np.any(c) for c in cols.values()):      # no weight at all: the average does not exist
            return
        w = Vars()
        for k in con.vars:
            w[k] = _VecMark(k) if k in con.sumvars else s_.var(k)
        base = dict(envs[0])

        def cv(x):
            if isinstance(x, _VecMark):
                c = x.ev(cols, base)
                return list(c) if container == 'list' else c
            if isinstance(x, (list, tuple)):
                return type(x)(cv(y) for y in x)
            return conc(x, base)
        a = [cv(x) for x in con.args(w)]
        kw = {k: cv(x) for k, x in con.kwargs(w).items()}
        leafs = list(leaves(self.specf(v)))
        env = dict(base)
        env['[i]'] = envs
        exps = self.expected(leafs, env)
        r, b4 = self.invoke(a, kw, False)
        self.match(r, exps, b4)

    # ---------------------------------------------------------------- search
    def search(self, n, witnesses=(), vec=True):
        """returns None or Fail"""
        con = self.con
        try:
            for w in witnesses:
                if w is None:
                    continue
                if con.sumvars:
                    continue
                e = self.complete(w)
                if e is None:
                    continue
                self.try_env(e)
            if con.sumvars:
                for k in range(max(4, n)):
                    self.check_sum(self.rng.randint(1, 5), self.rng, 'list' if k % 2 and con.lists else 'array')
                return None
            k = 0
            if con.scalar:
                for i in range(n):
                    e = self.draw()
                    if e is None:
                        break
                    self.check_scalar(e, omit=bool(con.defaults) and i % 3 == 2 and self.defaults_ok())
                    k += 1
                    if i < max(3, n // 8):
                        # histories: one argument changed at a time, then the first call again
                        for name in con.vars:
                            e2 = self.draw(base=e, only={name})
                            if e2 is not None:
                                self.check_scalar(e2)
                        self.check_scalar(e)
                for e in self.edges(n):
                    self.check_scalar(e)
                if con.ints:
                    for i in range(max(3, n // 6)):
                        e = self.draw_int()
                        if e is not None:
                            self.check_scalar(e, ints=True)
            if vec:
                for vm in con.vec:
                    for i in range(max(4, n // 3)):
                        ln = [con.vlen, 1, con.vlen, 2][i % 4]
                        envs = self.draw_vec(vm, ln)
                        if envs:
                            self.check_vector(vm, envs)
                            if i < 3 and ln > 1:
                                self.check_vector(vm, envs[::-1])
                    ls = lengths(self.f)
                    if n < 100:
                        ls = self.rng.sample(ls, min(3, len(ls)))
                    for i, ln in enumerate(ls):
                        envs = self.draw_vec(vm, min(ln, 7) if n < 100 else min(ln, 12), kind=[None, 'up', 'down', 'tie'][self.rng.randrange(4)])
                        if envs:
                            q = ln // len(envs)
                            self.check_vector(vm, ([e for e in envs for _ in range(q)] if i % 2 else envs * q) + envs[-1:] * (ln - q * len(envs)))
                    for how in ('strided', 'column', 'reversed'):
                        envs = self.draw_vec(vm, con.vlen)
                        if envs:
                            self.check_vector(vm, envs, container=how)
                    for i in range(2 if n < 100 else 24):
                        envs = self.draw_vec(vm, 4)
                        if envs:
                            self.check_vector(vm, self.cluster(envs, list(vm), witnesses))
                    if con.int_arrays:
                        for i in [True] * 3 + [(k,) for k in vm if len(vm) > 1]:
                            envs = self.draw_vec(vm, con.vlen, ints=i)
                            if envs:
                                self.check_vector(vm, envs, ints=True)
                    if 'list' in con.aslist:
                        envs = self.draw_vec(vm, con.vlen)
                        if envs:
                            self.check_vector(vm, envs, container='list')
            return None
        except Fail as f:
            return f

    def edges(self, n):
        """directed points: ends of every domain, pairs of equal arguments, and the constants the code compares with"""
        con = self.con
        v, dom = con.domain()
        names = [k for k, r in con.vars.items() if not is_int(r) and k in dom.ranges]
        cands = []
        for k in names:
            lo, hi = map(float, dom.ranges[k])
            cands += [{k: lo}, {k: hi}]
            for c in constants(self.f):
                if lo < c < hi:
                    cands += [{k: c}, {k: c * (1 + 1e-7)}, {k: c * (1 - 1e-7)}]
        for i, k in enumerate(names):
            for l in names[:i]:
                lo = max(float(dom.ranges[k][0]), float(dom.ranges[l][0]))
                hi = min(float(dom.ranges[k][1]), float(dom.ranges[l][1]))
                if lo < hi:
                    cands += [(k, l, lo, hi, 0.0), (k, l, lo, hi, self.rng.choice([-1, 1]) * self.rng.choice([5e-3, 5e-3, 5e-4, 5e-6, 5e-8]))]
        cap = max(60, 4 * n)
        if len(cands) > cap:
            cands = self.rng.sample(cands, cap)
        for c in cands:
            for _ in range(6):
                e = self.draw()
                if e is None:
                    return
                if isinstance(c, tuple):
                    e[c[0]] = e[c[1]] = self.rng.uniform(c[2], c[3])
                    e[c[0]] *= 1 + c[4]
                else:
                    e.update(c)
                if dom.ok(e):
                    yield e
                    break

    def defaults_ok(self):
        return self.con.omit_ok if hasattr(self.con, 'omit_ok') else True

    def try_env(self, e):
        con = self.con
        if con.scalar:
            self.check_scalar(e)
            self.check_scalar(e, omit=bool(con.defaults))
        for vm in con.vec:
            e2 = [self.draw(base=e, only=set(vm)) or e, e, self.draw(base=e, only=set(vm)) or e]
            self.check_vector(vm, e2)
            self.check_vector(vm, [e])
            self.check_vector(vm, [e, e2[0]])

    def complete(self, w):
        con = self.con
        w = {k.replace('[i]', '').rstrip("'"): float(x) for k, x in w.items() if not k.startswith('#')}
        e = self.draw()
        if e is None:
            e = {}
        for k in con.vars:
            if k in w:
                e[k] = int(round(w[k])) if is_int(con.vars[k]) else w[k]
        if any(k not in e for k in con.vars):
            return None
        v, dom = con.domain()
        return e if dom.ok(e) else None

    def draw_int(self):
        con = self.con
        v, dom = con.domain()
        for _ in range(200):
            e = self.draw()
            if e is None:
                return None
            any_int = False
            for k, r in con.vars.items():
                lo, hi = math.ceil(r.lo), math.floor(r.hi)
                if r.ints and not is_int(r) and lo < hi:
                    e[k] = float(self.rng.randint(lo, hi))
                    any_int = True
            if not any_int:
                return None
            if dom.ok(e):
                return e
        return None

    def draw_vec(self, vm, n, ints=False, kind=None):
        base = self.draw()
        if base is None:
            return None
        out = [base]
        while len(out) < n:
            e = self.draw(base=base, only=set(vm))
            if e is None:
                return None
            out.append(e)
        if ints:
            v, dom = self.con.domain()
            can = [k for k in vm if math.ceil(self.con.vars[k].lo) <= math.floor(self.con.vars[k].hi)]
            if not can:
                return None
            if ints is not True:
                can = [k for k in can if k in ints]
            elif len(can) > 1 and self.rng.random() < .3:
                can = self.rng.sample(can, self.rng.randint(1, len(can)))
            if not can:
                return None
            for e in out:
                for k in can:
                    r = self.con.vars[k]
                    e[k] = float(self.rng.randint(math.ceil(r.lo), math.floor(r.hi)))
                if not dom.ok(e):
                    return None
        return self.pattern(out, [k for k in vm], kind) if not ints else out

    def cluster(self, envs, keys, wit=()):
        """all elements of one column in a narrow range: next to one value, an end of the domain, zero, or a number the code compares with"""
        v, dom = self.con.domain()
        keys = [k for k in keys if k in dom.ranges and all(k in e and not isinstance(e[k], list) for e in envs)]
        if not keys:
            return envs
        cs = constants(self.f)
        ws = [w for w in (self.complete(w) for w in list(wit)[:6]) if w is not None]
        for _ in range(12):
            new = [dict(e) for e in envs]
            w = self.rng.choice(ws) if ws and self.rng.random() < .5 else None
            for k in self.rng.choice([keys, [self.rng.choice(keys)]]):
                lo, hi = map(float, dom.ranges[k])
                how = self.rng.choice(['value', 'end', 'zero', 'code', 'code'])
                x = w[k] if w else envs[0][k] if how == 'value' else self.rng.choice([lo, hi]) if how == 'end' else 0.0 if how == 'zero' else self.rng.choice(cs) if cs else hi
                d = self.rng.choice([.7, .1, 1e-2, 1e-4]) * (abs(x) or 1e-2 * max(abs(lo), abs(hi)))
                sg = self.rng.choice([-1, 1, 0])
                for e in new:
                    e[k] = min(hi, max(lo, x + d * (self.rng.uniform(-1, 1) if not sg else sg * self.rng.random())))
            if w:
                new = [dict(e, **{k: w[k] for k in w if k not in keys}) for e in new]
                new[0] = w
            if all(dom.ok(e) for e in new):
                return new
        return envs

    def pattern(self, envs, keys, kind=None):
        """degenerate arrangements of drawn columns: constant, tied, sorted, an end of the domain at one place"""
        n = len(envs)
        if n < 2 or kind is None and self.rng.random() < .4:
            return envs
        v, dom = self.con.domain()
        new = [dict(e) for e in envs]
        kind = kind or self.rng.choice(['const', 'const', 'allconst', 'tie', 'up', 'down', 'down', 'end', 'endall', 'code'])
        keys = [k for k in keys if all(k in e and not isinstance(e[k], list) for e in new)]
        if not keys:
            return envs
        ks = keys if kind == 'allconst' else [self.rng.choice(keys)]
        if kind in ('up', 'down') and self.rng.random() < .6:
            return sorted(new, key=lambda e: e[ks[0]], reverse=kind == 'down')
        for k in ks:
            col = [e[k] for e in new]
            if kind in ('const', 'allconst'):
                col = [self.rng.choice(col)] * n
            elif kind == 'tie':
                i, j = self.rng.sample(range(n), 2)
                col[i] = col[j]
            elif kind in ('up', 'down'):
                col.sort(reverse=kind == 'down')
            elif kind in ('end', 'endall'):
                if k not in dom.ranges:
                    return envs
                x = float(self.rng.choice(list(dom.ranges[k])))
                if kind == 'endall':
                    col = [x] * n
                else:
                    col[self.rng.randrange(n)] = x
            else:
                cs = constants(self.f)
                if not cs:
                    return envs
                col[self.rng.randrange(n)] = self.rng.choice(cs)
            for e, x in zip(new, col):
                e[k] = x
        if not all(dom.ok(e) for e in new):
            return envs
        return new


class _VecMark:
    """placeholder for a vector argument inside an argument builder; supports simple arithmetic"""

    def __init__(self, name, f=None):
        self.name, self.f = name, f or (lambda cols, base: cols[name])

    def ev(self, cols, base): return self.f(cols, base)

    def _b(self, o, op, r=False):
        import operator

        def g(cols, base):
            x = self.f(cols, base)
            y = o.f(cols, base) if isinstance(o, _VecMark) else conc(o, base)
            return op(y, x) if r else op(x, y)
        return _VecMark(self.name, g)
    def __add__(s, o): import operator; return s._b(o, operator.add)
    def __radd__(s, o): import operator; return s._b(o, operator.add, True)
    def __sub__(s, o): import operator; return s._b(o, operator.sub)
    def __rsub__(s, o): import operator; return s._b(o, operator.sub, True)
    def __mul__(s, o): import operator; return s._b(o, operator.mul)
    def __rmul__(s, o): import operator; return s._b(o, operator.mul, True)
    def __truediv__(s, o): import operator; return s._b(o, operator.truediv)
    def __rtruediv__(s, o): import operator; return s._b(o, operator.truediv, True)


def edges_mark(d0, th):
    """runtime counterpart of arr.SymEdges"""
    return _VecMark(th.name, lambda cols, base: conc(d0, base) + np.concatenate([[0.0], np.cumsum(th.f(cols, base))]))


def _argvars(con, v):
    return v


def _f(x):
    try:
        c = complex(x)
        return '%.15g' % c.real if c.imag == 0 else '%.15g%+.15gj' % (c.real, c.imag)
    except Exception:
        return repr(x)[:200]
