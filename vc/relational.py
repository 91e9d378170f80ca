"""Relational obligations over the same contracts (two executions of the real code instead of code against specification).

purity     arguments are unchanged; the result after any history equals the result in a fresh interpreter
pointwise  element i of the result for array arguments equals the result for the i-th elements

Symbolic part: both executions run over the same symbolic inputs on every feasible path and the results are proved equal.
Runtime part: replay and witness search on the unmodified package; a fresh interpreter state is a forked child."""
import copy, decimal, gc, io, contextlib, locale, logging, os, pickle, random, struct, sys, tempfile, time, warnings
import numpy as np
from fractions import Fraction
from . import sym as s_, arr, contract as c_, explore, load, modular, prove, rt
from .contract import Contract, Job, Res, leaves, leaf_sym, argsnap, argdiff, snapshot, sdiff
from .sym import Unsupported


# ---------------------------------------------------------------------- forked evaluation
def forked(fn, limit=120):
    """fn() in a forked child; its picklable result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except BaseException as ex:
                out = ('exc', repr(ex)[:300])
            try:
                data = pickle.dumps(out)
            except Exception as ex:
                data = pickle.dumps(('exc', 'result cannot be pickled: %r' % (ex,)))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('forked evaluation died')
    return pickle.loads(data)


def quiet_call(con, f, a, k):
    with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return con.call(f, a, k) if con.call and not getattr(con.call, 'solver', False) else f(*a, **k)


def outcome(con, a, k, clobber=False):
    """('ok', numbers) | ('raise', type): the observable outcome, in a comparable form; also the argument frame"""
    f = load.real_func(con.qual)
    b4 = copy.deepcopy((a, k))
    try:
        r = quiet_call(con, f, a, k)
        out = ('ok', [(p, num(x)) for p, x in leaves(r)])
    except Exception as ex:
        r, out = None, ('raise', type(ex).__name__, str(ex)[:120])
    frame = rt.same_value(b4, (a, k))
    if clobber and r is not None:
        mem = [x for x in flat_arrays((a, k))]
        for x in flat_arrays(r):
            if x.flags.writeable and x.dtype.kind in 'fc' and not any(np.shares_memory(x, y) for y in mem):
                x[...] = np.nan
    return out, frame, b4


def flat_arrays(x):
    if isinstance(x, np.ndarray):
        yield x
    elif isinstance(x, (list, tuple)):
        for y in x:
            yield from flat_arrays(y)
    elif isinstance(x, dict):
        for y in x.values():
            yield from flat_arrays(y)


def num(x):
    try:
        c = complex(x)
        return c
    except Exception:
        return repr(x)[:80]


def close(x, y, tol):
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    if x != x or y != y:
        return (x != x) == (y != y)
    if x == y:
        return True
    return abs(x - y) <= tol * max(abs(x), abs(y))


def same_out(a, b, tol=1e-12):
    if a[0] != b[0]:
        return False
    if a[0] == 'raise':
        return a[1] == b[1]
    return len(a[1]) == len(b[1]) and all(p == q and close(x, y, tol) for (p, x), (q, y) in zip(a[1], b[1]))


def show(o):
    if o[0] == 'raise':
        return 'raises ' + o[1]
    return str([rt._f(x) if not isinstance(x, str) else x for _, x in o[1][:4]])


class Caller:
    """concrete argument lists of a contract, in its calling modes"""

    def __init__(self, con, seed):
        self.con = con
        self.run = rt.Runtime(con, seed)

    def scalar(self, e):
        con = self.con
        iv = {k: int(e[k]) for k, r in con.vars.items() if rt.is_int(r)}
        v, dom, a, kw, _ = self.run.vdom(iv)
        b, kw = rt.conc(a, e), rt.conc(kw, e)
        if iv:
            b = [int(x) if isinstance(y, s_.Sym) and y.op == 'c' and y.val.denominator == 1 and isinstance(x, float) else x for x, y in zip(b, a)]
        return b, dict(con.defaults, **kw)

    def vector(self, vm, envs, ints=False, how=None, shape=None):
        """array arguments for vm, the rest from envs[0]"""
        con, base = self.con, envs[0]
        iv = {k: int(base[k]) for k, r in con.vars.items() if rt.is_int(r)}
        cols, w = {}, c_.Vars()
        for k in con.vars:
            if k in vm:
                cols[k] = np.array([int(e[k]) for e in envs]) if ints and all(float(e[k]).is_integer() for e in envs) else np.array([e[k] for e in envs], dtype=float)
                cols[k] = rt.layout(cols[k], how)
                if shape:
                    cols[k] = np.asfortranarray(cols[k].reshape(shape)) if how == 'fortran' else cols[k].reshape(shape)
                w[k] = rt._VecMark(k)
            else:
                w[k] = s_.const(iv[k]) if k in iv else s_.var(k)

        def cv(x):
            if isinstance(x, rt._VecMark):
                return x.ev(cols, base)
            if isinstance(x, (list, tuple)):
                return type(x)(cv(y) for y in x)
            if isinstance(x, dict):
                return {k: cv(y) for k, y in x.items()}
            if isinstance(x, s_.Sym) and x.op == 'c' and x.val.denominator == 1:
                return int(x.val)
            return rt.conc(x, base)
        return [cv(x) for x in con.args(w)], dict(con.defaults, **{k: cv(x) for k, x in con.kwargs(w).items()})

    def summed(self, n):
        con = self.con
        cols = {}
        base = None
        for _ in range(n):
            e = self.run.draw()
            if e is None:
                return None
            base = base or e
            for k in con.sumvars:
                cols.setdefault(k, []).append(e[k + '[i]'])
        cols = {k: np.array(c) for k, c in cols.items()}
        w = c_.Vars({k: rt._VecMark(k) if k in con.sumvars else s_.var(k) for k in con.vars})

        def cv(x):
            if isinstance(x, rt._VecMark):
                return x.ev(cols, base)
            if isinstance(x, (list, tuple)):
                return type(x)(cv(y) for y in x)
            if isinstance(x, dict):
                return {k: cv(y) for k, y in x.items()}
            return rt.conc(x, base)
        return [cv(x) for x in con.args(w)], {k: cv(x) for k, x in con.kwargs(w).items()}

    def some(self, n, wit=()):
        """n argument lists: pairs that differ in one variable, repeated, in all modes"""
        con, out = self.con, []
        if con.sumvars:
            for i in range(n):
                x = self.summed(1 + i % 4)
                if x:
                    out.append(x)
            return out
        es = [x for x in (self.run.complete(w) for w in wit) if x is not None]
        while len(es) < max(2, n // 4):
            e = self.run.draw()
            if e is None:
                break
            es.append(e)
        names = list(con.vars)
        for e in es:
            if con.scalar:
                out.append(self.scalar(e))
                for nm in self.run.rng.sample(names, min(3, len(names))):
                    e2 = self.run.draw(base=e, only={nm})
                    if e2 is not None:
                        out.append(self.scalar(e2))
            for vm in con.vec:
                envs = [e] + [x for x in (self.run.draw(base=e, only=set(vm)) for _ in range(2)) if x is not None]
                out.append(self.vector(vm, envs))
                out.append(self.vector(vm, envs[::-1]))
            if e is es[0]:
                for vm in con.vec[:3]:
                    envs = [x for x in (self.run.draw(base=e, only=set(vm)) for _ in range(8)) if x is not None]
                    if len(envs) == 8:
                        out.append(self.vector(vm, envs))
                        if getattr(con, 'matrix_ok', True) and not con.search:
                            out.append(self.vector(vm, envs[:6], shape=(2, 3)))
                            out.append(self.vector(vm, envs, shape=(2, 2, 2)))
        return out


def pandas_options():
    pd = sys.modules.get('pandas')
    out = []

    def visit(d, p):
        for k, v in sorted(d.items()):
            if isinstance(v, dict):
                visit(v, p + (k,))
            else:
                out.append((p + (k,), repr(v)[:200]))
    try:
        if pd is not None:
            visit(pd._config.config._global_config, ())
    except Exception:
        pass
    return out


def observed_world(rnd=True):
    out = [np.geterr(), repr(np.get_printoptions()), os.getcwd(), sys.getrecursionlimit(), list(sys.path), np.getbufsize(), gc.isenabled(), gc.get_threshold(),
           logging.getLogger().level, len(logging.getLogger().handlers), pandas_options()]
    if rnd:
        out += [repr(random.getstate())[:4000], repr(np.random.get_state())[:4000]]
        out.append(repr(warnings.filters))
    out += [dict(os.environ), decimal.getcontext().prec, locale.setlocale(locale.LC_ALL)]
    plt = sys.modules.get('matplotlib')
    if plt is not None:
        out.append(sorted((k, str(v)) for k, v in plt.rcParams.items()))
    return out


# ---------------------------------------------------------------------- purity
def sym_purity(con, vecnames=(), omit=False):
    """frame of the arguments; state: nothing written, or the second call of an arbitrary history equals a first call"""
    job = Job(con, vecnames, omit=omit)
    v, dom = con.domain(vecnames)
    res, wrote = [], set()

    def call(loader, v):
        fn = loader.get(con.qual)
        modular.install(loader, con.uses)
        job.install_ext(v)
        a, k = job.symargs(v)
        return fn, a, k

    def go(fn, a, k):
        return con.call(fn, a, k) if con.call else fn(*a, **k)

    def body():
        ld = load.Loader()
        fn, a, k = call(ld, v)
        s0, st0 = argsnap(a, k), snapshot(ld)
        del arr.EFFECTS[:]
        w0 = observed_world(False)
        go(fn, a, k)
        frame, state = argdiff(s0, a, k), sdiff(st0, snapshot(ld))
        eff = list(arr.EFFECTS)
        if observed_world(False) != w0:
            eff.append('settings: %s' % [(a, b) for a, b in zip(w0, observed_world(False)) if a != b])
        if not state:
            return frame, state, None, None, eff
        v2, dom2 = con.domain(vecnames, suffix="'")
        for p in dom2.pre:
            explore.assume(p)
        dom.ranges.update(dom2.ranges)
        job.install_ext(v2)
        a2, k2 = job.symargs(v2)
        r2 = go(fn, a2, k2)
        fn3, a3, k3 = call(load.Loader(), v2)
        return frame, state, r2, go(fn3, a3, k3), eff
    n = 0
    for p, kind, val in explore.run_paths(body, dom, con.max_paths, con.budget):
        n += 1
        if kind == 'unsupported':
            return res, str(val)
        if kind == 'exc':
            if isinstance(val, (AttributeError, TypeError, NameError, NotImplementedError)):
                return res, 'a path raises %r' % (val,)
            continue
        pv = prove.Prover(dom, p.pc, p.samples or None, budget_s=20)
        frame, state, r2, r3, eff = val
        envs = pv.envs(p.pc) if eff else []
        res.append(Res(job.name + ':settings', 'refuted' if eff else 'proved', 'interpreter-wide settings changed: %s' % eff[:2] if eff else 'no interpreter-wide setting written',
                       witness=envs[0] if envs else None))
        for arg, ok, what in frame:
            vv = None if ok or not what else pv.eq(*what)
            good = ok or (vv is not None and vv.status in ('proved', 'proved~'))
            envs = [] if good else pv.envs(p.pc)
            res.append(Res('%s:frame.%s' % (job.name, arg), 'proved' if good else 'refuted', 'unchanged after the call' if good else 'argument modified in place',
                           witness=None if good else (vv.env if vv is not None and vv.env else (envs[0] if envs else None))))
        if not state:
            res.append(Res(job.name + ':history', 'proved', 'no reachable state written'))
        else:
            wrote.update(state)
            try:
                la, lb = list(leaves(r2)), list(leaves(r3))
                if [q for q, _ in la] != [q for q, _ in lb]:
                    res.append(Res(job.name + ':history.shape', 'refuted', 'second call has another structure'))
                    continue
                for (q, x), (_, y) in zip(la, lb):
                    x, y = leaf_sym(x), leaf_sym(y)
                    if isinstance(x, s_.Sym) and isinstance(y, s_.Sym):
                        vd = pv.eq(x, y)
                        res.append(Res('%s:history.%s' % (job.name, '.'.join(map(str, q))), vd.status, 'state %s: second call = first call; %s' % (state[:2], vd.method), '', vd.time, vd.env))
                    else:
                        res.append(Res('%s:history.%s' % (job.name, '.'.join(map(str, q))), 'proved' if x is y or x == y else 'refuted', 'constant'))
            except Unsupported as ex:
                return res, str(ex)
    if n == 0:
        return res, 'no feasible path'
    if wrote:
        return res, 'writes state (%s): histories of two calls are proved, longer ones run' % ', '.join(sorted(wrote)[:2])
    return res, None


def rt_purity(con, seed, n, wit=()):
    c = Caller(con, seed)
    calls = c.some(n, wit)
    if not calls:
        return 0, None
    calls = calls[:4 * n]

    def single(i):
        a, k = copy.deepcopy(calls[i])
        return outcome(con, a, k)[:2]

    def raw(a, k):
        """without the context managers that would restore the settings"""
        f = load.real_func(con.qual)
        w = con.call is not None and not getattr(con.call, 'solver', False)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                con.call(f, a, k) if w else f(*a, **k)
        except Exception:
            pass

    def settings():
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        os.environ['MPLBACKEND'] = 'Agg'
        load.REAL_PLOT = True
        load.real_func(con.qual)
        plt = sys.modules.get('matplotlib.pyplot')
        fig = None
        with tempfile.TemporaryDirectory() as d:
            os.chdir(d)
            try:
                for i, (a, k) in enumerate(calls):
                    a, k = copy.deepcopy((a, k))
                    if plt is not None and i < 6:
                        fig = plt.figure()
                        old = len(fig.axes)
                    w0 = observed_world()
                    raw(a, k)
                    if observed_world() != w0:
                        return i, 'the call changes interpreter-wide settings (numpy error state, random state, working directory, environment, plot or table settings)'
                    if os.listdir(d):
                        return i, 'the call writes a file (%s)' % os.listdir(d)[0]
                    if fig is not None and i < 6:
                        if not plt.fignum_exists(fig.number) or plt.figure(fig.number) is not fig or len(fig.axes) != old:
                            return i, 'the call closes or draws on a figure that is not its own'
                        plt.close('all')
            finally:
                os.chdir('/')
        return None

    def history():
        out = []
        s0 = real_state()
        for i in list(range(len(calls))) + [0]:
            a, k = copy.deepcopy(calls[i])
            out.append(outcome(con, a, k, clobber=True)[:2])
        return out, bool(sdiff(s0, real_state()))

    def elsewhere():
        """the same calls with other interpreter settings"""
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
        load.real_func(con.qual)
        np.seterr(all='raise')
        np.set_printoptions(precision=2, threshold=3)
        np.random.seed(4711)
        random.seed(4711)
        os.chdir('/tmp')
        os.environ.update(TZ='Asia/Tokyo', LANG='de_DE.UTF-8', DEBUG='1', HOME='/nonexistent')
        out = []
        for a, k in calls:
            a, k = copy.deepcopy((a, k))
            f = load.real_func(con.qual)
            w = con.call is not None and not getattr(con.call, 'solver', False)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    r = con.call(f, a, k) if w else f(*a, **k)
                out.append(('ok', [(p, num(x)) for p, x in leaves(r)]))
            except Exception as ex:
                out.append(('raise', type(ex).__name__, ''))
        return out
    st, hist = forked(history)
    if st != 'ok':
        raise RuntimeError(hist)
    hist, stateful = hist
    fresh = {}

    def report(j):
        return {'args': rt.plain(calls[j][0]), 'kwargs': rt.plain(calls[j][1])}

    def base(j):
        if j not in fresh:
            st, fresh[j] = forked(lambda: single(j))
            if st != 'ok':
                raise RuntimeError(fresh[j])
        return fresh[j]
    for i, h in enumerate(hist):
        j = i if i < len(calls) else 0
        one = base(j)
        if not one[1] or not h[1]:
            return i, ('arguments are modified by the call', report(j))
        if not same_out(h[0], one[0]):
            return i, ('call %d of a history gives %s, the same call in a fresh interpreter %s' % (i, show(h[0]), show(one[0])),
                       dict(report(j), history=[rt.plain(x[0]) for x in calls[max(0, i - 3):i]]))
    st, bad = forked(settings)
    if st != 'ok':
        raise RuntimeError(bad)
    if bad:
        return len(hist), (bad[1], report(bad[0]))
    st, other = forked(elsewhere)
    if st != 'ok':
        raise RuntimeError(other)
    for j, o in enumerate(other):
        if o[0] == 'raise' and o[1] in ('FloatingPointError', 'RuntimeWarning'):
            continue
        if not same_out(o, base(j)[0]) and not (o[0] == base(j)[0][0] == 'raise' and o[1] == base(j)[0][1]):
            return len(hist), ('under other interpreter settings (numpy error state, random seed, environment, directory) the call gives %s instead of %s' % (
                show(o) if o[0] == 'ok' else 'raises ' + o[1], show(base(j)[0])), report(j))
    if stateful and not getattr(con, 'long', False):
        # state is written: long histories of repeated and nearly equal calls
        rng = random.Random(seed)
        seq = []
        for a, k in calls[:12]:
            seq += [(a, k)] * 3
            for d in (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8):
                seq.append((jitter(a, d, rng), jitter(k, d, rng)))
                seq.append((a, k))
        seq += [seq[0]] * 60
        calls[:] = seq
        fresh.clear()
        st, hist = forked(history)
        if st != 'ok':
            raise RuntimeError(hist)
        memo = {}
        for i, h in enumerate(hist[0][:-1]):
            key = repr(rt.plain(calls[i][0])) + repr(rt.plain(calls[i][1]))
            if key not in memo:
                memo[key] = base(i)
            if not same_out(h[0], memo[key][0]):
                return i, ('call %d of a history gives %s, the same call in a fresh interpreter %s' % (i, show(h[0]), show(memo[key][0])),
                           dict(report(i), history=[rt.plain(x[0]) for x in calls[max(0, i - 3):i]]))
    return len(hist), None


def jitter(x, d, rng):
    """nearly the same argument"""
    if isinstance(x, np.ndarray) and x.dtype.kind == 'f':
        return x * (1 + rng.uniform(-d, d))
    if isinstance(x, float):
        return x * (1 + rng.uniform(-d, d)) if rng.random() < .5 else x
    if isinstance(x, (list, tuple)):
        return type(x)(jitter(y, d, rng) for y in x)
    if isinstance(x, dict):
        return {k: jitter(y, d, rng) for k, y in x.items()}
    return x


def real_state():
    """the reachable state of the package: module variables, class attributes, defaults, closures"""
    m = {n: x for n, x in sys.modules.items() if n == load.PKG or n.startswith(load.PKG + '.')}
    import types
    return snapshot(types.SimpleNamespace(mods=m))


def usable(con):
    return con.runtime_on


class Item:
    symbolic = True

    def __init__(self, con, kind):
        self.con, self.kind = con, kind
        self.name = '%s:%s' % (kind, con.name)

    def modes(self):
        con = self.con
        if self.kind == 'pure':
            m = [((), False)] if (con.scalar or con.sumvars) else []
            m += [(vm, False) for vm in con.vec]
            if con.defaults:
                m.append((() if con.scalar else con.vec[0], True))
            return m
        return list(con.vec)

    def matrices(self):
        con = self.con
        if self.kind != 'pointwise' or not getattr(con, 'matrix_ok', True):
            return []
        m = copy.copy(con)
        m.matrix, m.name = True, con.name + '[matrices]'
        return [(m, vm) for vm in con.vec]

    def __call__(self, ctx):
        con = self.con
        con.budget = min(con.budget, 60)
        res, notes, fails = [], [], []
        if con.known:
            con.spec = con.known['spec']
        for m in self.modes():
            try:
                r, why = ([], 'verifier process died or out of time') if not self.symbolic else sym_purity(con, *m) if self.kind == 'pure' else sym_pointwise(con, m)
            except Exception as ex:
                r, why = [], 'engine: %r' % (ex,)
                if os.environ.get('VC_DEBUG'):
                    raise
            res += r
            if why:
                notes.append((self.name, why))
                res.append(Res('%s%s:bounded' % (self.name, list(m)), 'bounded', 'runtime histories', why[:150]))
        for c, m in self.matrices():
            try:
                r, why = ([], 'verifier process died or out of time') if not self.symbolic else sym_pointwise(c, m)
            except Exception as ex:
                r, why = [], 'engine: %r' % (ex,)
                if os.environ.get('VC_DEBUG'):
                    raise
            res += r
            if why:
                notes.append((c.name, why))
                res.append(Res('%s%s:bounded' % (c.name, list(m)), 'bounded', 'runtime histories', why[:150]))
        bad = [r for r in res if r.status in ('refuted', 'open')]
        wit = [r.witness for r in bad if r.witness][:6]
        n = ctx['n']
        f = rt_purity if self.kind == 'pure' else rt_pointwise
        calls, fail = f(con, ctx['seed'], max(8, n // 2) * (12 if notes else 4 if bad else 1), wit)
        if fail:
            fails.append(dict(function=con.qual, contract=self.name, what=fail[0], detail=fail[1], obligations=[r.name for r in bad][:8], verifier=[r.d() for r in bad][:4]))
        refuted = [r for r in bad if r.status == 'refuted' and r.method.startswith(('numeric', 'normal form', 'z3 model'))] if self.kind != 'pure' else []
        if not fail:
            for r in bad:
                if r not in refuted:
                    r.status, r.note = 'bounded', 'not reproduced on the real code; ' + r.method
        if self.kind == 'pure' and not fails:
            w = widened(con, zero=True)
            wit = []
            for m in (self.modes() if self.symbolic else ()):
                try:
                    r, why = sym_purity(w, *m)
                except Exception as ex:
                    r, why = [], repr(ex)
                    if os.environ.get('VC_DEBUG'):
                        raise
                res += [x for x in r if x.status in ('proved', 'proved~')]
                wit += [x.witness for x in r if x.status == 'refuted' and x.witness]
            k, fail = rt_purity(w, ctx['seed'] + 17, 8 if not wit else 24, wit[:6])
            calls += k
            if fail:
                fails.append(dict(function=con.qual, contract='pure:' + w.name, what=fail[0], detail=fail[1], obligations=[w.name + ':frame'], verifier=[]))
        if self.kind == 'pointwise' and not fails:
            w = widened(con)
            wit = []
            for m in (w.vec if self.symbolic else ()):
                try:
                    r, why = sym_pointwise(w, m)
                except Exception as ex:
                    r, why = [], repr(ex)
                    if os.environ.get('VC_DEBUG'):
                        raise
                res += [x for x in r if x.status in ('proved', 'proved~')]
                wit += [x.witness for x in r if x.status == 'refuted' and x.witness]
            k, fail = rt_pointwise(w, ctx['seed'] + 17, max(8, n // 2), wit[:6])
            calls += k
            if fail:
                fails.append(dict(function=con.qual, contract='pointwise:' + w.name, what=fail[0], detail=fail[1], obligations=[w.name + ':pointwise'], verifier=[]))
        if refuted and not fails:
            fails.append(dict(function=con.qual, contract=self.name, noinput=True,
                              what='obligation not discharged (counterexample of the verifier not reproduced): ' + refuted[0].method,
                              detail={'witness': str(refuted[0].witness)}, obligations=[r.name for r in refuted][:8], verifier=[r.d() for r in refuted][:4]))
        ctx['calls'] = calls
        return res, fails


def compose(outs):
    """no function, on any path and for any arguments, writes state that a later call could read: then no history of calls of any
    functions changes a result.  The obligation follows from the frame obligations of all functions; if one of them is missing it
    stays with the runtime histories."""
    res = [r for o in outs for r in o['res']]
    across = [r for r in res if r['name'] == 'pure:across functions']
    rest = [r for r in res if r['name'] != 'pure:across functions']
    hist = [r for r in rest if ':history' in r['name'] or r['name'].endswith(':settings')]
    if across and hist and not any(o['unsupported'] or o.get('error') or o['fail'] for o in outs) and all(r['status'] == 'proved' for r in rest) \
            and all(r['method'].startswith(('no reachable state written', 'no interpreter-wide setting written')) for r in hist):
        for r in across:
            r['status'], r['method'] = 'proved', 'composition of the frame obligations: no function writes state (%d obligations)' % len(hist)


def dedupe(cs):
    return [c for c in cs if isinstance(c, Contract)]


def purity(cs):
    from .runner import Custom
    out = [Custom('pure:' + c.name, Item(c, 'pure'), [c.qual]) for c in dedupe(cs)]
    out.append(Custom('pure:across functions', Across(dedupe(cs)), []))
    return out


class Across:
    """every function after every other one: the result is that of a fresh interpreter"""

    def __init__(self, cs): self.cs = cs

    def __call__(self, ctx):
        todo = []
        for c in self.cs:
            try:
                x = Caller(c, ctx['seed'] + 5).some(2)
            except Exception:
                x = []
            if x:
                todo.append((c, x[0]))
        st, base = zip(*[forked(lambda c=c, x=x: outcome(c, *copy.deepcopy(x))[0]) for c, x in todo])

        def after(i):
            outs = []
            outcome(todo[i][0], *copy.deepcopy(todo[i][1]), clobber=True)
            for j, (c, x) in enumerate(todo):
                o = outcome(c, *copy.deepcopy(x))[0]
                if not same_out(o, base[j]):
                    outs.append((j, o))
                    break
            return outs
        fails, n = [], 0
        import concurrent.futures
        for i in range(len(todo)):
            st, outs = forked(lambda: after(i))
            n += len(todo)
            if st == 'ok' and outs:
                j, o = outs[0]
                c = todo[j][0]
                fails.append(dict(function=c.qual, contract='pure:across functions', what='after a call of %s, %s gives %s; in a fresh interpreter %s' % (
                    todo[i][0].qual, c.qual, show(o), show(base[j])), detail={'first': rt.plain(todo[i][1]), 'second': rt.plain(todo[j][1])}, obligations=[]))
                break
        return [Res('pure:across functions', 'bounded', 'runtime', '%d ordered pairs of calls' % n)], fails


# ---------------------------------------------------------------------- pointwise
AGG = ('Sum', 'Max', 'Min', 'Cum')


def sym_pointwise(con, vm):
    job, sjob = Job(con, vm), Job(con, ())
    v, dom = con.domain(vm)
    res = []

    def body():
        def go(j, w):
            ld = load.Loader()
            fn = ld.get(con.qual)
            modular.install(ld, con.uses)
            j.install_ext(w)
            a, k = j.symargs(w)
            return con.call(fn, a, k) if con.call else fn(*a, **k)
        rv = go(job, v)
        rs = go(sjob, v) if con.scalar else None
        return rv, rs
    n = 0
    for p, kind, val in explore.run_paths(body, dom, con.max_paths, con.budget):
        n += 1
        if kind == 'unsupported':
            return res, str(val)
        if kind == 'exc':
            continue
        pv = prove.Prover(dom, p.pc, p.samples or None, budget_s=20)
        rv, rs = val
        try:
            la = list(leaves(rv))
            if rs is None:
                for q, x in la:
                    x = leaf_sym(x)
                    agg = isinstance(x, s_.Sym) and any(isinstance(t, s_.Sym) and t.op == 'f' and t.val in AGG for t in s_.topo(x))
                    res.append(Res('%s:elementwise.%s' % (job.name, '.'.join(map(str, q))), 'refuted' if agg else 'proved', 'element i depends on the elements i only'))
                continue
            lb = list(leaves(rs))
            if [q for q, _ in la] != [q for q, _ in lb]:
                if len(la) != len(lb):
                    envs = pv.envs(p.pc)
                    res.append(Res(job.name + ':pointwise.shape', 'refuted', 'structure of the array result differs', witness=envs[0] if envs else None))
                    continue
            for (q, x), (_, y) in zip(la, lb):
                x, y = leaf_sym(x), leaf_sym(y)
                nm = '%s:pointwise.%s' % (job.name, '.'.join(map(str, q)))
                if not isinstance(x, s_.Sym) or not isinstance(y, s_.Sym):
                    res.append(Res(nm, 'proved' if x is y or x == y else 'refuted', 'constant'))
                    continue
                vd = pv.eq(x, y)
                res.append(Res(nm, vd.status, vd.method, '', vd.time, vd.env))
        except Unsupported as ex:
            return res, str(ex)
    return res, None if n else 'no feasible path'


def widened(con, zero=False):
    """the contract outside its stated domain: wider ranges, no preconditions (the elementwise property does not depend on them)"""
    w = copy.copy(con)
    w.vars = {}
    for k, r in con.vars.items():
        if rt.is_int(r):
            w.vars[k] = r
            continue
        lo, hi = (r.lo / 20, r.hi * 3) if r.lo >= 0 else (r.lo * 3, r.hi * 3 if r.hi > 0 else r.hi / 20)
        if 0 <= r.lo and r.hi <= 1:
            hi = Fraction(1) if r.hi > Fraction(1, 2) else min(2 * r.hi, Fraction(1))
        if zero and lo > 0:
            lo = Fraction(0)
        q = copy.copy(r)
        q.lo, q.hi = lo, hi
        w.vars[k] = q
    w.pre = lambda v: []
    w.name = con.name + '[any argument]'
    w.uses, w.runtime_on = [], con.runtime_on
    w.budget, w.wide = min(con.budget, 20), True
    return w


def wide_close(x, y, tol):
    """x: array result, y: result for the element alone; an undefined value (Python raises or turns complex where arrays give nan) is not compared"""
    if isinstance(x, str) or isinstance(y, str):
        return True
    if y.imag and not x.imag or y != y or abs(y) > 1e200 or (0 < abs(y) < 1e-200):
        return True
    return close(x, y, tol)


def rt_pointwise(con, seed, n, wit=()):
    c = Caller(con, seed + 3)
    wide = getattr(con, 'wide', False)
    f = load.real_func(con.qual)
    rng = c.run.rng
    cnt = 0
    for vm in con.vec:
        plan = [con.int_arrays and t % 4 == 3 for t in range(max(4, n))] + [(k,) for k in vm if con.int_arrays and len(vm) > 1]
        plan = [(x, [3, 1, 5, 2][t % 4], None, None) for t, x in enumerate(plan)]
        ls = rt.lengths(f)
        plan += [(False, ln, None, None) for ln in (ls if n >= 60 else rng.sample(ls, min(2, len(ls))))]
        plan += [(False, 3, how, None) for how in ('strided', 'column', 'reversed')]
        if getattr(con, 'matrix_ok', True):
            plan += [(False, 6, None, (2, 3)), (False, 6, None, (3, 2)), (False, 3, None, (1, 3)), (False, 3, None, (3, 1)), (False, 8, None, (2, 2, 2)),
                     (False, 6, 'fortran', (2, 3)), (False, 6, 'fortran', (3, 2))]
        plan += [(False, 4, 'cluster', None)] * (3 if n < 60 else 24)
        for t, (ints, ln, how, shape) in enumerate(plan):
            envs = c.run.draw_vec(vm, min(ln, 8), ints=ints)
            if not envs:
                continue
            if how == 'cluster':
                envs, how = c.run.cluster(envs, list(vm), wit), None
            elif ln > 8:
                q = ln // len(envs)
                envs = ([e for e in envs for _ in range(q)] if t % 2 else envs * q) + envs[-1:] * (ln - q * len(envs))
            elif shape and len(envs) != ln:
                continue
            elif t < len(wit):
                w = c.run.complete(wit[t])
                if w is not None:
                    envs = [w] + [x for x in (c.run.draw(base=w, only=set(vm)) for _ in range(2)) if x is not None]
                    ints = False
            if len(envs) == 5 and ln == 5:
                envs[3] = envs[0]                      # a repeated sample
                if wide:
                    envs = c.run.pattern(envs, list(vm))
            if len(envs) > 2 and rng.random() < .5:
                envs = envs[::-1]
            base = envs[0]
            a, k = c.vector(vm, envs, ints, how, shape)
            single = {}
            cnt += 1
            arg = {'args': rt.plain(a), 'kwargs': rt.plain(k)}
            try:
                r = list(leaves_top(quiet_call(con, f, a, k), con, len(envs), shape))
            except Exception as ex:
                # a function that fails for every calling mode does not break this property
                try:
                    if wide and isinstance(ex, ArithmeticError):
                        continue
                    for e in envs:
                        one(con, c, f, vm, dict(base, **{z: e[z] for z in vm}))
                except Exception:
                    continue
                return cnt, ('raises %r for arrays, but not element by element' % (ex,), arg)
            for i, e in enumerate(envs):
                try:
                    if id(e) not in single:
                        single[id(e)] = one(con, c, f, vm, dict(base, **{z: e[z] for z in vm}))
                    s = single[id(e)]
                except Exception as ex:
                    if wide:
                        continue
                    return cnt, ('raises %r for a single element, but not for the array' % (ex,), arg)
                if len(s) != len(r):
                    return cnt, ('%d results for arrays, %d for one element' % (len(r), len(s)), arg)
                for j, (x, y) in enumerate(zip(r, s)):
                    xi = x[i] if np.ndim(x) else x
                    y = np.asarray(y).reshape(-1)[0] if np.size(y) == 1 else y
                    if wide and not np.ndim(y) and wide_close(num(xi), num(y), 1e-6):
                        continue
                    if np.ndim(y) or not close(num(xi), num(y), 1e-7):
                        tol = 1e-9 * max([abs(num(z)) for z in s if np.size(z) == 1 and not isinstance(num(np.asarray(z).reshape(-1)[0]), str)] or [0])
                        if not np.ndim(y) and abs(num(xi) - num(y)) <= tol * 1e-3:
                            continue
                        if not np.ndim(y) and (wide or abs(num(xi) - num(y)) <= tol * 1e5) and rounding(con, c, f, vm, dict(base, **{z: e[z] for z in vm}), j, num(y), abs(num(xi) - num(y))):
                            continue
                        return cnt, ('element %d of result %d is %s in the array, %s on its own' % (i, j, rt._f(xi), rt._f(y)), arg)
    return cnt, None


def rounding(con, c, f, vm, e, j, y, diff):
    """a difference that arguments equal to 8 digits produce as well (in either calling mode)"""
    rng = random.Random(1)
    base = None
    for t in range(16):
        d = 0 if t == 0 else 1e-8 if t > 7 else 1e-14
        w = {k: v if rt.is_int(con.vars[k]) or not isinstance(v, float) else v * (1 + rng.uniform(-d, d)) for k, v in e.items()}
        try:
            z = num(np.asarray(one(con, c, f, vm, w)[j]).reshape(-1)[0])
            a, k = c.vector(vm, [w])
            x = num(np.asarray(list(leaves_top(quiet_call(con, f, a, k), con, 1))[j]).reshape(-1)[0])
        except Exception:
            continue
        if isinstance(z, str) or isinstance(x, str) or z != z or x != x:
            return True
        if base is None:
            base = x
        if abs(z - y) * 20 >= diff or abs(x - base) * 20 >= diff:
            return True
    return False


def one(con, c, f, vm, e):
    if con.scalar:
        a, k = c.scalar(e)
        r = quiet_call(con, f, a, k)
    else:
        a, k = c.vector(vm, [e])
        r = quiet_call(con, f, a, k)
    return list(leaves_top(r, con, 1))


def leaves_top(r, con, n, shape=None):
    """results of one call: tuple members (arrays kept whole)"""
    for x in (r if isinstance(r, (tuple, list)) else (r,)):
        x = np.asarray(x)
        if shape:
            if x.shape not in ((), shape):
                raise ValueError('result of shape %s for arguments of shape %s' % (x.shape, shape))
            yield x.reshape(-1) if x.shape else x
            continue
        if x.ndim > 1 or (x.ndim == 1 and x.shape != (n,)):
            x = np.squeeze(x)
        if x.ndim > 1 or (x.ndim == 1 and x.shape != (n,)):
            raise ValueError('result of shape %s for %d elements' % (x.shape, n))
        yield x


def pointwise(cs):
    from .runner import Custom
    return [Custom('pointwise:' + c.name, Item(c, 'pointwise'), [c.qual]) for c in dedupe(cs) if c.vec and not c.sumvars and not c.search]
