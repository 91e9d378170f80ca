from fractions import Fraction as Fr
from vc import sym as s_
from vc.sym import Sym, S, const, ite, fn, PI, I, lt, le, eq, band, bor, bnot, var
from vc.contract import Contract, R, Vars
from vc.rt import N
from vc.runner import Lemma, Custom
from vc.loops import LoopSpec
from vc import arr, modular
import numpy as np


def sqrt(x): return S(x).sqrt()
def cbrt(x): return S(x) ** Fr(1, 3)
def sin(x): return S(x).sin()
def cos(x): return S(x).cos()
def tan(x): return S(x).tan()
def asin(x): return S(x).arcsin()
def acos(x): return S(x).arccos()
def exp(x): return S(x).exp()
def log(x): return S(x).log()
def log10(x): return S(x).log10()
def deg(x): return S(x) * PI / 180
def mat(rows): return arr.mkarr(rows)
def Sum(x): return fn('Sum', S(x))
def smax(a, b): return ite(lt(S(a), S(b)), S(b), S(a))
def smin(a, b): return ite(lt(S(b), S(a)), S(b), S(a))
D = lambda s: const(Fr(s))      # decimal constant


# common domains
K_ = lambda: R('0.1', '500')            # mineral/frame bulk modulus GPa
G_ = lambda: R('0.1', '300')
KF = lambda: R('0.0005', '10')           # fluid bulk modulus
RHO = lambda: R('0.1', '20')
PHI = lambda: R('0.001', '0.7')
FRAC = lambda: R('0', '1')
OPENFRAC = lambda: R('0.001', '0.999')


def axis(x, name):
    """a vector argument whose length is independent of the other axis"""
    return arr.SymGrid(x.e, (name,)) if isinstance(x, arr.SymVec) else x


def GridContract(qual, vars, elem, rows, cols, shapes, args, pre, name, kwargs=None, defaults=None, mean=(), omit=False, **kw):
    """qual(rows..., cols..., others) for N row values and M column values: result[i,j] = elem(row i, column j).
    mean: row variables whose average over the rows (v.mean_<name>) enters the specification"""
    kwargs = kwargs or (lambda v: {})

    def build(v):
        w = Vars(v)
        for k in rows:
            w[k] = axis(v[k], 'i')
        for k in cols:
            w[k] = axis(v[k], 'j')
        return args(w)

    def spec(v):
        w = Vars(v, **{'mean_' + k: Sum(v[k]) / arr.NLEN for k in mean})
        r = elem(w)
        if shapes is None:
            return r
        return tuple(arr.SymGrid(x, sh) for x, sh in zip(r, shapes)) if isinstance(r, tuple) else arr.SymGrid(r, shapes)

    tw = Contract(qual, dict(vars, **{'mean_' + k: vars[k] for k in mean}), elem, args=args, pre=pre, name=name + '(element)', runtime=True, rtol=kw.get('rtol', 1e-6))

    def search(seed, n, wit=()):
        import copy, warnings
        from vc import rt
        run = rt.Runtime(tw, seed)
        rng = run.rng
        v, dom, _, _, leafs = run.vdom({})
        one = not isinstance(elem(tw.domain()[0]), tuple)
        shs = [shapes] if one else shapes
        calls = 0
        for t in range(max(24, 2 * n) + len(wit)):
            w = {}
            if t < len(wit):
                w = {k.replace('[i]', ''): float(x) for k, x in wit[t].items() if k.replace('[i]', '') in vars}
            N_, M_ = [(2, 3), (3, 2), (1, 4), (4, 1), (1, 1), (5, 2), (3, 3), (2, 2)][t % 8]
            e0 = None
            for _ in range(60):
                e0 = run.draw(base=w) if w else run.draw()
                if e0 is not None:
                    break
            if e0 is None:
                continue
            R_, C_ = [e0], [e0]
            while len(R_) < N_:
                e = run.draw(base=e0, only=set(rows))
                if e is None:
                    break
                R_.append(e)
            while len(C_) < M_:
                e = run.draw(base=e0, only=set(cols))
                if e is None:
                    break
                C_.append(e)
            ints = t % 6 == 5
            if ints:
                for k in rows + cols:
                    if rng.random() < .6 and vars[k].hi - vars[k].lo > 3:
                        for e in (R_ if k in rows else C_):
                            e[k] = float(round(e[k]))
            R_, C_ = run.pattern(R_, list(rows)), run.pattern(C_, list(cols))
            if rng.random() < .3:
                R_, C_ = R_[::-1], C_[::-1]

            def col(es, k):
                x = [e[k] for e in es]
                return np.array([int(y) for y in x]) if ints and all(float(y).is_integer() for y in x) else np.array(x)
            cols_ = {k: col(R_, k) for k in rows}
            cols_.update({k: col(C_, k) for k in cols})
            ev = Vars({k: cols_[k] if k in cols_ else e0[k] for k in vars})
            envs = [[dict(e0, **{k: c[k] for k in cols}, **{k: r[k] for k in rows}, **{'mean_' + k: float(np.mean(cols_[k])) for k in mean}) for c in C_] for r in R_]
            if not all(dom.ok(dict(x, **{'mean_' + k: x[k] for k in mean})) for r in envs for x in r):
                continue
            a = [rt.conc(x, {}) if isinstance(x, np.ndarray) and x.dtype == object else x for x in args(ev)]
            k_ = {} if (t % 3 == 2 and defaults) else dict(defaults or {}, **kwargs(ev))
            b4 = copy.deepcopy((a, k_))
            info = {'args': rt.plain(b4[0]), 'kwargs': rt.plain(b4[1])}
            calls += 1
            try:
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    r = run.f(*a, **k_)
            except Exception as ex:
                return calls, ('raises %r' % (ex,), info)
            if not rt.same_value(b4, (a, k_)):
                return calls, ('arguments modified by the call', info)
            r = (r,) if one else r
            if len(r) != len(shs):
                return calls, ('%d results, contract %d' % (len(r), len(shs)), info)
            for x, sh in zip(r, shs):
                want = tuple({'i': len(R_), 'j': len(C_), 1: 1}[z] for z in sh)
                if np.shape(x) != want:
                    return calls, ('result of shape %s for %d rows and %d columns' % (np.shape(x), len(R_), len(C_)), info)
            for i in range(len(R_)):
                for j in range(len(C_)):
                    exps = run.expected(leafs, envs[i][j])
                    g = run.groups(exps)
                    for m, (x, sh) in enumerate(zip(r, shs)):
                        got = np.asarray(x)[tuple({'i': i, 'j': j, 1: 0}[z] for z in sh)]
                        p, y, fp = exps[m]
                        if not run.close(got, y, fp, run.gof(g, p, exps)):
                            return calls, ('element (%d, %d) of result %d is %s, contract says %s' % (i, j, m, rt._f(got), rt._f(y)), info)
        return calls, None

    return Contract(qual, vars, spec, args=build, pre=pre, scalar=False, vec=[tuple(rows) + tuple(cols)], name=name, kwargs=kwargs, defaults=defaults or {}, search=search, **kw)
