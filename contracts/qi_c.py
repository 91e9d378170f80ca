"""Contracts: rockphypy.QI (quantitative interpretation: rock physics screening and cement diagnosis)."""
import types
from vc import load
from .base import *
from .em_c import hs
from .fluid_c import gassmann
from .gm_c import low, up, CCM, HM, C as G
from . import gm_c, fluid_c

C = {}


def avg(fs, ms):
    v = sum((S(f) * m for f, m in zip(fs, ms)), const(0))
    r = 1 / sum((S(f) / m for f, m in zip(fs, ms)), const(0))
    return v, r, (v + r) / 2


def fr(vsh, phic, phi0):
    """solid fractions of shale, grains and cement when cement fills phic - phi0"""
    return vsh / (1 - phi0), (1 - phic - vsh) / (1 - phi0), (phic - phi0) / (1 - phi0)


def matrix(vsh, phic, phi0, msh, mg, mc): return avg(fr(vsh, phic, phi0), (msh, mg, mc))[2]
def den(vsh, phic, phi0, dsh, dg, dc): return avg(fr(vsh, phic, phi0), (dsh, dg, dc))[0]


VSH = lambda: R('0', '0.9', special=(0,))
SOLID = lambda v: [v.vsh + v.phi_c <= 1]                 # shale and critical porosity leave room for grains
MV = lambda a, b: dict(vsh=VSH(), phi_c=R('0.05', '0.8'), phi_0=R('0', '0.8'), sh=R(a, b), g=R(a, b), c=R(a, b))
MP_ = lambda v: [v.phi_0 <= v.phi_c] + SOLID(v)
one = lambda x: mat([x])
C['matrix_modulus'] = Contract('QI.matrix_modulus', MV('0.1', '500'), lambda v: one(matrix(v.vsh, v.phi_c, v.phi_0, v.sh, v.g, v.c)), pre=MP_, squeeze=True)
C['matrix_modulus_v'] = Contract('QI.matrix_modulus', MV('0.1', '500'), lambda v: matrix(v.vsh, v.phi_c, v.phi_0, v.sh, v.g, v.c), pre=MP_, scalar=False,
                                 vec=[('phi_0',)], name='QI.matrix_modulus[porosity log]')
C['den_matrix'] = Contract('QI.den_matrix', MV('0.1', '20'), lambda v: one(den(v.vsh, v.phi_c, v.phi_0, v.sh, v.g, v.c)), pre=MP_, squeeze=True)
C['den_matrix_v'] = Contract('QI.den_matrix', MV('0.1', '20'), lambda v: den(v.vsh, v.phi_c, v.phi_0, v.sh, v.g, v.c), pre=MP_, scalar=False,
                             vec=[('phi_0',)], name='QI.den_matrix[porosity log]')
C['normalize'] = Contract('QI.normalize', dict(d=R('0', '1000'), e=R('0', '1000'), g=R('0.001', '1000')),
                          lambda v: (lambda m: mat([v.d / m, v.e / m, v.g / m]))(smax(smax(v.d, v.e), v.g)), args=lambda v: [mat([v.d, v.e, v.g])],
                          name='QI.normalize[3 cells]')

MINV = lambda: dict(Dqz=R('1', '6'), Kqz=R('10', '120'), Gqz=R('5', '120'), Dsh=R('1', '6'), Ksh=R('5', '120'), Gsh=R('2', '120'),
                    Dc=R('1', '6'), Kc=R('10', '120'), Gc=R('5', '120'), Db=R('0.1', '2'), Kb=R('0.01', '5'))


def mineral(v):
    f = (v.vsh, 1 - v.vsh)
    return avg(f, (v.Ksh, v.Kqz))[2], avg(f, (v.Gsh, v.Gqz))[2], v.vsh * v.Dsh + (1 - v.vsh) * v.Dqz


def gass(Kd, K0, Kf, phi):
    """Gassmann in the form that has no singularity at Kd = K0"""
    return Kd + (1 - Kd / K0) ** 2 / (phi / Kf + (1 - phi) / K0 - Kd / K0 ** 2)


def vel(K, G, rho): return 1000 * sqrt((K + Fr(4, 3) * G) / rho), 1000 * sqrt(G / rho)


NAN = s_.NAN
POISSON = lambda v: []


def screening(v, s):
    K0, G0, D0 = mineral(v)
    phi = D('1e-7') + (v.phi_c - D('1e-7')) * v.idx / 99
    k1, g1 = modular.call(G['softsand'], K0, G0, phi, v.phi_c, v.Cn, v.sigma, v.f)
    k3, g3 = CCM(K0, G0, v.Kc, v.Gc, phi, v.phi_c, v.Cn, s)
    k2, g2 = modular.call(G['MUHS%d' % s], K0, G0, v.Kc, v.Gc, phi, v.phib, v.phi_c, v.Cn)
    rho = D0 * (1 - phi) + v.Db * phi
    Km = matrix(v.vsh, v.phi_c, phi, v.Ksh, v.Kqz, v.Kc)
    Dm = den(v.vsh, v.phi_c, phi, v.Dsh, v.Dqz, v.Dc)
    p1, s1 = vel(gass(k1, K0, v.Kb, phi), g1, rho)
    p2, s2 = vel(gass(k2, K0, v.Kb, phi), g2, rho)
    p3, s3 = vel(gass(k3, Km, v.Kb, phi), g3, Dm * (1 - phi) + v.Db * phi)
    lo, hi = lt(phi, v.phib), lt(v.phib, phi)
    return phi, p1, ite(hi, NAN, p2), ite(lo, NAN, p3), s1, ite(hi, NAN, s2), ite(lo, NAN, s3)


def grid_ext(v):
    def linspace(a, b, n, endpoint):
        return arr.SymVec(a + (b - a) * v.idx / (n - 1 if endpoint else n))
    return {'linspace': linspace}


def grid_call(fn_, a, k):
    r = fn_(*a[:-1], **k)
    if any(isinstance(x, arr.SymVec) for x in r):
        return tuple(r)
    if any(np.shape(x) != (100,) for x in r):
        return r
    return tuple(x[int(a[-1])] for x in r)


for s in (1, 2):
    C['screening%d' % s] = Contract('QI.screening', dict(MINV(), phib=R('0.05', '0.6'), phi_c=R('0.15', '0.65'), sigma=R('0.01', '500'), vsh=VSH(), f=FRAC(), Cn=R('2', '20'), idx=N('0', '99')),
        lambda v, s=s: screening(v, s),
        args=lambda v, s=s: [v.Dqz, v.Kqz, v.Gqz, v.Dsh, v.Ksh, v.Gsh, v.Dc, v.Kc, v.Gc, v.Db, v.Kb, v.phib, v.phi_c, v.sigma, v.vsh, s, v.f, v.Cn, v.idx],
        pre=lambda v: POISSON(v) + SOLID(v) + [v.phib <= v.phi_c], ext=grid_ext, call=grid_call, uses=['GM.softsand', 'GM.MUHS', 'GM.contactcement'], name='QI.screening[scheme=%d]' % s, budget=200, twocall=False, ints=False)

CV = lambda: dict(phi_b=R('0.05', '0.6'), K0=R('10', '120'), D0=R('1', '6'), G0=R('5', '120'), phi=R('0.001', '0.7'), phi_c=R('0.15', '0.65'), Cn=R('2', '20'), Kc=R('10', '120'), Gc=R('5', '120'),
                  Db=R('0.1', '2'), Kb=R('0.01', '5'), vsh=VSH(), Dsh=R('1', '6'), Dqz=R('1', '6'), Dc=R('1', '6'))


def cst_vels(v, s):
    k, g = modular.call(G['constantcement%d' % s], v.K0, v.G0, v.Kc, v.Gc, v.phi, v.phi_b, v.phi_c, v.Cn)
    d = den(v.vsh, v.phi_c, v.phi_b, v.Dsh, v.Dqz, v.Dc)
    p, q = vel(gass(k, v.K0, v.Kb, v.phi), g, d * (1 - v.phi) + v.Db * v.phi)
    m = lt(v.phi_b, v.phi)
    return ite(m, NAN, p), ite(m, NAN, q)


CSTA = lambda v, s: [v.phi_b, v.K0, v.D0, v.G0, v.phi, v.phi_c, v.Cn, v.Kc, v.Gc, v.Db, v.Kb, s, v.vsh, v.Dsh, v.Dqz, v.Dc]
CVP = lambda v: SOLID(v) + [v.phi_b <= v.phi_c]


def cal_v(v, s):
    K0, G0, D0 = mineral(v)
    cn = gm_cp(v.phi_c)
    k, g = modular.call(G['constantcement%d' % s], K0, G0, v.Kc, v.Gc, v.phi, v.phi_b, v.phi_c, cn)
    return vel(gass(k, K0, v.Kb, v.phi), g, D0 * (1 - v.phi) + v.Db * v.phi)


def gm_cp(phi):
    from .emp_c import C as E
    c = [x for x in E.values() if x.qual == 'Empirical.Cp'][0]
    return c.spec(Vars({list(c.vars)[0]: phi}))


CALV = lambda: dict(MINV(), phi_b=R('0.05', '0.65'), phi_c=R('0.15', '0.65'), vsh=VSH(), phi=R('0.001', '0.6'))
CALA = lambda v, s: [v.Dqz, v.Kqz, v.Gqz, v.Dsh, v.Ksh, v.Gsh, v.Dc, v.Kc, v.Gc, v.Db, v.Kb, v.phi_b, v.phi_c, v.vsh, v.phi, s]
for s in (1, 2):
    C['cst_vels%d' % s] = Contract('QI.cst_vels', CV(), lambda v, s=s: cst_vels(v, s), args=lambda v, s=s: CSTA(v, s), pre=CVP, scalar=False, vec=[('phi',)],
                                   uses=['GM.constantcement'], name='QI.cst_vels[scheme=%d]' % s)
    C['cal_v_const%d' % s] = Contract('QI.cal_v_const', CALV(), lambda v, s=s: cal_v(v, s), args=lambda v, s=s: CALA(v, s),
                                      pre=lambda v: POISSON(v) + SOLID(v) + [v.phi_b <= v.phi_c, v.phi <= v.phi_b], vec=[('phi',)], uses=['GM.constantcement'], name='QI.cal_v_const[scheme=%d]' % s)
    modular.register(C['cal_v_const%d' % s], params=['Dqz', 'Kqz', 'Gqz', 'Dsh', 'Ksh', 'Gsh', 'Dc', 'Kc', 'Gc', 'Db', 'Kb', 'phi_b', 'phi_c', 'vsh', 'phi'], static={'scheme': s})


# ------------------------------------------------------------------ cement diagnosis
def lines(v, j, seeds, s):
    return [modular.call(C['cal_v_const%d' % s], v.Dqz, v.Kqz, v.Gqz, v.Dsh, v.Ksh, v.Gsh, v.Dc, v.Kc, v.Gc, v.Db, v.Kb, v.phi_c - x, v.phi_c, v.vsh, v['phi%d' % j])[0] for x in seeds]


def cement(v, j, seeds, s):
    L = lines(v, j, seeds, s)
    vp = v['vp%d' % j]
    r = const(Fr(1, 10))
    for i in reversed(range(len(L) - 1)):
        a, b = seeds[i], seeds[i + 1]
        r = ite(lt(vp, L[i + 1]), a + (vp - L[i]) / (L[i + 1] - L[i]) * (b - a), r)
    return ite(le(vp, L[0]), const(0), r)


def cem_call(fn_, a, k):
    Vp, phi = a[:2]
    qi = fn_.__globals__['QI'](Vp, phi)
    if isinstance(Vp, arr.SObj):
        return fn_(qi, *a[2:], **k)
    return fn_(qi, *a[2:], **k)


for s in (1, 2):
    for nw, ns in ((1, 3), (2, 2)):
        sv = {'s1': R('0.005', '0.08')} if ns == 3 else {}
        seeds = (lambda v: [const(0), v.s1, const(Fr(1, 10))]) if ns == 3 else (lambda v: [const(0), const(Fr(1, 10))])
        C['estimate_cem%d%d' % (s, nw)] = Contract('QI.estimate_cem',
            dict(MINV(), phi_c=R('0.3', '0.6'), vsh=VSH(), Cn=R('2', '20'), **sv, **{'vp%d' % j: R('300', '9000') for j in range(nw)}, **{'phi%d' % j: R('0.01', '0.5') for j in range(nw)}),
            lambda v, s=s, nw=nw, seeds=seeds: mat([cement(v, j, seeds(v), s) for j in range(nw)]),
            args=lambda v, s=s, nw=nw, seeds=seeds: [mat([v['vp%d' % j] for j in range(nw)]), mat([v['phi%d' % j] for j in range(nw)]), mat(seeds(v)),
                                                     v.Kqz, v.Gqz, v.Ksh, v.Gsh, v.phi_c, v.Cn, v.Kc, v.Gc, v.Db, v.Kb, s, v.vsh, v.Dsh, v.Dqz, v.Dc],
            pre=lambda v, s=s, nw=nw, ns=ns, seeds=seeds: POISSON(v) + SOLID(v) + [v['phi%d' % j] <= v.phi_c - Fr(1, 10) for j in range(nw)] + [p for j in range(nw) for L in [lines(v, j, seeds(v), s)] for p in [lt(L[i], L[i + 1]) for i in range(ns - 1)]],
            uses=['QI.cal_v_const'], call=cem_call, name='QI.estimate_cem[scheme=%d, %d samples, %d lines]' % (s, nw, ns), twocall=False, ints=False)


for s in (1, 2):
    for ns in (2, 3, 4):
        sv = {'s%d' % (i + 1): R('0.005', '0.08') for i in range(ns - 2)}
        seeds = lambda v, ns=ns: [const(0)] + [v['s%d' % (i + 1)] for i in range(ns - 2)] + [const(Fr(1, 10))]
        C['estimate_cem_n%d%d' % (s, ns)] = Contract('QI.estimate_cem', dict(MINV(), phi_c=R('0.3', '0.6'), vsh=VSH(), Cn=R('2', '20'), **sv, vp0=R('300', '9000'), phi0=R('0.01', '0.5')),
            lambda v, s=s, seeds=seeds: cement(v, 0, seeds(v), s),
            args=lambda v, s=s, seeds=seeds: [v.vp0, v.phi0, mat(seeds(v)), v.Kqz, v.Gqz, v.Ksh, v.Gsh, v.phi_c, v.Cn, v.Kc, v.Gc, v.Db, v.Kb, s, v.vsh, v.Dsh, v.Dqz, v.Dc],
            pre=lambda v, s=s, ns=ns, seeds=seeds: POISSON(v) + SOLID(v) + [lt(seeds(v)[i], seeds(v)[i + 1]) for i in range(1, ns - 2)] + [v.phi0 <= v.phi_c - Fr(1, 10)] +
                [p for L in [lines(v, 0, seeds(v), s)] for p in [lt(L[i], L[i + 1]) for i in range(ns - 1)]],
            scalar=False, vec=[('vp0', 'phi0')], uses=['QI.cal_v_const'], call=cem_call, name='QI.estimate_cem[scheme=%d, N samples, %d lines]' % (s, ns), twocall=False, ints=False, lists=False)


# ------------------------------------------------------------------ plots: the drawn data are the model curves
class Rec:
    """stand-in for matplotlib objects; records the data of every plot/scatter call"""

    def __init__(self, log=None): self.log = [] if log is None else log

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)

        def f(*a, **k):
            if n in ('plot', 'scatter', 'pcolormesh', 'contour'):
                self.log.append((n, a, k))
            if n == 'subplots':
                return Rec(self.log), Rec(self.log)
            return Rec(self.log)
        return f

    def __iter__(self): return iter([Rec(self.log)])
    def __getitem__(self, k): return Rec(self.log)


def drawn(f, *a, **k):
    """call f with its module's pyplot replaced by a recorder -> [(kind, args, kwargs)]"""
    g = f.__globals__
    if load.REAL_PLOT:  # purity: what the function does to the real pyplot
        f(*a, **k)
        return []
    old, rec = g['plt'], Rec()
    g['plt'] = rec
    try:
        f(*a, **k)
    finally:
        g['plt'] = old
    return rec.log


def points(log, kinds=('plot',)):
    """set of all (x, y) drawn"""
    out = []
    for n, a, k in log:
        if n in kinds:
            x, y = np.broadcast_arrays(np.asarray(a[0], float), np.asarray(a[1], float))
            out += list(zip(x.ravel(), y.ravel()))
    return [p for p in out if p[1] == p[1]]


def unmatched(ps, qs):
    """a point of ps that no point of qs equals"""
    q = np.array(qs, dtype=float).reshape(-1, 2)
    for x, y in ps:
        if not len(q) or not np.any((np.abs(q[:, 0] - x) <= 1e-7 * (abs(x) + 1e-3)) & (np.abs(q[:, 1] - y) <= 1e-7 * (abs(y) + 1e-3))):
            return (float(x), float(y))


RPT = lambda: dict(k0=R('0.1', '30'), k1=R('0.1', '30'), g0=R('0.1', '100'), g1=R('0.1', '100'), K0=R('31', '120'), D0=R('1', '6'), Kb=R('0.1', '5'), Db=R('0.1', '2'),
                   Khc=R('0.001', '3'), Dhc=R('0.01', '2'), p0=R('0.001', '0.7'), p1=R('0.001', '0.7'), s0=FRAC(), s1=FRAC())


def rpt_point(k, g, phi, sw, v):
    kf, df = 1 / (sw / v.Kb + (1 - sw) / v.Khc), sw * v.Db + (1 - sw) * v.Dhc
    rho = (1 - phi) * v.D0 + phi * df
    p, q = vel(gass(k, v.K0, kf, phi), g, rho)
    return p * rho, p / q


def rpt(v):
    z = [[rpt_point(k, g, p, s, v) for k, g, p in ((v.k0, v.g0, v.p0), (v.k1, v.g1, v.p1))] for s in (v.s0, v.s1)]
    return [mat([[y[c] for y in row] for row in z]) for c in (0, 1)]


def rpt_call(f, a, k):
    for n, b, _ in drawn(f, *a, **k):
        if n == 'plot' and np.ndim(b[0]) == 2:
            return [b[0], b[1]]
    raise s_.Unsupported('no two-dimensional plot call')


def rpt_search(seed, n, wit=()):
    import random
    from vc import load, rt
    f = load.real_func('QI.plot_rpt')
    rng = random.Random(seed)
    from .em_c import hybrids
    hyb = list(hybrids(wit, dict(k0=5.0, k1=12.0, g0=4.0, g1=11.0, K0=37.0, D0=2.65, Kb=2.5, Db=1.0, Khc=.1, Dhc=.2, p0=.3, p1=.15, s0=.2, s1=.8)))
    for t in range(-len(hyb), n):
        a, b = rng.randint(1, 4), rng.randint(1, 4)
        u = lambda lo, hi, m: np.array([rng.uniform(lo, hi) for _ in range(m)])
        kd, gd, phi, sw = u(.1, 30, a), u(.1, 100, a), u(.001, .7, a), u(0, 1, b)
        K0, D0, Kb, Db, Khc, Dhc = [rng.uniform(*x) for x in ((31, 120), (1, 6), (.1, 5), (.1, 2), (.001, 3), (.01, 2))]
        if t < 0:
            a = b = 2
            kd, gd, phi, sw = [np.array([hyb[t][c + '0'], hyb[t][c + '1']]) for c in 'kgps']
            K0, D0, Kb, Db, Khc, Dhc = [hyb[t][c] for c in ('K0', 'D0', 'Kb', 'Db', 'Khc', 'Dhc')]
        args = (kd, gd, K0, D0, Kb, Db, Khc, Dhc, phi, sw)
        b4 = [np.copy(x) for x in args]
        v = Vars(K0=K0, D0=D0, Kb=Kb, Db=Db, Khc=Khc, Dhc=Dhc)
        exp = []
        for i in range(a):
            for j in range(b):
                kf, df = 1 / (sw[j] / Kb + (1 - sw[j]) / Khc), sw[j] * Db + (1 - sw[j]) * Dhc
                rho = (1 - phi[i]) * D0 + phi[i] * df
                ks = kd[i] + (1 - kd[i] / K0) ** 2 / (phi[i] / kf + (1 - phi[i]) / K0 - kd[i] / K0 ** 2)
                vp, vs = 1000 * ((ks + 4 / 3 * gd[i]) / rho) ** .5, 1000 * (gd[i] / rho) ** .5
                exp.append((vp * rho, vp / vs))
        try:
            got = points(drawn(f, *args))
        except Exception as ex:
            return t, ('raises %r' % ex, {'args': rt.plain(args)})
        if not all(np.array_equal(x, y) for x, y in zip(b4, args)):
            return t, ('arguments modified', {'args': rt.plain(b4)})
        m = unmatched(got, exp) or unmatched(exp, got)
        if m:
            return t, ('template point %s is drawn but not predicted, or predicted but not drawn' % (m,), {'args': rt.plain(args)})
    return n, None


C['plot_rpt'] = Contract('QI.plot_rpt', RPT(), rpt, args=lambda v: [mat([v.k0, v.k1]), mat([v.g0, v.g1]), v.K0, v.D0, v.Kb, v.Db, v.Khc, v.Dhc, mat([v.p0, v.p1]), mat([v.s0, v.s1])],
                         call=rpt_call, search=rpt_search, name='QI.plot_rpt[2 porosities, 2 saturations]')


def plot_inputs(seed, n, wit=()):
    """random inputs of the plotting methods, with the curves and points that they have to draw"""
    import random
    from vc import load
    rng = random.Random(seed + 5)
    u = lambda a, b: rng.uniform(a, b)
    QIc = load.real_func('QI')
    from .em_c import hybrids
    hyb = [h for h in hybrids(wit, dict(Dqz=2.65, Kqz=37.0, Gqz=44.0, Dsh=2.5, Ksh=21.0, Gsh=7.0, Dc=2.7, Kc=50.0, Gc=30.0, Db=1.0, Kb=2.2, phib=.3, b0=.31, b1=.28, phi_c=.4, sigma=20.0,
                                        vsh=.1, Cn=8.0, f=.5)) if max(h['phib'], h['b0'], h['b1']) <= h['phi_c'] - .02 and h['phi_c'] + h['vsh'] < .98][:30]
    for t in range(-2 * len(hyb), max(4, n // 6)):
        m = dict(Dqz=u(2, 3), Kqz=u(30, 90), Gqz=u(25, 45), Dsh=u(2, 3), Ksh=u(10, 25), Gsh=u(4, 11), Dc=u(2, 3), Kc=u(30, 70), Gc=u(25, 45), Db=u(.5, 1.2), Kb=u(.1, 3))
        M = list(m.values())
        phi_c, sigma, vsh, Cn, f, sch = u(.34, .45), u(1, 80), rng.choice((0, u(0, .4))), u(4, 12), u(0, 1), rng.choice((1, 2))
        phib, pbs = u(.2, .339), [u(.2, .339) for _ in range(rng.randint(1, 4))]
        if t < 0:
            h = hyb[t // 2]
            m, pbs, sch = {k: h[k] for k in m}, [h['b0'], h['b1']], 1 + t % 2
            M = list(m.values())
            phi_c, sigma, vsh, Cn, f, phib = [h[k] for k in ('phi_c', 'sigma', 'vsh', 'Cn', 'f', 'phib')]
        k = rng.randint(3, 8)
        X = np.array([u(.02, .4) for _ in range(k)])
        Y = np.array([u(1500, 6000) for _ in range(k)])
        q = QIc(Y, X, Vsh=np.array([u(0, 1) for _ in range(k)]), Vs=Y / u(1.6, 2.5))
        K0 = .5 * (vsh * m['Ksh'] + (1 - vsh) * m['Kqz'] + 1 / (vsh / m['Ksh'] + (1 - vsh) / m['Kqz']))
        G0 = .5 * (vsh * m['Gsh'] + (1 - vsh) * m['Gqz'] + 1 / (vsh / m['Gsh'] + (1 - vsh) / m['Gqz']))
        D0 = vsh * m['Dsh'] + (1 - vsh) * m['Dqz']
        phi, v1, v2, v3 = QIc.screening(*M, phib, phi_c, sigma, vsh, sch, f, Cn)[:4]
        cst = [QIc.cst_vels(b, K0, D0, G0, phi, phi_c, Cn, m['Kc'], m['Gc'], m['Db'], m['Kb'], sch, vsh, m['Dsh'], m['Dqz'], m['Dc'])[0] for b in pbs]
        vcem = np.array([u(0, .1) for _ in range(k)])
        yield q, phi, (v1, v2, v3), cst, vcem, M + [phib, pbs, phi_c, sigma, vsh, Cn, sch, f]


def plot_search(name, make):
    """make(inputs) -> args, {kind: expected points}"""
    def search(seed, n, wit=()):
        from vc import load, rt
        calls = 0
        for inp in plot_inputs(seed, n, wit):
            a, exp = make(*inp)
            try:
                log = drawn(getattr(load.real_func('QI'), name), *a)
            except Exception as ex:
                return calls, ('raises %r' % ex, {'args': rt.plain(a)})
            calls += 1
            for kind, e in exp.items():
                got = points(log, (kind,))
                x = unmatched(got, e) or unmatched(e, got)
                if x:
                    return calls, ('%s point %s is drawn but not predicted, or predicted but not drawn' % (kind, x), {'args': rt.plain(a)})
            if 'color' in exp or name == 'screening_plot' or name == 'cement_diag_plot':
                want = inp[4] if name == 'cement_diag_plot' else 1 - inp[0].Vsh
                cs = [k.get('c', a_[3] if len(a_) > 3 else None) for kd, a_, k in log if kd == 'scatter']
                if len(cs) == 1 and cs[0] is not None and not isinstance(cs[0], str) and (np.size(cs[0]) != np.size(want) or not np.allclose(np.ravel(cs[0]), want, rtol=1e-9)):
                    return calls, ('points are coloured by other values', {'args': rt.plain(a)})
        return calls, None
    return search


def curve(phi, *ys): return [(x, y) for z in ys for x, y in zip(phi, z) if y == y]


def leaves_drawn(log, kinds):
    """the drawn data in drawing order: x, y (and colour) of each call"""
    out = []
    for n, a, k in log:
        if n in kinds:
            out += list(a[:2])
            if n == 'scatter':
                out.append(k['c'] if 'c' in k else a[3])
            if n in ('pcolormesh', 'contour'):
                out.append(a[2])
    return tuple(out)


def qi_call(f, a, k):
    """a = ((Vp, phi, {attributes}), arguments...): the method on a QI object made from the first"""
    o, rest = a[0], a[1:]
    q = f.__globals__['QI'](o[0], o[1], **o[2])
    return leaves_drawn(drawn(f, q, *rest, **k), ('plot', 'scatter'))


DATA = lambda: dict(dvp=R('1', '10000'), dphi=R('0', '1'), dcol=R('0', '1'))
CUR = lambda: dict(phi=R('0', '1'), v1=R('0', '10000'), v2=R('0', '10000'), v3=R('0', '10000'))
ALLV = tuple(list(DATA()) + list(CUR()))
C['screening_plot'] = Contract('QI.screening_plot', dict(DATA(), **CUR()), lambda v: (v.phi, v.v3, v.phi, v.v1, v.phi, v.v2, v.dphi, v.dvp, 1 - v.dcol),
    args=lambda v: [(v.dvp, v.dphi, dict(Vsh=v.dcol)), v.phi, v.v1, v.v2, v.v3], scalar=False, vec=[ALLV], call=qi_call, name='QI.screening_plot[drawn data]', twocall=False,
    search=plot_search('screening_plot', lambda q, phi, vs, cst, vcem, tail: ((q, phi) + vs, {'plot': curve(phi, *vs), 'scatter': list(zip(q.phi, q.Vp))})))
PLOTV = lambda: dict(MINV(), phib=R('0.05', '0.6'), b0=R('0.05', '0.6'), b1=R('0.05', '0.6'), phi_c=R('0.15', '0.65'), sigma=R('0.01', '500'), vsh=VSH(), Cn=R('2', '20'), f=FRAC(), idx=N('0', '99'))
PLOTP = lambda v: SOLID(v) + [v.phib <= v.phi_c, v.b0 <= v.phi_c, v.b1 <= v.phi_c]
PLOTA = lambda v, s: [v.Dqz, v.Kqz, v.Gqz, v.Dsh, v.Ksh, v.Gsh, v.Dc, v.Kc, v.Gc, v.Db, v.Kb, v.phib, [v.b0, v.b1], v.phi_c, v.sigma, v.vsh, v.Cn, s, v.f]


def cst_lines(v, s):
    g = screening(v, s)
    phi, p1, p3 = g[0], g[1], g[3]
    K0, G0, D0 = mineral(v)
    q = [cst_vels(Vars(dict(v, phi_b=b, K0=K0, D0=D0, G0=G0, phi=phi)), s)[0] for b in (v.b0, v.b1)]
    return phi, p3, phi, p1, phi, q[0], phi, q[1]


for s in (1, 2):
    C['cst_plot%d' % s] = Contract('QI.cst_plot', PLOTV(), lambda v, s=s: cst_lines(v, s), args=lambda v, s=s: PLOTA(v, s), pre=PLOTP, ext=grid_ext, twocall=False,
        call=lambda f, a, k: leaves_drawn(drawn(f, *a, **k), ('plot', 'scatter')), uses=['GM.softsand', 'GM.MUHS', 'GM.contactcement', 'GM.constantcement'],
        name='QI.cst_plot[drawn data, scheme=%d, 2 lines]' % s, budget=200,
        search=plot_search('cst_plot', lambda q, phi, vs, cst, vcem, tail: (tail, {'plot': curve(phi, vs[0], vs[2], *cst), 'scatter': []})))
    C['cement_diag_plot%d' % s] = Contract('QI.cement_diag_plot', dict(PLOTV(), **DATA()), lambda v, s=s: cst_lines(v, s) + (v.dphi, v.dvp, v.dcol),
        args=lambda v, s=s: [(v.dvp, v.dphi, {}), v.dcol] + PLOTA(v, s), pre=PLOTP, ext=grid_ext, twocall=False, scalar=False, vec=[tuple(DATA())],
        call=qi_call, uses=['GM.softsand', 'GM.MUHS', 'GM.contactcement', 'GM.constantcement'], name='QI.cement_diag_plot[drawn data, scheme=%d, 2 lines]' % s, budget=200,
        search=plot_search('cement_diag_plot', lambda q, phi, vs, cst, vcem, tail: ([q, vcem] + tail, {'plot': curve(phi, vs[0], vs[2], *cst), 'scatter': list(zip(q.phi, q.Vp))})))


# ------------------------------------------------------------------ density plot (kernel density estimator: trusted, external)
def kde_call(f, a, k):
    o, den_, rest = a[0], a[1], a[2:]
    g = f.__globals__
    q = g['QI'](o[0], o[1], **o[2])
    old = g['kde2d']

    def kde(x, y, n=None, limits=None):
        if x is not o[0 + 1] or y is not (o[0] if k.get('vels', 'Vp') == 'Vp' else o[2]['Vs']) or limits is not None or n not in (None, k.get('n', 64)):
            raise AssertionError('density of other data')
        return den_.copy(), (den_[0] * 0 + 1, den_[0] * 0 + 2), None
    g['kde2d'] = kde
    try:
        log = drawn(f, q, *rest, **k)
    finally:
        g['kde2d'] = old
    return leaves_drawn(log, ('plot', 'scatter', 'pcolormesh', 'contour'))


def kde_spec(v):
    d = [[v.d00, v.d01], [v.d10, v.d11]]
    m = smax(smax(v.d00, v.d01), smax(v.d10, v.d11))
    t = lambda x: ite(lt(x / m, const(Fr(1, 10000))), const(0), x / m)
    den_ = mat([[t(d[0][0]), t(d[1][0])], [t(d[0][1]), t(d[1][1])]])
    g = (mat([const(1), const(1)]), mat([const(2), const(2)]), den_)
    return (v.phi, v.v3, v.phi, v.v1, v.phi, v.v2) + g + g


def kde_search(seed, n):
    from vc import load, rt
    f = load.real_func('QI.kde_plot')
    kde2d = f.__globals__['kde2d']
    calls = 0
    for t, (q, phi, vs, cst, vcem, tail) in enumerate(plot_inputs(seed, n)):
        if t > 5:
            break
        which = ('Vp', 'Vs')[t % 2]
        rng = np.random.RandomState(seed + t)
        X = np.clip(rng.normal(.25, .06, 60), .01, .5)
        q = type(q)(5000 - 6000 * X + rng.normal(0, 200, 60), X, Vs=2800 - 4000 * X + rng.normal(0, 150, 60))
        a = (q, phi) + vs
        try:
            d, g, _ = kde2d(q.phi, getattr(q, which), n=64, limits=None)
        except Exception:
            continue                                      # the estimator (external) does not converge for these points
        try:
            log = drawn(f, *a, vels=which)
        except Exception as ex:
            return calls, ('raises %r' % ex, {'args': rt.plain(a)})
        calls += 1
        d = d / d.max()
        d[d < 1e-4] = 0
        got, exp = points(log), curve(phi, *vs)
        x = unmatched(got, exp) or unmatched(exp, got)
        if x:
            return calls, ('curve point %s is drawn but not predicted, or predicted but not drawn' % (x,), {'args': rt.plain(a), 'vels': which})
        for kd, b, k in log:
            if kd in ('pcolormesh', 'contour'):
                if not (np.allclose(b[0], g[0]) and np.allclose(b[1], g[1]) and np.allclose(np.asarray(b[2]), d.T, atol=2e-8, rtol=1e-6)):
                    return calls, ('%s does not show the density normalised to maximum 1' % kd, {'args': rt.plain(a), 'vels': which})
    return calls, None


for w in ('Vp', 'Vs'):
    C['kde_plot_' + w] = Contract('QI.kde_plot', dict(DATA(), **CUR(), **{k: R('0', '1') for k in ('d00', 'd01', 'd10')}, d11=R('0.001', '1')), kde_spec,
        args=lambda v: [(v.dvp, v.dphi, dict(Vs=v.dcol)), mat([[v.d00, v.d01], [v.d10, v.d11]]), v.phi, v.v1, v.v2, v.v3], kwargs=lambda v, w=w: dict(vels=w),
        scalar=False, vec=[ALLV], call=kde_call, twocall=False, search=kde_search, name='QI.kde_plot[drawn data, %s]' % w)
