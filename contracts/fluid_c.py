"""Contracts: rockphypy.Fluid (fluid substitution and dispersion)."""
from .base import *
from .utils_c import m6, iso

C = {}
RHF = lambda: R('0.001', '2')
KF = lambda: R('0.0005', '10')
PHI = lambda: R('0.001', '0.7')
G_ = lambda: R('0', '150')
VISC = lambda: R('0.0001', '1')
PERM = lambda: R('1e-15', '1e-10')

C['Brie'] = Contract('Fluid.Brie', dict(Kw=R('0.5', '10'), Kgas=R('0.0001', '10'), Sw=R('0', '1'), e=R('0.5', '40')),
                     lambda v: v.Kgas + (v.Kw - v.Kgas) * v.Sw ** v.e, vec=[('Sw',), ('Kw', 'Kgas', 'Sw')], ints=False)
C['Brie_voigt'] = Contract('Fluid.Brie', dict(Kw=R('0.5', '10'), Kgas=R('0.0001', '10'), Sw=R('0', '1')),
                           lambda v: v.Sw * v.Kw + (1 - v.Sw) * v.Kgas, args=lambda v: [v.Kw, v.Kgas, v.Sw, 1], name='Fluid.Brie[e=1 is the Voigt average]', vec=[('Sw',)])


# ------------------------------------------------------------------ Gassmann
def gassmann(Kd, K0, Kf, phi):
    """Ksat/(K0-Ksat) = Kdry/(K0-Kdry) + Kf/(phi (K0-Kf)), solved for Ksat"""
    n, d = Kd * phi * (K0 - Kf) + Kf * (K0 - Kd), (K0 - Kd) * phi * (K0 - Kf)       # over the common denominator, so that phi = 0 is included
    return K0 * n / (n + d)


def gsub(K0, K1, f1, f2, phi):
    x = K1 / (K0 - K1) - f1 / (phi * (K0 - f1)) + f2 / (phi * (K0 - f2))
    return K0 * x / (1 + x)


def sat2dry(K0, Ks, f, phi):
    x = Ks / (K0 - Ks) - f / (phi * (K0 - f))
    return K0 * x / (1 + x)


FR = lambda: R('0', '150')
PHI0 = lambda: R('0', '0.7')
MIN = lambda: R('10.5', '500')
KDP = lambda v: [v.Kd < v.K0]
C['Gassmann'] = Contract('Fluid.Gassmann', dict(Kd=FR(), Gd=G_(), K0=MIN(), Kf=KF(), phi=PHI0()), lambda v: (gassmann(v.Kd, v.K0, v.Kf, v.phi), v.Gd), pre=KDP,
                         vec=[('Kd', 'Gd', 'phi'), ('Kf',), ('Kd', 'Gd', 'K0', 'Kf', 'phi')], int_arrays=False)
SUBV = lambda: dict(phi=PHI(), K0=MIN(), K1=R('0.2', '190'), f1=KF(), f2=KF())
# the initial saturated rock is one that some dry frame has: positive dry modulus
SUBP = lambda v: [v.K1 * 10000 < v.K0 * 9999, v.K1 * v.phi * (v.K0 - v.f1) > v.f1 * (v.K0 - v.K1) * Fr(101, 100)]
C['Gassmann_sub'] = Contract('Fluid.Gassmann_sub', SUBV(), lambda v: gassmann(sat2dry(v.K0, v.K1, v.f1, v.phi), v.K0, v.f2, v.phi),
                             args=lambda v: [v.phi, v.K0, v.K1, v.f1, v.f2], pre=SUBP, vec=[('phi', 'K1'), ('f2',), ('phi', 'K0', 'K1', 'f1', 'f2')])
C['Gassmann_approx'] = Contract('Fluid.Gassmann_approx', dict(M1=R('0.5', '250'), M0=R('11', '300'), f1=KF(), phi=PHI(), f2=KF()),
                                lambda v: gassmann(sat2dry(v.M0, v.M1, v.f1, v.phi), v.M0, v.f2, v.phi),
                                pre=lambda v: [v.M1 * 100 < v.M0 * 99, v.M1 * v.phi * (v.M0 - v.f1) > v.f1 * (v.M0 - v.M1) * Fr(101, 100)], vec=[('M1',), ('M1', 'phi'), ('f2',)])


def vels(v):
    rho = (1 - v.phi) * v.D0 + v.phi * v.Df
    K = gassmann(v.Kd, v.K0, v.Kf, v.phi)
    return sqrt((K + Fr(4, 3) * v.Gd) / rho) * 1000, sqrt(v.Gd / rho) * 1000, rho


C['vels'] = Contract('Fluid.vels', dict(Kd=FR(), Gd=G_(), K0=MIN(), D0=R('1', '8'), Kf=KF(), Df=RHF(), phi=PHI0()), vels, pre=KDP,
                     vec=[('phi',), ('Kd', 'Gd', 'phi'), ('Kf', 'Df')])


def gvels(v):
    G = v.rho1 * v.Vs1 ** 2
    K1 = v.rho1 * v.Vp1 ** 2 - Fr(4, 3) * G
    K2 = gassmann(sat2dry(v.K0, K1, v.Kfl1, v.phi), v.K0, v.Kfl2, v.phi)
    rho2 = v.rho1 + v.phi * (v.rhofl2 - v.rhofl1)
    return sqrt((K2 + Fr(4, 3) * G) / rho2), sqrt(G / rho2)


def gvels_pre(v):
    K1 = v.rho1 * (v.Vp1 ** 2 - Fr(4, 3) * v.Vs1 ** 2)
    return [K1 > Fr(1, 5), K1 * 10000 < v.K0 * 9999, v.rho1 > v.phi * v.rhofl1 + Fr(1, 10), K1 * v.phi * (v.K0 - v.Kfl1) > v.Kfl1 * (v.K0 - K1) * Fr(101, 100)]


C['Gassmann_vels'] = Contract('Fluid.Gassmann_vels', dict(Vp1=R('0.8', '9'), Vs1=R('0', '6'), rho1=R('1.5', '6'), rhofl1=RHF(), Kfl1=KF(), rhofl2=RHF(),
                              Kfl2=KF(), K0=MIN(), phi=PHI()), gvels, pre=gvels_pre, vec=[('Vp1', 'Vs1', 'rho1'), ('rhofl2', 'Kfl2')])


# ------------------------------------------------------------------ Brown-Korringa
def bk(S, K0, G0, Kf, phi, sign):
    """Voigt 6x6; sign=+1 dry->saturated, -1 saturated->dry"""
    b0 = 1 / (3 * K0)
    row = [S[0][j] + S[1][j] + S[2][j] - (b0 if j < 3 else 0) for j in range(6)]
    beta = sum(S[i][j] for i in range(3) for j in range(3))
    den = (1 / Kf - 1 / K0) * phi + sign * (beta - 1 / K0)
    return [[S[i][j] - sign * row[i] * row[j] / den for j in range(6)] for i in range(6)]


def sym6(v, p='s'):
    return [[v['%s%d%d' % ((p,) + tuple(sorted((i, j))))] for j in range(6)] for i in range(6)]


def bkvars():
    d = {}
    for i in range(6):
        for j in range(i, 6):
            if i == j:
                d['s%d%d' % (i, j)] = R('0.005', '0.5')
            elif j < 3:
                d['s%d%d' % (i, j)] = R('-0.15', '0.05')
            else:
                d['s%d%d' % (i, j)] = R('-0.05', '0.05')
    return dict(d, K0=MIN(), G0=R('5', '150'), Kf=KF(), phi=PHI())


def betaS(v): return sum(sym6(v)[i][j] for i in range(3) for j in range(3))


for nm, sg in (('dry2sat', 1), ('sat2dry', -1)):
    C['BK_' + nm] = Contract('Fluid.Brown_Korringa_' + nm, bkvars(), lambda v, sg=sg: mat(bk(sym6(v), v.K0, v.G0, v.Kf, v.phi, sg)),
        args=lambda v: [mat(sym6(v)), v.K0, v.G0, v.Kf, v.phi],
        pre=lambda v, sg=sg: [betaS(v) > 1 / v.K0 + Fr(1, 100)] + ([(1 / v.Kf - 1 / v.K0) * v.phi > (betaS(v) - 1 / v.K0) * Fr(11, 10)] if sg < 0 else []), budget=120)


def c_vti(v):
    return m6((v.C11, v.C11, v.C33), v.C11 - 2 * v.C66, v.C13, v.C13, (v.C44, v.C44, v.C66))


def rows(m): return [list(r) for r in np.asarray(m.view(np.ndarray))]


def bksub(v):
    S1 = rows(arr.inverse(c_vti(v)))
    Sd = bk(S1, v.K0, v.G0, v.f1, v.phi, -1)
    S2 = bk(Sd, v.K0, v.G0, v.f2, v.phi, 1)
    S2 = mat(S2)
    return arr.inverse(S2), S2


def bksub_pre(v):
    # isotropic compressibility of the saturated rock between mineral and Reuss values
    D_ = v.C33 * (v.C11 - v.C66) - v.C13 ** 2
    beta = (v.C11 - v.C66 + v.C33 - 2 * v.C13) / D_
    return [D_ > 1, beta > 1 / v.K0 + Fr(1, 200), (1 / v.f1 - 1 / v.K0) * v.phi > (beta - 1 / v.K0) * Fr(11, 10), v.C11 > 2 * v.C66]


C['BK_sub'] = Contract('Fluid.Brown_Korringa_sub', dict(C11=R('2', '150'), C33=R('2', '150'), C13=R('-5', '80'), C44=R('0.1', '60'), C66=R('0.1', '60'),
                       K0=MIN(), G0=R('5', '150'), f1=KF(), f2=KF(), phi=PHI()), bksub, args=lambda v: [c_vti(v), v.K0, v.G0, v.f1, v.f2, v.phi],
                       pre=bksub_pre, budget=200, vec=[])


# any symmetry: the 21 stiffnesses are opaque, numpy.linalg.inv is under the assumed contract inv(C) = S (21 ghost constants) and
# inv(S2) = Z (ghost); proved: S2 is the Brown-Korringa compliance of S, the second result is S2 and the first is the inverse of S2
INVD = []


def bkg_inv(v):
    def inv(m):
        rows_ = [[S(x) for x in r] for r in m]
        if all(rows_[i][j] is S(sym6(v, 'c')[i][j]) for i in range(6) for j in range(6)):
            return mat(sym6(v, 's'))
        if len(rows_) == 6 and INVD == []:
            INVD.append(mat(rows_))
            return mat(sym6(v, 'z'))
        return None
    return {'inv': inv}


def bkg_call(f, a, k):
    INVD[:] = []
    r = f(*a, **k)
    if not INVD:
        raise s_.Unsupported('no dense inverse')
    return r[0], r[1], INVD[0]


bkg_call.solver = True


def bkg(v):
    S2 = mat(bk(bk(sym6(v), v.K0, v.G0, v.f1, v.phi, -1), v.K0, v.G0, v.f2, v.phi, 1))
    return mat(sym6(v, 'z')), S2, S2


def bkg_search(seed, n, wit=()):
    from vc import load, rt
    f = load.real_func('Fluid.Brown_Korringa_sub')
    rng = np.random.default_rng(seed + 11)
    for t in range(max(12, n) + 2 * len(wit)):
        K0, G0, phi, f1, f2 = rng.uniform(20, 120), rng.uniform(10, 80), rng.uniform(.02, .5), 10 ** rng.uniform(-3, .9), 10 ** rng.uniform(-3, .9)
        f2 = [f2, f1, f1 * (1 + 1e-3), f2][t % 4]
        a = rng.normal(size=(6, 6)) * 10 ** rng.uniform(-2, 0)
        q = np.linalg.inv(np.diag([30., 30, 30, 10, 10, 10]) * rng.uniform(.1, 1)) + .01 * a @ a.T        # a dry compliance
        w = wit[t // 2] if t < 2 * len(wit) else {}
        K0, G0, phi, f1, f2 = [float(w.get(k, x)) for k, x in (('K0', K0), ('G0', G0), ('phi', phi), ('f1', f1), ('f2', f2))]
        if t % 2 and w and all('s%d%d' % (i, j) in w for i in range(6) for j in range(i, 6)):
            one = np.array([[float(w['s%d%d' % (min(i, j), max(i, j))]) for j in range(6)] for i in range(6)])
            q = bkf(one, K0, f1, phi, -1)
        if q[:3, :3].sum() < 1.2 / K0 or np.linalg.cond(q) > 1e4:
            continue
        one, two = bkf(q, K0, f1, phi), bkf(q, K0, f2, phi)
        if max(np.linalg.cond(one), np.linalg.cond(two)) > 1e4:
            continue
        C1 = np.linalg.inv(one)
        C1 = (C1 + C1.T) / 2
        if t % 3 == 1:
            C1 = np.asfortranarray(C1)
        c0 = C1.copy()
        args = (C1, K0, G0, f1, f2, phi)
        try:
            g, s = f(*args)
        except Exception as ex:
            return t, ('raises %r' % ex, {'args': rt.plain(args)})
        if not np.array_equal(c0, C1):
            return t, ('arguments modified by the call', {'args': rt.plain(args)})
        C2 = np.linalg.inv(two)
        for nm, x, y in (('stiffness', g, C2), ('compliance', s, two)):
            if np.shape(x) != (6, 6) or not np.all(np.abs(np.asarray(x) - y) <= 1e-6 * np.abs(y).max()):
                return t, ('%s %s is not that of the same dry rock with the second fluid: %s' % (nm, rt.plain(x), rt.plain(y)), {'args': rt.plain(args)})
    return n, None


def bkf(S_, K0, Kf, phi, sign=1):
    b = 1 / K0
    r = S_[:3].sum(axis=0) - np.array([b / 3] * 3 + [0] * 3)
    return S_ - sign * np.outer(r, r) / ((1 / Kf - b) * phi + sign * (S_[:3, :3].sum() - b))


def bkgvars():
    d = bkvars()
    d.pop('Kf')
    for i in range(6):
        for j in range(i, 6):
            d['c%d%d' % (i, j)] = R('50', '150') if i == j else R('-20', '20')
            d['z%d%d' % (i, j)] = R('50', '150') if i == j else R('-20', '20')
    return dict(d, f1=KF(), f2=KF())


def bkg_pre(v):
    return [betaS(v) > 1 / v.K0 + Fr(1, 100), (1 / v.f1 - 1 / v.K0) * v.phi > (betaS(v) - 1 / v.K0) * Fr(11, 10)]


C['BK_sub_any'] = Contract('Fluid.Brown_Korringa_sub', bkgvars(), bkg, args=lambda v: [mat(sym6(v, 'c')), v.K0, v.G0, v.f1, v.f2, v.phi], pre=bkg_pre, ext=bkg_inv, call=bkg_call,
                           search=bkg_search, vec=[], budget=200, runtime=False, name='Fluid.Brown_Korringa_sub[any symmetry]')


# ------------------------------------------------------------------ Biot and relatives
def biot(v):
    rho = (1 - v.phi) * v.rho0 + v.phi * v.rhofl
    D_ = v.K0 * (1 + v.phi * (v.K0 / v.Kfl - 1))
    M = v.K0 ** 2 / (D_ - v.Kdry)
    Cc = (v.K0 - v.Kdry) * v.K0 / (D_ - v.Kdry)
    H = v.Kdry + Fr(4, 3) * v.Gdry + (v.K0 - v.Kdry) ** 2 / (D_ - v.Kdry)
    w = 2 * PI * v.freq
    z = sqrt(w * v.a ** 2 * v.rhofl / v.eta)
    ph = exp(-I * PI / 4)
    T = ite(le(z, const(1000)), exp(3 * I * PI / 4) * fn('jv', const(1), z * ph) / fn('jv', const(0), z * ph), (1 + I) / sqrt(2))
    F = ite(lt(z, const(Fr(1, 10))), const(1), z * T / (4 * (1 + 2 * I * T / z)))
    q = v.alpha * v.rhofl / v.phi - I * v.eta * F / (w * v.kapa)
    A, B, Cq = Cc ** 2 - M * H, H * q + M * rho - 2 * Cc * v.rhofl, v.rhofl ** 2 - rho * q
    dis = sqrt(B ** 2 - 4 * A * Cq)
    s1, s2, s3 = (-B + dis) / (2 * A), (-B - dis) / (2 * A), (rho * q - v.rhofl ** 2) / (v.Gdry * q)
    vel = lambda s: 1 / s_.re(sqrt(s))
    qi = lambda s: s_.im(1 / s) / s_.re(1 / s)
    return vel(s1), vel(s2), vel(s3), qi(s1), qi(s2), qi(s3)


BIO = lambda: dict(Kdry=R('0.01', '300'), Gdry=R('0.01', '300'), K0=R('10.5', '500'), Kfl=R('0.0005', '10'), rho0=R('1', '8'), rhofl=R('0.001', '2'))
BKD = lambda v: [v.Kdry < (1 - v.phi) * v.K0 * Fr(99, 100)]
C['Biot'] = Contract('Fluid.Biot', dict(BIO(), eta=R('0.00001', '1'), phi=R('0.001', '0.9'), kapa=R('0.000001', '10'), a=R('0.0001', '10'), alpha=R('1', '10'),
                     freq=R('0.0001', '1e9')), biot, pre=BKD, scalar=False, vec=[('freq',)], budget=240, rtol=1e-6, groupscale=True)


def biot_hf(v):
    rho = (1 - v.phi) * v.rho0 + v.phi * v.rhofl
    r12 = (1 - v.alpha) * v.phi * v.rhofl
    r22, r11 = v.alpha * v.phi * v.rhofl, (1 - v.phi) * v.rho0 - r12
    N_ = (1 - v.phi) - v.Kdry / v.K0 + v.phi * v.K0 / v.Kfl
    P = ((1 - v.phi) * (1 - v.phi - v.Kdry / v.K0) * v.K0 + v.phi * v.Kdry * v.K0 / v.Kfl) / N_ + Fr(4, 3) * v.Gdry
    Q = (1 - v.phi - v.Kdry / v.K0) * v.phi * v.K0 / N_
    Rr = v.phi ** 2 * v.K0 / N_
    De = P * r22 + Rr * r11 - 2 * Q * r12
    a, b = r11 * r22 - r12 ** 2, P * Rr - Q ** 2
    dis = sqrt(De ** 2 - 4 * a * b)
    return sqrt((De + dis) / (2 * a)), sqrt((De - dis) / (2 * a)), sqrt(v.Gdry / (rho - v.phi * v.rhofl / v.alpha))


C['Biot_HF'] = Contract('Fluid.Biot_HF', dict(BIO(), phi=R('0.001', '0.9'), alpha=R('1.001', '10')), biot_hf, vec=[('phi',), ('Kfl', 'rhofl')],
                        pre=BKD, budget=100)


def gs_hf(v):
    rho = (1 - v.phi) * v.rho0 + v.phi * v.rhofl
    b = 1 - v.Kdry / v.K0
    den = (1 - v.phi) * v.rho0 + v.phi * v.rhofl * (1 - 1 / v.alpha)
    return (sqrt((v.Kdry + Fr(4, 3) * v.Gdry + (v.phi * rho / (v.rhofl * v.alpha) + b * (b - 2 * v.phi / v.alpha)) / ((b - v.phi) / v.K0 + v.phi / v.Kfl)) / den),
            sqrt(v.Gdry / den))


C['Geertsma_Smit_HF'] = Contract('Fluid.Geertsma_Smit_HF', dict(BIO(), phi=R('0.001', '0.9'), alpha=R('1', '10')), gs_hf, vec=[('phi',), ('Kfl', 'rhofl')],
                                 pre=BKD)


def gs_lf(v):
    fc = v.phi * v.eta / (2 * PI * v.rhofl * v.kapa)
    x = (fc / v.freq) ** 2
    return sqrt((v.Vpinf ** 4 + v.Vp0 ** 4 * x) / (v.Vpinf ** 2 + v.Vp0 ** 2 * x))


C['Geertsma_Smit_LF'] = Contract('Fluid.Geertsma_Smit_LF', dict(Vp0=R('0.3', '8'), Vpinf=R('0.3', '8'), freq=R('0.001', '1e8'), phi=PHI(), rhofl=RHF(), kapa=PERM(),
                                 eta=VISC()), gs_lf, vec=[('freq',)])


def mj(v):
    G = v.rhodry * v.Vsdry ** 2 / 10 ** 6
    K = v.rhodry * v.Vpdry ** 2 / 10 ** 6 - Fr(4, 3) * G
    Gh = v.rhodry * v.Vs_hs ** 2 / 10 ** 6
    Kh = v.rhodry * v.Vp_hs ** 2 / 10 ** 6 - Fr(4, 3) * Gh
    Ku = gassmann(Kh, v.K0, v.Kfl, v.phi)
    Gu = 1 / (1 / G - Fr(4, 15) * (1 / K - 1 / Kh))
    rho = v.rhodry + v.phi * v.rhofl
    return Ku, Gu, sqrt((Ku + Fr(4, 3) * Gu) / rho) * 1000, sqrt(Gu / rho) * 1000


def mj_pre(v):
    G = v.rhodry * v.Vsdry ** 2 / 10 ** 6
    K = v.rhodry * v.Vpdry ** 2 / 10 ** 6 - Fr(4, 3) * G
    Kh = v.rhodry * (v.Vp_hs ** 2 - Fr(4, 3) * v.Vs_hs ** 2) / 10 ** 6
    return [K > Fr(1, 2), Kh > K, Kh * 100 < v.K0 * 99, v.Vp_hs >= v.Vpdry, v.Vs_hs >= v.Vsdry, G < 3 * K]


C['Mavko_Jizba'] = Contract('Fluid.Mavko_Jizba', dict(Vp_hs=R('500', '9000'), Vs_hs=R('100', '6000'), Vpdry=R('400', '9000'), Vsdry=R('50', '6000'), K0=R('11', '200'),
                            rhodry=R('1', '4'), rhofl=RHF(), Kfl=KF(), phi=PHI()), mj, pre=mj_pre, vec=[('Vp_hs', 'Vs_hs', 'Vpdry', 'Vsdry'), ('Kfl',)])


def squirt(v, paper=True):
    d = [v['d%d' % i] - v['h%d' % i] for i in range(5)]
    tot = 2 * d[0] + 2 * d[1] + 4 * d[2] + d[3]
    t = [x / tot for x in d]
    s23 = t[4] / 4                                        # tensor component from the Voigt compliance
    s12 = (t[0] - t[1]) / 2
    if paper:
        al = (2 * t[0] + t[3] + 4 * s23 + 2 * s12 - 1) / 4
        g11, g33 = t[0] + t[1] + t[2], 2 * t[2] + t[3]
        G = [(t[0] - 4 * al * g11), t[1], t[2], t[3] - 4 * al * g33, 4 * (s23 - al * (g11 + g33))]
        G = [x / (1 - 4 * al) for x in G]
    else:
        al = (2 * t[0] + t[3] + 4 * t[4] + 4 * (t[0] - t[1]) - 1) / 4
        T = 1 - 4 * al
        G = [t[0] - 4 * al / T * (t[1] + t[2]), t[1] / T, t[2] / T, t[3] - 8 * al * t[2] / T]
        G.append(t[4] / T - (t[0] + t[2]) / (4 * T) + (G[0] + G[3]) / 4)
    return mat([v['d%d' % i] - tot * G[i] for i in range(5)])


SQV = lambda: dict([('d%d' % i, R(*(('0.001', '0.8') if i in (0, 3, 4) else ('-0.2', '0')))) for i in range(5)] +
                   [('h%d' % i, R(*(('0.001', '0.5') if i in (0, 3, 4) else ('-0.1', '0')))) for i in range(5)])
C['Squirt'] = Contract('Fluid.Squirt_anisotropic', SQV(), squirt, args=lambda v: [[v['d%d' % i] for i in range(5)], [v['h%d' % i] for i in range(5)]],
    pre=lambda v: [(lambda d: 2 * d[0] + 2 * d[1] + 4 * d[2] + d[3] > Fr(1, 200))([v['d%d' % i] - v['h%d' % i] for i in range(5)]),
                   (lambda d: 2 * d[0] + d[3] + 4 * d[4] + 4 * (d[0] - d[1]) > Fr(1, 1000) + (2 * d[0] + 2 * d[1] + 4 * d[2] + d[3]) * 1)([v['d%d' % i] - v['h%d' % i] for i in range(5)]),
                   (lambda d: 2 * d[0] + d[3] + 4 * d[4] + 4 * (d[0] - d[1]) > Fr(1, 200) + (2 * d[0] + 2 * d[1] + 4 * d[2] + d[3]) * 2)([v['d%d' % i] - v['h%d' % i] for i in range(5)])],
    known=dict(id='K-Squirt-TI', text='Fluid.Squirt_anisotropic: S44 entry combines S11 and S13 where the theory has S11 and S33, and the trace mixes tensor and Voigt shear compliances '
               '(an isotropic rock comes out anisotropic); pinned by the existing test', spec=lambda v: squirt(v, False)))


# ------------------------------------------------------------------ White / Dutta-Ode
def white(v):
    w = 2 * PI * v.freq
    b = v.a / v.sg ** Fr(1, 3)
    K1, K2 = gassmann(v.Kdry, v.K0, v.Kfl1, v.phi), gassmann(v.Kdry, v.K0, v.Kfl2, v.phi)
    G, r = v.Gdry, 1 - v.Kdry / v.K0
    den = K2 * (3 * K1 + 4 * G) + 4 * G * (K1 - K2) * v.sg
    R1, R2 = (K1 - v.Kdry) / r * (3 * K2 + 4 * G) / den, (K2 - v.Kdry) / r * (3 * K1 + 4 * G) / den
    KA = [1 / (v.phi / f + (1 - v.phi) / v.K0 - v.Kdry / v.K0 ** 2) for f in (v.Kfl1, v.Kfl2)]
    KE = [(1 - f * (1 - K / v.K0) * r / (v.phi * K * (1 - f / v.K0))) * ka for f, K, ka in ((v.Kfl1, K1, KA[0]), (v.Kfl2, K2, KA[1]))]
    a1, a2 = sqrt(I * w * v.eta1 / (v.kapa * KE[0])), sqrt(I * w * v.eta2 / (v.kapa * KE[1]))
    x1, x2, y2 = a1 * v.a, a2 * v.a, a2 * b
    E1, E2 = exp(-2 * x1), exp(-2 * a2 * (b - v.a))
    Z1 = v.eta1 * v.a / v.kapa * (1 - E1) / ((x1 - 1) + (x1 + 1) * E1)
    Z2 = -v.eta2 * v.a / v.kapa * ((y2 + 1) * E2 + (y2 - 1)) / ((y2 + 1) * (x2 - 1) * E2 - (y2 - 1) * (x2 + 1))
    Q1, Q2 = r * KA[0] / K1, r * KA[1] / K2
    W = 3 * v.a ** 2 * (R1 - R2) * (Q2 - Q1) / (b ** 3 * I * w * (Z1 + Z2))
    Kinf = den / (3 * K1 + 4 * G - 3 * (K1 - K2) * v.sg)
    Ks = Kinf / (1 - Kinf * W)
    M = Ks + Fr(4, 3) * G
    rho = (1 - v.phi) * v.rho0 + v.phi * (v.sg * v.rhofl1 + (1 - v.sg) * v.rhofl2)
    th = fn('arctan', s_.im(M) / s_.re(M))
    Vp = sqrt(fn('cabs', M) / rho) / cos(th / 2)
    return Vp, w * tan(th / 2) / Vp, Ks


C['White'] = Contract('Fluid.White_Dutta_Ode', dict(Kdry=R('0.1', '200'), Gdry=R('0.1', '200'), K0=R('11', '300'), phi=R('0.002', '0.7'), rho0=R('1', '8'), rhofl1=R('0.001', '2'),
    rhofl2=R('0.001', '2'), Kfl1=R('0.002', '8'), Kfl2=R('0.002', '8'), eta1=R('0.0001', '1'), eta2=R('0.0001', '10'), kapa=R('0.0001', '10'), a=R('0.001', '10'), sg=R('0.0001', '0.9999'),
    freq=R('0.001', '10000')), white, vec=[('freq',)], budget=240, rtol=1e-6,
    pre=BKD)
