"""Contracts: rockphypy.EM (bounds, inclusion and crack models)."""
from .base import *
from .utils_c import m6, iso

C = {}

# ------------------------------------------------------------------ bounds
C['VRH'] = Contract('EM.VRH', dict(f=R('0', '1'), M=R('0.05', '100')),
                    lambda v: (Sum(v.f * v.M), 1 / Sum(v.f / v.M), (Sum(v.f * v.M) + 1 / Sum(v.f / v.M)) / 2),
                    sumvars=('f', 'M'), name='EM.VRH[N phases]')
C['VRH2'] = Contract('EM.VRH', dict(f0=FRAC(), M0=R('0.05', '100'), f1=FRAC(), M1=R('0.05', '100')),
                     lambda v: (v.f0 * v.M0 + v.f1 * v.M1, 1 / (v.f0 / v.M0 + v.f1 / v.M1),
                                (v.f0 * v.M0 + v.f1 * v.M1) / 2 + 1 / (2 * (v.f0 / v.M0 + v.f1 / v.M1))),
                     args=lambda v: [[v.f0, v.f1], [v.M0, v.M1]], pre=lambda v: [v.f0 + v.f1 > Fr(1, 100)], name='EM.VRH[lists of 2]')
_VF = lambda n, m: {**{'f%d%d' % (i, j): R('0.01', '1') for i in range(n) for j in range(m)}, **{'M%d' % j: R('0.01', '500') for j in range(m)}}


def _vrows(v, n, m):
    a = [sum(v['f%d%d' % (i, j)] * v['M%d' % j] for j in range(m)) for i in range(n)]
    h = [1 / sum(v['f%d%d' % (i, j)] / v['M%d' % j] for j in range(m)) for i in range(n)]
    return mat(a), mat(h), mat([(x + y) / 2 for x, y in zip(a, h)])


for n, m in ((2, 2), (3, 2), (2, 3), (1, 3)):
    C['VRH_rows%d%d' % (n, m)] = Contract('EM.VRH', _VF(n, m), lambda v, n=n, m=m: _vrows(v, n, m),
        args=lambda v, n=n, m=m: [mat([[v['f%d%d' % (i, j)] for j in range(m)] for i in range(n)]), mat([v['M%d' % j] for j in range(m)])], name='EM.VRH[%d mixtures of %d phases]' % (n, m))
C['cripor'] = Contract('EM.cripor', dict(K0=K_(), G0=G_(), phi=R('0', '0.9'), phic=R('0.05', '0.9')),
                       lambda v: (v.K0 - v.K0 * v.phi / v.phic, v.G0 - v.G0 * v.phi / v.phic), vec=[('phi',), ('K0', 'G0', 'phi')], int_arrays=False)
for den in (False, True):
    C['cripor_reuss%d' % den] = Contract('EM.cripor_reuss', dict(M0=K_(), Mf=R('0.0005', '50'), phic=OPENFRAC()),
        (lambda v: mat([(1 - v.phic) * v.M0 + v.phic * v.Mf])) if den else (lambda v: mat([v.M0 * v.Mf / (v.phic * v.M0 + (1 - v.phic) * v.Mf)])),
        kwargs=lambda v, den=den: dict(den=den) if den else {}, defaults={} if den else {'den': False}, squeeze=True, name='EM.cripor_reuss[den=%s]' % den)


def hs(f, K1, K2, G1, G2, upper):
    """Hashin-Shtrikman in the zeta (bounding-medium) form, independent of the order of the phases"""
    K, G = (K1, G1) if upper else (K2, G2)
    z, y = Fr(4, 3) * G, G * (9 * K + 8 * G) / (6 * (K + 2 * G))
    return (1 / (f / (K1 + z) + (1 - f) / (K2 + z)) - z, 1 / (f / (G1 + y) + (1 - f) / (G2 + y)) - y)


HSV = lambda: dict(f=FRAC(), K1=K_(), K2=R('0.1', '100'), G1=G_(), G2=R('0.05', '80'))
HSP = lambda v: [v.K1 >= v.K2, v.G1 >= v.G2]
for b in ('upper', 'lower'):
    C['HS_' + b] = Contract('EM.HS', HSV(), lambda v, b=b: hs(v.f, v.K1, v.K2, v.G1, v.G2, b == 'upper'), pre=HSP,
                            kwargs=(lambda v, b=b: {}) if b == 'upper' else (lambda v, b=b: dict(bound=b)),
                            defaults={'bound': 'upper'} if b == 'upper' else {},
                            vec=[('f',), ('f', 'K1', 'K2', 'G1', 'G2'), ('K1', 'K2', 'G1', 'G2')], name='EM.HS[%s]' % b, int_arrays=True)
    # identical phases / equal shear or bulk moduli, Python floats
    C['HS_eq_' + b] = Contract('EM.HS', dict(f=FRAC(), K=K_(), G=G_()), lambda v: (v.K, v.G), args=lambda v, b=b: [v.f, v.K, v.K, v.G, v.G, b],
                               name='EM.HS[identical phases,%s]' % b)
C['HS_soft'] = Contract('EM.HS', dict(f=R('0', '0.999'), K1=K_(), K2=KF(), G1=G_()),
                        lambda v: (1 / (v.f / v.K1 + (1 - v.f) / v.K2), const(0)), args=lambda v: [v.f, v.K1, v.K2, v.G1, 0, 'lower'],
                        pre=lambda v: [v.K1 >= v.K2], name='EM.HS[fluid,lower]')


# ------------------------------------------------------------------ cracks
def lam(K, G): return K - Fr(2, 3) * G


def eshelby(v, paper=True):
    K, G, phi, a, Kf = v.K, v.G, v.phi, v.alpha, v.Kf
    l = lam(K, G)
    nu = (3 * K - 2 * G) / (6 * K + 2 * G)
    Rr = (1 - 2 * nu) / (8 * PI * (1 - nu))
    Q = 3 / (8 * PI * (1 - nu))
    sa = sqrt(1 - a ** 2)
    Ia = 2 * PI * a / sa ** 3 * (acos(a) - a * sa)
    Ic = 4 * PI - 2 * Ia
    Iac = (Ic - Ia) / (3 * (1 - a ** 2))
    Iaa = PI - Fr(3, 4) * Iac
    Iab = Iaa / 3
    S11, S33 = Q * Iaa + Rr * Ia, Q * (Fr(4, 3) * PI - 2 * Iac * a ** 2) + Ic * Rr
    S12, S13, S31 = Q * Iab - Rr * Ia, Q * Iac * a ** 2 - Rr * Ia, Q * Iac - Rr * Ic
    S1212, S1313 = Q * Iab + Rr * Ia, Q * (1 + a ** 2) * Iac / 2 + Rr * (Ia + Ic) / 2
    Cc = Kf / (3 * (K - Kf))
    Dd = S33 * S11 + S33 * S12 - 2 * S31 * S13 - (S11 + S12 + S33 - 1 - 3 * Cc) - Cc * (S11 + S12 + 2 * (S33 - S13 - S31))
    E = S33 * S11 - S31 * S13 - (S33 + S11 - 2 * Cc - 1) + Cc * (S31 + S13 - S11 - S33)
    c11 = (l * (S31 - S33 + 1) + 2 * G * E) / (Dd * (S12 - S11 + 1)) if paper else l * (S31 - S33 + 1) + 2 * G * E / (Dd * (S12 - S11 + 1))
    c33 = ((l + 2 * G) * (1 - S12 - S11) + 2 * l * S13 + 4 * G * Cc) / Dd
    c13 = ((l + 2 * G) * (S13 + S31) - 4 * G * Cc + l * (S13 - S12 - S11 - S33 + 2)) / (2 * Dd)
    return (l + 2 * G - phi * c11, l + 2 * G - phi * c33, l - phi * c13, G - phi * G / (1 - 2 * S1313), G - phi * G / (1 - 2 * S1212))


def eshelby_out(v, matrix, paper):
    c11, c33, c13, c44, c66 = eshelby(v, paper)
    return m6((c11, c11, c33), c11 - 2 * c66, c13, c13, (c44, c44, c66)) if matrix else mat([c11, c33, c13, c44, c66])


for mt in (False, True):
    C['Eshelby_Cheng%d' % mt] = Contract('EM.Eshelby_Cheng', dict(K=K_(), G=G_(), phi=R('0', '0.5'), alpha=R('0.0001', '0.99'), Kf=R('0', '10')),
        lambda v, mt=mt: eshelby_out(v, mt, True), kwargs=(lambda v: dict(mat=True)) if mt else (lambda v: {}), defaults={} if mt else {'mat': False},
        pre=lambda v: [v.K > v.Kf + Fr(1, 100)], name='EM.Eshelby_Cheng[mat=%s]' % mt, budget=100,
        known=dict(id='K-EshelbyCheng-C11', spec=lambda v, mt=mt: eshelby_out(v, mt, False),
                   text='EM.Eshelby_Cheng: C11 correction is lambda*(S31-S33+1) + 2*mu*E/(D*(S12-S11+1)) instead of the published (lambda*(S31-S33+1)+2*mu*E)/(D*(S12-S11+1)); pinned by the existing test'))


def hudU(v, alpha):
    l = lam(v.K, v.G)
    # open penny-shaped cracks, and the part of the traction a filling of aspect ratio alpha carries: the largest opening of
    # the open crack is 3 a U/(2 pi mu) per unit traction, the strain of the filling that opening over 2 alpha a
    U1, U3 = 16 * (l + 2 * v.G) / (3 * (3 * l + 4 * v.G)), 4 * (l + 2 * v.G) / (3 * (l + v.G))
    fill = lambda U, stiffness: 3 * U / (4 * PI * alpha * v.G) * stiffness
    return l, U1 / (1 + fill(U1, v.Gi)), U3 / (1 + fill(U3, v.Ki + Fr(4, 3) * v.Gi))


def hud(v, order, alpha=None, crd=None):
    """first/second order corrections c11,c13,c33,c44 for normals along axis 3"""
    e = v.crd if crd is None else crd
    l, U1, U3 = hudU(v, v.alpha if alpha is None else alpha)
    G = v.G
    c11, c13, c33, c44 = -l ** 2 / G * e * U3, -l * (l + 2 * G) / G * e * U3, -(l + 2 * G) ** 2 / G * e * U3, -G * e * U1
    if order == 2:
        q = 15 * l ** 2 / G ** 2 + 28 * l / G + 28
        c11 += q / 15 * l ** 2 / (l + 2 * G) * (e * U3) ** 2
        c13 += q / 15 * l * (e * U3) ** 2
        c33 += q / 15 * (l + 2 * G) * (e * U3) ** 2
        c44 += Fr(2, 15) * G * (3 * l + 8 * G) / (l + 2 * G) * (e * U1) ** 2
    return l, c11, c13, c33, c44


def hudson(v, order, axis):
    l, c11, c13, c33, c44 = hud(v, order)
    G = v.G
    C11, C13, C33, C44 = l + 2 * G + c11, l + c13, l + 2 * G + c33, G + c44
    C12 = C11 - 2 * G
    if axis == 3:
        return m6((C11, C11, C33), C12, C13, C13, (C44, C44, G))
    return m6((C33, C11, C11), C13, C13, C12, (G, C44, C44))


HV = lambda: dict(K=K_(), G=G_(), Ki=R('0', '100'), Gi=R('0', '80'), alpha=R('0.00001', '1'), crd=R('0', '2'))
HVP = lambda v: [3 * v.K + v.G > 0]
for order in (1, 2):
    for axis in (3, 1):
        kw = {}
        if order != 1:
            kw['order'] = order
        if axis != 3:
            kw['axis'] = axis
        C['hudson%d%d' % (order, axis)] = Contract('EM.hudson', HV(), lambda v, o=order, a=axis: hudson(v, o, a), kwargs=lambda v, kw=kw: dict(kw),
            defaults={'order': 1, 'axis': 3} if not kw else {}, name='EM.hudson[order=%d,axis=%d]' % (order, axis), pre=HVP)


def hudson_rand(v, paper=True):
    l, U1, U3 = hudU(v, v.alpha)
    G1 = -2 * v.G * v.crd * (3 * U1 + 2 * U3) * (Fr(1, 15) if paper else 1)
    # 3 lambda1 + 2 mu1 = -(3 lambda + 2 mu)^2 e U3/(3 mu)
    l1 = (-(3 * l + 2 * v.G) ** 2 / (3 * v.G) * v.crd * U3 - 2 * G1) / 3
    return (l + l1 + Fr(2, 3) * (v.G + G1), v.G + G1)


C['hudson_rand'] = Contract('EM.hudson_rand', HV(), hudson_rand, pre=HVP, vec=[('crd',)],
    known=dict(id='K-hudson_rand-15', spec=lambda v: hudson_rand(v, False),
               text='EM.hudson_rand: shear correction lacks the published factor 1/15; pinned by the existing test'))


def hudson_ortho(v):
    out = [hud(v, 1, v['a%d' % i], v['e%d' % i]) for i in (1, 2, 3)]
    l = out[0][0]
    c11, c13, c33, c44 = [[o[j] for o in out] for j in (1, 2, 3, 4)]
    G = v.G
    d = [l + 2 * G + c33[i] + sum(c11[j] for j in range(3) if j != i) for i in range(3)]
    # set i has its normal along axis i: couples axes (i,j) by c13, the two others by c12=c11
    o = lambda i, j: l + c13[i] + c13[j] + c11[3 - i - j]
    sh = [G + sum(c44[j] for j in range(3) if j != i) for i in range(3)]
    return m6(d, o(0, 1), o(0, 2), o(1, 2), sh)


C['hudson_ortho'] = Contract('EM.hudson_ortho', dict(K=K_(), G=G_(), Ki=R('0', '100'), Gi=R('0', '80'),
    a1=R('0.00001', '1'), a2=R('0.00001', '1'), a3=R('0.00001', '1'), e1=R('0', '2'), e2=R('0', '2'), e3=R('0', '2')), hudson_ortho,
    args=lambda v: [v.K, v.G, v.Ki, v.Gi, [v.a1, v.a2, v.a3], [v.e1, v.e2, v.e3]], pre=HVP, ints=False)


def hudson_cone(v):
    l, U1, U3 = hudU(v, v.alpha)
    G, e = v.G, v.crd
    s, c = sin(deg(v.theta)), cos(deg(v.theta))
    c11 = -e / (2 * G) * (U3 * (2 * l ** 2 + 4 * l * G * s ** 2 + 3 * G ** 2 * s ** 4) + U1 * G ** 2 * s ** 2 * (4 - 3 * s ** 2))
    c33 = -e / G * (U3 * (l + 2 * G * c ** 2) ** 2 + 4 * U1 * G ** 2 * c ** 2 * s ** 2)
    c12 = -e / (2 * G) * (U3 * (2 * l ** 2 + 4 * l * G * s ** 2 + G ** 2 * s ** 4) - U1 * G ** 2 * s ** 4)
    c13 = -e / G * (U3 * (l + G * s ** 2) * (l + 2 * G * c ** 2) - 2 * U1 * G ** 2 * s ** 2 * c ** 2)
    c44 = -e / 2 * G * (4 * U3 * s ** 2 * c ** 2 + U1 * (s ** 2 + 2 * c ** 2 - 4 * s ** 2 * c ** 2))
    c66 = -e / 2 * G * s ** 2 * (U3 * s ** 2 + U1 * (2 - s ** 2))
    return l, c11, c12, c13, c33, c44, c66


def cone_out(v, dev=False):
    l, c11, c12, c13, c33, c44, c66 = hudson_cone(v)
    G = v.G
    if dev:
        _, U1, U3 = hudU(v, v.alpha)
        s = sin(deg(v.theta))
        c66 = -v.crd / 2 * G * (4 * U3 * s ** 4 + U1 * s ** 2 * (2 - s ** 2))
    return m6((l + 2 * G + c11, l + 2 * G + c11, l + 2 * G + c33), l + c12, l + c13, l + c13, (G + c44, G + c44, G + c66))


C['hudson_cone'] = Contract('EM.hudson_cone', dict(HV(), theta=R('-180', '180')), cone_out, pre=HVP,
                            known=dict(id='K-hudson_cone-C66', text='EM.hudson_cone: C66 correction uses 4*U3*sin^4(theta) where transverse isotropy, C66=(C11-C12)/2, requires U3*sin^4(theta); pinned by the existing test', spec=lambda v: cone_out(v, True)))


# ------------------------------------------------------------------ inclusion models
C['Swiss_cheese'] = Contract('EM.Swiss_cheese', dict(Ks=K_(), Gs=G_(), phi=R('0', '1')),
    lambda v: (1 / (1 / v.Ks + (1 / v.Ks + 3 / (4 * v.Gs)) * v.phi), v.Gs / (1 + v.phi * (15 * v.Ks + 20 * v.Gs) / (9 * v.Ks + 8 * v.Gs))), vec=[('phi',)])
_sw = C['Swiss_cheese'].spec


def _swiss2(v):
    g = [[_sw(Vars(Ks=v['k%d' % i], Gs=v['g%d' % i], phi=v['p%d' % j])) for j in range(3)] for i in range(2)]
    return tuple(mat([[g[i][j][c] for j in range(3)] for i in range(2)]) for c in (0, 1))


C['Swiss_cheese2'] = Contract('EM.Swiss_cheese', dict(k0=K_(), k1=K_(), g0=G_(), g1=G_(), p0=R('0', '1'), p1=R('0', '1'), p2=R('0', '1')), _swiss2,
    args=lambda v: [mat([v.k0, v.k1]), mat([v.g0, v.g1]), mat([v.p0, v.p1, v.p2])], name='EM.Swiss_cheese[2 matrices x 3 porosities]')


def sc_step(phi, Ks, Gs):
    def step(st):
        K = 1 / (1 / Ks + phi * (1 / st['K'] + 3 / (4 * st['G'])))
        G = 1 / (1 / Gs + phi / st['G'] * (15 * K + 20 * st['G']) / (9 * K + 8 * st['G']))
        return dict(K=K, G=G)
    return step


def iterate(n, init, step):
    if isinstance(n, Sym) and n.op == 'c':
        st = dict(init)
        for _ in range(int(n.val)):
            st = step(st)
        return st
    return LoopSpec(n, init, step).result


def sc_loop(v): return LoopSpec(v.n, dict(K=v.Ks, G=v.Gs), sc_step(v.phi, v.Ks, v.Gs))


C['SC'] = Contract('EM.SC', dict(phi=R('0', '0.9'), Ks=K_(), Gs=G_(), n=N('0', '60')), lambda v: (lambda r: (r['K'], r['G']))(iterate(v.n, dict(K=v.Ks, G=v.Gs), sc_step(v.phi, v.Ks, v.Gs))),
                   loop=sc_loop, vec=[('phi',), ('phi', 'Ks', 'Gs')])


def nu_(K, G): return (3 * K - 2 * G) / (6 * K + 2 * G)


def S12(K, G):
    n = nu_(K, G)
    return (1 + n) / (3 * (1 - n)), 2 * (4 - 5 * n) / (15 * (1 - n))


def scf_step(v):
    def step(st):
        K, G = st['K'], st['G']
        s1, s2 = S12(K, G)
        K2 = v.Km - v.f * (v.Km - v.Ki) * K / (K - s1 * (K - v.Ki))
        G2 = v.Gm - v.f * (v.Gm - v.Gi) * G / (G - s2 * (G - v.Gi))
        return dict(K=K2, G=G2)
    return step


C['SC_flex'] = Contract('EM.SC_flex', dict(f=R('0', '0.4'), n=N('0', '30'), Km=R('20', '100'), Ki=R('0', '15'), Gm=R('15', '80'), Gi=R('0', '10')),
    lambda v: (lambda r: (r['K'], r['G']))(iterate(v.n, dict(K=v.Km, G=v.Gm), scf_step(v))),
    loop=lambda v: LoopSpec(v.n, dict(K=v.Km, G=v.Gm), scf_step(v)), vec=[('f',)])

C['Dilute_crack'] = Contract('EM.Dilute_crack', dict(Ks=K_(), Gs=G_(), cd=R('0', '5')),
    lambda v: (lambda n: (v.Ks / (1 + Fr(16, 9) * (1 - n ** 2) / (1 - 2 * n) * v.cd), v.Gs / (1 + Fr(32, 45) * (1 - n) * (5 - n) / (2 - n) * v.cd)))(nu_(v.Ks, v.Gs)),
    vec=[('cd',), ('Ks', 'Gs', 'cd')])
C['OConnell_Budiansky'] = Contract('EM.OConnell_Budiansky', dict(K0=K_(), G0=G_(), crd=R('0', '0.56')),
    lambda v: (lambda n: (v.K0 * (1 - Fr(16, 9) * (1 - n ** 2) / (1 - 2 * n) * v.crd), v.G0 * (1 - Fr(32, 45) * (1 - n) * (5 - n) / (2 - n) * v.crd)))(
        nu_(v.K0, v.G0) * (1 - Fr(16, 9) * v.crd)), vec=[('crd',)], pre=lambda v: [3 * v.K0 > 2 * v.G0])


def oc_res(nu, Dv, crd, nu0, w, paper=True):
    # second equation: D = 1/(1 + 4/(3 pi) (1-nu^2)/(1-2nu) (K/Keff) w) with Keff/K = 1 - 16/9 (1-nu^2)/(1-2nu) D crd, nu effective
    q = Fr(9, 16) * (1 - 2 * nu) / (1 - (nu if paper else nu0) ** 2)
    return (Fr(45, 16) * (nu0 - nu) / (1 - nu ** 2) * (2 - nu) / (Dv * (1 + 3 * nu0) * (2 - nu) - 2 * (1 - 2 * nu0)) - crd,
            crd * Dv ** 2 - (crd + q + 3 * w / (4 * PI)) * Dv + q)


OCK = lambda: dict(id='K-OB-nu0', text='EM.OC_R_funcs/OConnell_Budiansky_fl: the fluid equation has 1-nu0^2 (uncracked) where the self-consistent relation has 1-nu_eff^2; pinned by the existing test of OConnell_Budiansky_fl')


C['OC_R_funcs'] = Contract('EM.OC_R_funcs', dict(nu=R('0', '0.49'), D=R('0.01', '1'), crd=R('0', '0.56'), nu0=R('0', '0.49'), w=R('0', '100')),
    lambda v: list(oc_res(v.nu, v.D, v.crd, v.nu0, v.w)), args=lambda v: [(v.nu, v.D), v.crd, v.nu0, v.w],
    known=dict(OCK(), spec=lambda v: list(oc_res(v.nu, v.D, v.crd, v.nu0, v.w, False))),
    pre=lambda v: [v.D * (1 + 3 * v.nu0) * (2 - v.nu) > 2 * (1 - 2 * v.nu0) + Fr(1, 20)])


def theta_f(a, paper=True, branch=None):
    obl = a / (1 - a ** 2) ** Fr(3, 2) * (acos(a) - a * sqrt(1 - a ** 2))
    pro = a / (a ** 2 - 1) ** Fr(3, 2) * (a * sqrt(a ** 2 - 1) - (fn('arccosh', a) if paper else 1 / fn('cosh', a)))
    t = obl if branch == 'oblate' else pro if branch == 'prolate' else ite(lt(a, const(1)), obl, pro)
    return t, a ** 2 * (3 * t - 2) / (1 - a ** 2)


def pq(Km, Gm, Ki, Gi, a, paper=True, branch=None):
    sph = ((Km + Fr(4, 3) * Gm) / (Ki + Fr(4, 3) * Gm), (lambda z: (Gm + z) / (Gi + z))(Gm * (9 * Km + 8 * Gm) / (6 * (Km + 2 * Gm))))
    if branch == 'sphere':
        return sph
    t, f = theta_f(a, paper, branch)
    A, B, Rr = Gi / Gm - 1, (Ki / Km - Gi / Gm) / 3, 3 * Gm / (3 * Km + 4 * Gm)
    H = Fr(1, 2)
    F1 = 1 + A * (3 * H * (f + t) - Rr * (3 * H * f + 5 * H * t - Fr(4, 3)))
    F2 = 1 + A * (1 + 3 * H * (f + t) - Rr * H * (3 * f + 5 * t)) + B * (3 - 4 * Rr) + H * A * (A + 3 * B) * (3 - 4 * Rr) * (f + t - Rr * (f - t + 2 * t ** 2))
    F3 = 1 + A * (1 - (f + 3 * H * t) + Rr * (f + t))
    F4 = 1 + A / 4 * (f + 3 * t - Rr * (f - t))
    F5 = A * (-f + Rr * (f + t - Fr(4, 3))) + B * t * (3 - 4 * Rr)
    F6 = 1 + A * (1 + f - Rr * (f + t)) + B * (1 - t) * (3 - 4 * Rr)
    F7 = 2 + A / 4 * (3 * f + 9 * t - Rr * (3 * f + 5 * t)) + B * t * (3 - 4 * Rr)
    F8 = A * (1 - 2 * Rr + f * H * (Rr - 1) + t * H * (5 * Rr - 3)) + B * (1 - t) * (3 - 4 * Rr)
    F9 = A * ((Rr - 1) * f - Rr * t) + B * t * (3 - 4 * Rr)
    P = F1 / F2
    Q = (2 / F3 + 1 / F4 + (F4 * F5 + F6 * F7 - F8 * F9) / (F2 * F4)) / 5
    return P, Q


PQV = lambda a: dict(Km=K_(), Gm=G_(), Ki=R('0', '100'), Gi=R('0', '80'), alpha=a)
OBL, PRO = lambda: R('0.0001', '0.9995', hi_open=True), lambda: R('1.001', '100')
PQK = lambda: dict(id='K-PQ-prolate', text='EM.PQ/PQ_vectorize: prolate (aspect ratio > 1) shape factor uses 1/cosh(alpha) where the published relation has arccosh(alpha); pinned by the existing test of Berryman_sc')
C['PQ_oblate'] = Contract('EM.PQ', PQV(OBL()), lambda v: pq(v.Km, v.Gm, v.Ki, v.Gi, v.alpha, branch='oblate'), name='EM.PQ[oblate]', budget=120)
C['PQ_prolate'] = Contract('EM.PQ', PQV(PRO()), lambda v: pq(v.Km, v.Gm, v.Ki, v.Gi, v.alpha, branch='prolate'), name='EM.PQ[prolate]', budget=120,
                           known=dict(PQK(), spec=lambda v: pq(v.Km, v.Gm, v.Ki, v.Gi, v.alpha, False, 'prolate')))
C['PQ_sphere'] = Contract('EM.PQ', dict(Km=K_(), Gm=G_(), Ki=R('0', '100'), Gi=R('0', '80')), lambda v: pq(v.Km, v.Gm, v.Ki, v.Gi, None, branch='sphere'),
                          args=lambda v: [v.Km, v.Gm, v.Ki, v.Gi, 1], name='EM.PQ[sphere]')
PQVA = lambda v: [v.Km, v.Gm, v.Ki, v.Gi, v.alpha]
for nm, a, br in (('oblate', OBL, 'oblate'), ('prolate', PRO, 'prolate')):
    C['PQ_vectorize_' + nm] = Contract('EM.PQ_vectorize', PQV(a()), lambda v, br=br: pq(v.Km, v.Gm, v.Ki, v.Gi, v.alpha, branch=br), scalar=False,
        vec=[('Ki', 'Gi', 'alpha')], name='EM.PQ_vectorize[%s]' % nm, budget=120,
        known=dict(PQK(), spec=lambda v: pq(v.Km, v.Gm, v.Ki, v.Gi, v.alpha, False, 'prolate')) if br == 'prolate' else None)


def _pqmix(v):
    o = [pq(v.Km, v.Gm, v.k0, v.g0, v.a0, branch='oblate'), pq(v.Km, v.Gm, v.k1, v.g1, None, branch='sphere'), pq(v.Km, v.Gm, v.k2, v.g2, v.a2, False, branch='prolate')]
    return mat([x[0] for x in o]), mat([x[1] for x in o])


C['PQ_vectorize_mix'] = Contract('EM.PQ_vectorize', dict(Km=K_(), Gm=G_(), k0=R('0', '100'), g0=R('0', '80'), a0=OBL(), k1=R('0', '100'), g1=R('0', '80'),
    k2=R('0', '100'), g2=R('0', '80'), a2=PRO()), _pqmix, args=lambda v: [v.Km, v.Gm, mat([v.k0, v.k1, v.k2]), mat([v.g0, v.g1, v.g2]), mat([v.a0, 1, v.a2])],
    name='EM.PQ_vectorize[oblate,sphere,prolate]', budget=120, ints=False)


def dem_rhs(v, branch):
    P, Q = pq(v.K, v.G, v.Ki, v.Gi, v.alpha if branch != 'sphere' else None, False, branch)
    return [(v.Ki - v.K) * P / (1 - v.t), (v.Gi - v.G) * Q / (1 - v.t)]


C['DEM'] = Contract('EM.DEM', dict(K=K_(), G=G_(), t=R('0', '0.9'), Gi=R('0', '80'), Ki=R('0', '100'), alpha=OBL()), lambda v: dem_rhs(v, 'oblate'),
                    args=lambda v: [(v.K, v.G), v.t, [v.Gi, v.Ki, v.alpha]], budget=120)
C['DEM_sphere'] = Contract('EM.DEM', dict(K=K_(), G=G_(), t=R('0', '0.9'), Gi=R('0', '80'), Ki=R('0', '100')), lambda v: dem_rhs(v, 'sphere'),
                    args=lambda v: [(v.K, v.G), v.t, [v.Gi, v.Ki, 1]], name='EM.DEM[sphere]')


def sc_dilute(v, mode):
    s1, s2 = S12(v.Km, v.Gm)
    a, b = v.f * (v.Km - v.Ki) / (v.Km - s1 * (v.Km - v.Ki)), v.f * (v.Gm - v.Gi) / (v.Gm - s2 * (v.Gm - v.Gi))
    return (1 / (1 + a), 1 / (1 + b)) if mode == 'stress' else (1 - a, 1 - b)


for mode in ('stress', 'strain'):
    C['SC_dilute_' + mode] = Contract('EM.SC_dilute', dict(Km=K_(), Gm=G_(), Ki=R('0', '100'), Gi=R('0', '80'), f=R('0', '1')),
        lambda v, m=mode: sc_dilute(v, m), args=lambda v, m=mode: [v.Km, v.Gm, v.Ki, v.Gi, v.f, m], name='EM.SC_dilute[%s]' % mode, vec=[('f',), ('Km', 'Gm', 'Ki', 'Gi')], pre=lambda v: [bor(v.Ki * 100 < v.Km * 99, v.Ki * 99 > v.Km * 100), bor(v.Gi * 100 < v.Gm * 99, v.Gi * 99 > v.Gm * 100)])


def mt(v):
    n = nu_(v.Km, v.Gm)
    al, be = (1 + n) / (3 * (1 - n)), 2 * (4 - 5 * n) / (15 * (1 - n))
    def ave(M, M1, M2, z):
        w1, w2 = v.f * M / (M + z * (M1 - M)), (1 - v.f) * M / (M + z * (M2 - M))
        return (w1 * M1 + w2 * M2) / (w1 + w2)
    return ave(v.Km, v.K1, v.K2, al), ave(v.Gm, v.G1, v.G2, be)


C['MT_average'] = Contract('EM.MT_average', dict(f=FRAC(), Km=K_(), Gm=G_(), K1=K_(), G1=G_(), K2=R('0.1', '100'), G2=R('0.1', '80')), mt, vec=[('f',), ('f', 'K1', 'G1', 'K2', 'G2')])


# ------------------------------------------------------------------ self-consistent N phases, DEM: solver calls
def bf(v, vals, brs):
    """self-consistency residuals sum x_i (M_i - M*) P_i / Q_i"""
    e1, e2 = const(0), const(0)
    for (K, G, X, a), br in zip(vals, brs):
        P, Q = pq(v.Ks, v.Gs, K, G, a, False, br)
        e1, e2 = e1 + X * (K - v.Ks) * P, e2 + X * (G - v.Gs) * Q
    return [e1, e2]


def _bfN(v):
    P, Q = pq(v.Ks, v.Gs, v.K, v.G, v.a, branch='oblate')
    return [Sum(v.X * (v.K - v.Ks) * P), Sum(v.X * (v.G - v.Gs) * Q)]


C['Berryman_func'] = Contract('EM.Berryman_func', dict(Ks=K_(), Gs=G_(), K=R('0', '100'), G=R('0', '80'), X=R('0.01', '1'), a=OBL()), _bfN, sumvars=('K', 'G', 'X', 'a'),
                              args=lambda v: [(v.Ks, v.Gs), v.K, v.G, v.X, v.a], lists=False, name='EM.Berryman_func[N oblate phases]', budget=150)
_BM = lambda: dict(Ks=K_(), Gs=G_(), **{k + str(i): r() for i in range(3) for k, r in (('K', lambda: R('0', '100')), ('G', lambda: R('0', '80')), ('X', lambda: R('0', '1')))}, a2=OBL())
_bv = lambda v: [(v.K0, v.G0, v.X0, None), (v.K1, v.G1, v.X1, None), (v.K2, v.G2, v.X2, v.a2)]
_ba = lambda v: [mat([v.K0, v.K1, v.K2]), mat([v.G0, v.G1, v.G2]), mat([v.X0, v.X1, v.X2]), mat([1, 1, v.a2])]
_bb = ('sphere', 'sphere', 'oblate')
C['Berryman_func3'] = Contract('EM.Berryman_func', _BM(), lambda v: bf(v, _bv(v), _bb), args=lambda v: [(v.Ks, v.Gs)] + _ba(v), name='EM.Berryman_func[3 phases]', ints=False, budget=150)


def solver_ext(root):
    """assumed contract of fsolve: it returns a root of the function it is given; the root is the variable r"""
    def ext(v):
        def fsolve(func, x0, args=(), **k):
            r = root(v)
            args = args if isinstance(args, tuple) else (args,)
            SOLVED[:] = [func(r, *args)]
            return mat(list(r))
        return {'fsolve': fsolve}
    return ext


SOLVED = []


def solver_call(f, a, k):
    SOLVED[:] = []
    r = f(*a, **k)
    if not SOLVED:
        raise s_.Unsupported('no call of the solver')
    return (tuple(r), list(SOLVED[0]))


solver_call.solver = True


def fpq(Km, Gm, Ki, Gi, a):
    """P, Q in floats (the specification evaluated)"""
    if a == 1:
        z = Gm * (9 * Km + 8 * Gm) / (6 * (Km + 2 * Gm))
        return (Km + 4 / 3 * Gm) / (Ki + 4 / 3 * Gm), (Gm + z) / (Gi + z)
    if not _FP:
        v = Vars({k: var(k) for k in ('Km', 'Gm', 'Ki', 'Gi', 'a')})
        _FP.append(pq(v.Km, v.Gm, v.Ki, v.Gi, v.a, branch='oblate'))
    import mpmath
    env = dict(Km=Km, Gm=Gm, Ki=Ki, Gi=Gi, a=a)
    return tuple(float(s_.evaluate(x, env, mpmath.fp)) for x in _FP[0])


_FP = []


def hybrids(wit, base):
    """counterexamples of failed obligations as whole inputs and one value at a time on top of an ordinary input"""
    for w in wit:
        w = {k: float(x) for k, x in w.items() if k in base}
        yield dict(base, **w)
        for k in w:
            yield dict(base, **{k: w[k]})


def bsc_search(seed, n, wit=()):
    import random, warnings
    from scipy.optimize import fsolve
    from vc import load, rt
    f = load.real_func('EM.Berryman_sc')
    rng = random.Random(seed + 11)
    calls = 0
    hyb = list(hybrids(wit, dict(K0=37.0, G0=44.0, X0=.6, K1=21.0, G1=7.0, X1=.3, K2=2.3, G2=.1, X2=.1, a2=.3)))
    for t in range(-len(hyb), max(6, n // 2)):
        m = rng.randint(1, 4)
        K = np.array([rng.uniform(20, 60) for _ in range(m)])
        G = np.array([rng.uniform(15, 45) for _ in range(m)])
        X = np.array([rng.uniform(.2, 1) for _ in range(m)])
        if m > 1 and rng.random() < .5:
            K[-1], G[-1], X[-1] = rng.uniform(1, 4), 0.0, rng.uniform(.02, .1)
        X = X / X.sum()
        if m > 1 and G[-1] == 0:
            X[:-1] *= (1 - .05) / X[:-1].sum()
            X[-1] = .05
        A = np.array([rng.choice([1.0, 1.0, rng.uniform(.1, .9)]) for _ in range(m)])
        if t < 0:
            h = hyb[t]
            K, G, X = [np.array([h[c + str(i)] for i in range(3)]) for c in 'KGX']
            X, A = X / X.sum(), np.array([1, 1, h['a2']])
        args = (K, G, X, A)
        for cont in (lambda z: z, list):
            a = tuple(cont(z) if rng.random() < .99 else z for z in args)
            b4 = [np.copy(z) for z in a]
            calls += 1
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    r = f(*a)
            except Exception as ex:
                return calls, ('raises %r' % ex, {'args': rt.plain(a)})
            if not all(np.array_equal(x, y) for x, y in zip(b4, a)):
                return calls, ('arguments modified by the call', {'args': rt.plain(b4)})

            def res(y):
                o = [0.0, 0.0]
                for k, g, x, al in zip(*args):
                    P, Q = fpq(y[0], y[1], k, g, al)
                    o[0] += x * (k - y[0]) * P
                    o[1] += x * (g - y[1]) * Q
                return o
            y = [float(r[0]), float(r[1])]
            e = res(y)
            if not (max(map(abs, e)) < 1e-5 * max(y) and y[0] > 0 and y[1] > 0 and min(K) * .999 <= y[0] <= max(K) * 1.001 and min(G) * .999 - 1e-9 <= y[1] <= max(G) * 1.001):
                z, inf, ier, msg = fsolve(res, (K.mean(), G.mean()), full_output=True)
                if ier == 1:
                    return calls, ('result %s is not a self-consistent medium (residuals %s); %s is' % (y, e, list(map(float, z))), {'args': rt.plain(args)})
    return calls, None


C['Berryman_sc'] = Contract('EM.Berryman_sc', _BM(), lambda v: ((v.Ks, v.Gs), bf(v, _bv(v), _bb)), args=_ba, ext=solver_ext(lambda v: (v.Ks, v.Gs)), call=solver_call,
                            search=bsc_search, name='EM.Berryman_sc[3 phases; root of its residual]', budget=150)


def obf(v, paper=True):
    n0 = nu_(v.K0, v.G0)
    return ((v.K0 * (1 - Fr(16, 9) * (1 - v.nu ** 2) / (1 - 2 * v.nu) * v.crd * v.D), v.G0 * (1 - Fr(32, 45) * (1 - v.nu) * (v.D + 3 / (2 - v.nu)) * v.crd)),
            list(oc_res(v.nu, v.D, v.crd, n0, v.Kfl / (v.alpha * v.K0), paper)))


def obf_search(seed, n, wit=()):
    import random, warnings
    from scipy.optimize import fsolve
    from vc import load, rt
    f = load.real_func('EM.OConnell_Budiansky_fl')
    rng = random.Random(seed + 3)
    hyb = list(hybrids(wit, dict(K0=37.0, G0=25.0, Kfl=2.2, crd=.1, alpha=.05)))
    for t in range(-len(hyb), max(8, n)):
        K0, G0 = rng.uniform(20, 60), rng.uniform(12, 30)
        Kfl, crd, al = rng.uniform(.05, 4), rng.uniform(.01, .2), rng.uniform(.01, .3)
        if t < 0:
            K0, G0, Kfl, crd, al = [hyb[t][k] for k in ('K0', 'G0', 'Kfl', 'crd', 'alpha')]
        if 3 * K0 < 2 * G0 + 10:
            continue
        n0 = (3 * K0 - 2 * G0) / (6 * K0 + 2 * G0)
        w = Kfl / al / K0

        def res(y, d=1):
            nu, D = y
            q = 9 / 16 * (1 - 2 * nu) / (1 - (n0 if d else nu) ** 2)
            return (45 / 16 * (n0 - nu) / (1 - nu ** 2) * (2 - nu) / (D * (1 + 3 * n0) * (2 - nu) - 2 * (1 - 2 * n0)) - crd,
                    crd * D ** 2 - (crd + q + 3 * w / (4 * np.pi)) * D + q)
        val = lambda nu, D: (K0 * (1 - 16 / 9 * (1 - nu ** 2) / (1 - 2 * nu) * crd * D), G0 * (1 - 32 / 45 * (1 - nu) * (D + 3 / (2 - nu)) * crd))
        args = (K0, G0, Kfl, crd, al)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                r = [float(x) for x in f(*args)]
                cands = []
                for st, d in [(st, d) for d in (1, 0) for st in ((.2, .9), (n0 * .9, .8), (n0 * .8, .5), (n0, .99), (.1, .5), (.3, .3))]:
                    z, inf, ier, msg = fsolve(res, st, args=(d,), full_output=True)
                    if ier == 1 and max(map(abs, res(z, d))) < 1e-8:
                        cands.append(val(*z))
        except Exception as ex:
            return t, ('raises %r' % ex, {'args': rt.plain(args)})
        if cands and not any(abs(r[0] - c[0]) < 1e-5 * abs(c[0]) and abs(r[1] - c[1]) < 1e-5 * abs(c[1]) for c in cands):
            return t, ('result %s is not a solution of the self-consistent equations: %s' % (r, [list(map(float, c)) for c in cands][:2]), {'args': rt.plain(args)})
    return n, None


C['OConnell_Budiansky_fl'] = Contract('EM.OConnell_Budiansky_fl', dict(K0=R('1', '300'), G0=R('0.5', '200'), Kfl=R('0.0005', '10'), crd=R('0', '0.4'), alpha=R('0.0001', '1'), nu=R('0', '0.49'), D=R('0.05', '1')),
    obf, known=dict(OCK(), spec=lambda v: obf(v, False)), args=lambda v: [v.K0, v.G0, v.Kfl, v.crd, v.alpha], ext=solver_ext(lambda v: (v.nu, v.D)), call=solver_call, search=obf_search,
    pre=lambda v: [3 * v.K0 > 2 * v.G0, v.D * (1 + 3 * nu_(v.K0, v.G0)) * (2 - v.nu) > 2 * (1 - 2 * nu_(v.K0, v.G0)) + Fr(1, 20)], name='EM.OConnell_Budiansky_fl[root of its residual]')

DEMPHI = '0.03'


def dem_ext(v):
    def odeint(func, y0, t, args=(), **k):
        y0, t = list(mkl(y0)), list(mkl(t))
        r = np.empty((len(t), 2), dtype=object)
        for i in range(len(t)):
            for j in range(2):
                r[i, j] = s_.var('#y%d%d' % (i, j))
        SOLVED[:] = [[y0, t, list(func((v.K, v.G), v.t, *args))]]
        return r.view(arr.SObj)
    return {'odeint': odeint}


def mkl(x): return arr.mkarr(x).view(np.ndarray).ravel()


def dem_call(f, a, k):
    SOLVED[:] = []
    r = f(*a, **k)
    if not SOLVED:
        raise s_.Unsupported('no call of the integrator')
    return (tuple(r), SOLVED[0])


def dem_spec(v, br):
    n = 4
    ts = [const(Fr(i, 100)) for i in range(n)]
    return ((mat([s_.var('#y%d0' % i) for i in range(n)]), mat([s_.var('#y%d1' % i) for i in range(n)]), mat(ts)),
            [[v.Km, v.Gm], ts, dem_rhs(v, br)])


def dem_search(seed, n, wit=()):
    import random, warnings
    from scipy.integrate import solve_ivp
    from vc import load, rt
    f = load.real_func('EM.Berryman_DEM')
    rng = random.Random(seed + 17)
    hyb = list(hybrids(wit, dict(Km=37.0, Gm=44.0, Ki=2.2, Gi=.5, alpha=.3)))
    for t in range(-len(hyb), max(5, n // 3)):
        Km, Gm = rng.uniform(20, 60), rng.uniform(15, 45)
        Ki, Gi = rng.choice([(0.0, 0.0), (rng.uniform(1, 4), 0.0), (rng.uniform(5, 19), rng.uniform(2, 14)), (rng.uniform(61, 80), rng.uniform(46, 60))])
        al = rng.choice([1, 1.0, rng.uniform(.1, .95)])
        phi = rng.choice([rng.uniform(.02, .5), .1, .25, .3])
        if t < 0:
            Km, Gm, Ki, Gi, al, phi = [hyb[t][k] for k in ('Km', 'Gm', 'Ki', 'Gi', 'alpha')] + [.2]
        args = (Km, Gm, Ki, Gi, al, phi)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                K, G, tt = [np.asarray(x, float) for x in f(*args)]
        except Exception as ex:
            return t, ('raises %r' % ex, {'args': rt.plain(args)})
        if K.shape != tt.shape or G.shape != tt.shape or tt[0] != 0 or not np.all(np.diff(tt) > 0) or tt[-1] < phi - 1e-9 or tt[-1] > phi + .02 or max(np.diff(tt)) > .0101:
            return t, ('porosity grid does not cover 0..phi in steps of 0.01', {'args': rt.plain(args), 't': tt.tolist()[-3:]})

        def rhs(x, y):
            P, Q = fpq(y[0], y[1], Ki, Gi, al)
            return [(Ki - y[0]) * P / (1 - x), (Gi - y[1]) * Q / (1 - x)]
        s = solve_ivp(rhs, (0, tt[-1]), [Km, Gm], t_eval=tt, rtol=1e-10, atol=1e-11)
        if s.y.shape[1] != len(tt):
            continue
        for nm, x, y in (('K', K, s.y[0]), ('G', G, s.y[1])):
            i = int(np.argmax(np.abs(x - y)))
            if abs(x[i] - y[i]) > 2e-5 * max(Km, Gm):
                return t, ('%s at porosity %.4f is %.9g, the DEM equations give %.9g' % (nm, tt[i], x[i], y[i]), {'args': rt.plain(args)})
    return n, None


for nm, a, br in (('oblate', OBL, 'oblate'), ('sphere', None, 'sphere')):
    C['Berryman_DEM_' + nm] = Contract('EM.Berryman_DEM', dict(Km=K_(), Gm=G_(), Ki=R('0', '100'), Gi=R('0', '80'), K=K_(), G=G_(), t=R('0', '0.9'), **({'alpha': a()} if a else {})),
        lambda v, br=br: dem_spec(v, br), args=lambda v, a=a: [v.Km, v.Gm, v.Ki, v.Gi, v.alpha if a else 1, const(Fr(DEMPHI))], ext=dem_ext, call=dem_call, search=dem_search,
        name='EM.Berryman_DEM[%s; initial value problem]' % nm, budget=120)
