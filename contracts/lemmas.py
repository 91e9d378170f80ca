"""Lemmas over the specifications: the consequences the property statements name, proved from the contract terms alone."""
from .base import *
from . import utils_c as U, em_c as E, fluid_c as F, gm_c as G, anis_c as A, avo_c as AV, bw_c as B, emp_c as EP, qi_c as Q
from .em_c import hs, nu_

L = {}


def lem(prop, name, vars, goals, pre=None, timeout=8000):
    L.setdefault(prop, []).append(Lemma(name, vars, goals, pre, timeout))


def pairs(nm, a, b):
    """component-wise equality goals of two equally shaped results"""
    from vc.contract import leaves
    la, lb = list(leaves(a)), list(leaves(b))
    assert [p for p, _ in la] == [p for p, _ in lb], (nm, a, b)
    return [('%s.%s' % (nm, '.'.join(map(str, p)) or 'r'), (S(x), S(y))) for (p, x), (_, y) in zip(la, lb)]


V = lambda **k: Vars(k)

# C01 -------------------------------------------------------------------------------------------------
def c01(v):
    vp, vs = U.V(v)
    K, G_ = U.M_from_V(V(den=v.rho, vp=vp, vs=vs))
    la = U.C['lame'].spec(v)
    return pairs('moduli(velocities(K,G))', (K, G_), (v.K, v.G)) + pairs('poisson=lame/(2(lame+G))', U.C['poi'].spec(v), la / (2 * (la + v.G)))


lem('C01', 'conversions', dict(K=K_(), G=G_(), rho=RHO()), c01)


def c01b(v):
    K, G_ = U.M_from_V(v)
    return pairs('velocities(moduli(Vp,Vs))', U.V(V(K=K, G=G_, rho=v.den)), (v.vp, v.vs))


lem('C01', 'velocities', dict(den=RHO(), vp=R('1000', '8000'), vs=R('1', '5000')), c01b, lambda v: [v.vp > v.vs * Fr(6, 5)])

# C02 -------------------------------------------------------------------------------------------------
def c02(v):
    l = v.K - Fr(2, 3) * v.G
    a = dict(C11=l + 2 * v.G, C33=l + 2 * v.G, C13=l, C44=v.G)
    i = U.iso(v.K, v.G)
    n, m = U.C['write_VTI_matrix'].spec(V(C66=v.G, **a)), U.C['write_HTI_matrix'].spec(V(C55=v.G, **a))
    return pairs('VTI of an isotropic solid', n, i) + pairs('HTI of an isotropic solid', m, i)


lem('C02', 'isotropic', dict(K=K_(), G=G_()), c02)


def c02b(v):
    m = U.v2c(v).view(np.ndarray)
    M = 2 * v.den * v.Vp45 ** 2
    return [('Christoffel equation at 45 degrees', ((M - m[0, 0] - m[3, 3]) * (M - m[2, 2] - m[3, 3]), (m[0, 2] + m[3, 3]) ** 2))]


lem('C02', 'velocities', U.C['v_to_c_VTI'].vars, c02b, U.v2c_pre)

# C03 -------------------------------------------------------------------------------------------------
HSV = dict(f=FRAC(), K1=K_(), K2=R('0.1', '100'), G1=G_(), G2=R('0.05', '80'))
HSP = lambda v: [v.K1 >= v.K2, v.G1 >= v.G2]


def c03(v):
    up, lo = hs(v.f, v.K1, v.K2, v.G1, v.G2, True), hs(v.f, v.K1, v.K2, v.G1, v.G2, False)
    sub = lambda x, f: s_.substitute(x, {v.f.uid: const(f)})
    out = []
    for nm, b in (('upper', up), ('lower', lo)):
        out += pairs(nm + ' at f=1', tuple(sub(x, 1) for x in b), (v.K1, v.G1)) + pairs(nm + ' at f=0', tuple(sub(x, 0) for x in b), (v.K2, v.G2))
    return out


lem('C03', 'Hashin-Shtrikman end members', HSV, c03, HSP)


def c03b(v):
    """bounds of sum f/(M_i+z) - z grow with z: with z>=0 arbitrary, Reuss (z=0) <= value <= Voigt (z->inf), and monotone in z"""
    h = lambda z: 1 / (v.f / (v.a + z) + (1 - v.f) / (v.b + z)) - z
    return [('monotone', h(v.z) <= h(v.y)), ('>= Reuss', 1 / (v.f / v.a + (1 - v.f) / v.b) <= h(v.z)), ('<= Voigt', h(v.z) <= v.f * v.a + (1 - v.f) * v.b)]


lem('C03', 'Reuss <= Hashin-Shtrikman lower <= upper <= Voigt (z = bounding-medium term)', dict(f=FRAC(), a=R('0.05', '100'), b=R('0.05', '100'), z=R('0', '300'), y=R('0', '300')), c03b,
    lambda v: [v.z <= v.y])


def c03c(v):
    z = lambda K, G_: G_ * (9 * K + 8 * G_) / (6 * (K + 2 * G_))
    return [('bulk term', Fr(4, 3) * v.G2 <= Fr(4, 3) * v.G1), ('shear term', z(v.K2, v.G2) <= z(v.K1, v.G1))]


lem('C03', 'bounding terms of the stiffer phase are larger', {k: r for k, r in HSV.items() if k != 'f'}, c03c, HSP)

# C04 -------------------------------------------------------------------------------------------------
GV = dict(Kd=R('1', '30'), K0=R('31', '100'), Kf=KF(), Kg=KF(), phi=PHI())


def c04(v):
    g = F.gassmann(v.Kd, v.K0, v.Kf, v.phi)
    return (pairs('saturated -> dry', F.sat2dry(v.K0, g, v.Kf, v.phi), v.Kd)
            + pairs('substitution = re-saturation', F.C['Gassmann_sub'].spec(V(phi=v.phi, K0=v.K0, K1=g, f1=v.Kf, f2=v.Kg)), F.gassmann(v.Kd, v.K0, v.Kg, v.phi))
            + pairs('dry + fluid term', g, v.Kd + (1 - v.Kd / v.K0) ** 2 / (v.phi / v.Kf + (1 - v.phi) / v.K0 - v.Kd / v.K0 ** 2)))


lem('C04', 'Gassmann', GV, c04, lambda v: [v.Kd < v.K0 * (1 - v.phi)])


def c04b(v):
    s = F.C['Gassmann_sub'].spec
    k2 = s(v)
    return pairs('same fluid', s(V(phi=v.phi, K0=v.K0, K1=v.K1, f1=v.f1, f2=v.f1)), v.K1) + pairs('back', s(V(phi=v.phi, K0=v.K0, K1=k2, f1=v.f2, f2=v.f1)), v.K1)


lem('C04', 'substitution round trip', F.SUBV(), c04b, F.SUBP)


def c04c(v):
    g = lambda f: v.Kd + (1 - v.Kd / v.K0) ** 2 / (v.phi / f + (1 - v.phi) / v.K0 - v.Kd / v.K0 ** 2)
    return [('dry <= saturated', v.Kd <= g(v.Kf)), ('stiffer fluid, stiffer rock', g(v.Kf) <= g(v.Kg))]


lem('C04', 'Gassmann monotone', GV, c04c, lambda v: [v.Kd < v.K0 * (1 - v.phi), v.Kf <= v.Kg])

# C05 -------------------------------------------------------------------------------------------------
def c05(v):
    K, G_ = v.K, v.G
    l = K - Fr(2, 3) * G_
    Em = G_ * (3 * l + 2 * G_) / (l + G_)
    n = l / (2 * (l + G_))
    iso_s = [[(1 / Em if i == j else -n / Em) if i < 3 and j < 3 else (1 / G_ if i == j else const(0)) for j in range(6)] for i in range(6)]
    r = F.bk(iso_s, v.K0, v.G0, v.Kf, v.phi, 1)
    beta = sum(r[i][j] for i in range(3) for j in range(3))
    return pairs('isotropic rock: Gassmann bulk modulus', 1 / beta, F.gassmann(K, v.K0, v.Kf, v.phi)) + pairs('shear compliance unchanged', r[3][3], iso_s[3][3])


lem('C05', 'isotropic limit', dict(K=R('1', '30'), G=R('1', '30'), K0=R('31', '80'), G0=R('20', '60'), Kf=KF(), phi=PHI()), c05, lambda v: [v.K < v.K0 * (1 - v.phi)])


def c05b(v):
    s = F.sym6(v)
    d = F.bk(s, v.K0, v.G0, v.Kf, v.phi, 1)
    e = F.bk(d, v.K0, v.G0, v.Kf, v.phi, -1)
    return [('dry -> saturated -> dry.%d%d' % (i, j), (e[i][j], s[i][j])) for i, j in ((0, 0), (0, 2), (2, 2), (1, 4), (5, 5))]


lem('C05', 'round trip', F.bkvars(), c05b, lambda v: [F.betaS(v) > 1 / v.K0 + Fr(1, 100)])

# C06 -------------------------------------------------------------------------------------------------
def c06(v):
    r = F.gs_lf(v)
    lo, hi = E.const(0), E.const(0)
    x = r ** 2
    return [('between the two limits', band(smin(v.Vp0, v.Vpinf) ** 2 <= x, x <= smax(v.Vp0, v.Vpinf) ** 2))]


def c06b(v):
    """weights form"""
    x = (v.h ** 4 + v.l ** 4 * v.x) / (v.h ** 2 + v.l ** 2 * v.x)
    return [('velocity between the low and high frequency limits', band(v.l ** 2 <= x, x <= v.h ** 2))]


lem('C06', 'Geertsma-Smit interpolation', dict(l=R('1', '6'), h=R('1', '6'), x=R('0', '1000')), c06b, lambda v: [v.l <= v.h])


def c06c(v):
    G_ = v.G
    return [('no compliance difference: unrelaxed shear = dry', (1 / (1 / G_ - Fr(4, 15) * (1 / v.K - 1 / v.K)), G_)),
            ('unrelaxed shear is not softer', G_ <= 1 / (1 / G_ - Fr(4, 15) * (1 / v.K - 1 / v.Kh)))]


lem('C06', 'Mavko-Jizba', dict(K=R('4', '40'), Kh=R('4', '60'), G=R('2', '40')), c06c, lambda v: [v.Kh >= v.K, v.G < 3 * v.K])

# C07 -------------------------------------------------------------------------------------------------
def c07(v):
    sw = lambda p: E.C['Swiss_cheese'].spec(V(Ks=v.K, Gs=v.G, phi=const(p)))
    K, G_ = sw(0)
    st = [E.sc_dilute(V(Km=v.K, Gm=v.G, Ki=v.Ki, Gi=v.Gi, f=const(0)), m) for m in ('stress', 'strain')]
    return (pairs('no pores', (K, G_), (v.K, v.G)) + pairs('dilute, no inclusions', tuple(st[0]) + tuple(st[1]), (const(1),) * 4)
            + pairs('sphere of host material: P=Q=1', E.pq(v.K, v.G, v.K, v.G, None, branch='sphere'), (const(1), const(1)))
            + pairs('spheroid of host material: P=Q=1', E.pq(v.K, v.G, v.K, v.G, v.a, branch='oblate'), (const(1), const(1))))


lem('C07', 'limits', dict(K=R('20', '60'), G=R('15', '45'), Ki=R('0', '19'), Gi=R('0', '14'), a=R('0.05', '0.95')), c07)


def c07b(v):
    one_ = E.mt(V(f=const(1), Km=v.Km, Gm=v.Gm, K1=v.K1, G1=v.G1, K2=v.K2, G2=v.G2))
    zero = E.mt(V(f=const(0), Km=v.Km, Gm=v.Gm, K1=v.K1, G1=v.G1, K2=v.K2, G2=v.G2))
    same = E.mt(V(f=v.f, Km=v.Km, Gm=v.Gm, K1=v.K1, G1=v.G1, K2=v.K1, G2=v.G1))
    return pairs('f=1', one_, (v.K1, v.G1)) + pairs('f=0', zero, (v.K2, v.G2)) + pairs('identical phases', same, (v.K1, v.G1))


lem('C07', 'Mori-Tanaka end members', E.C['MT_average'].vars, c07b)

# C08 -------------------------------------------------------------------------------------------------
def c08(v):
    z = Vars(v, crd=const(0))
    i = U.iso(v.K, v.G)
    out = []
    for o in (1, 2):
        for ax in (1, 3):
            out += pairs('no cracks (order %d, axis %d)' % (o, ax), E.hudson(z, o, ax), i)
    h3, h1 = E.hudson(v, 1, 3).view(np.ndarray), E.hudson(v, 1, 1).view(np.ndarray)
    p = [2, 1, 0, 5, 4, 3]          # exchange axes 1 and 3
    out += pairs('axis 1 is axis 3 rotated', mat([[h3[p[a], p[b]] for b in range(6)] for a in range(6)]), mat([[h1[a, b] for b in range(6)] for a in range(6)]))
    s = Vars(v, a1=v.alpha, a2=v.alpha, a3=v.alpha, e1=const(0), e2=const(0), e3=v.crd)
    out += pairs('orthorhombic with one set = single set', E.hudson_ortho(s), E.hudson(v, 1, 3))
    out += pairs('vertical cone = single set', E.cone_out(Vars(v, theta=const(0))), E.hudson(v, 1, 3))
    return out


lem('C08', 'Hudson', E.HV(), c08, lambda v: [3 * v.K > 2 * v.G])


def c08b(v):
    d, o = E.C['Dilute_crack'].spec(V(Ks=v.K, Gs=v.G, cd=const(0))), E.C['OConnell_Budiansky'].spec(V(K0=v.K, G0=v.G, crd=const(0)))
    n = E.oc_res(E.nu_(v.K, v.G), const(1), const(0), E.nu_(v.K, v.G), v.w)
    dd = E.C['Dilute_crack'].spec(V(Ks=v.K, Gs=v.G, cd=v.e))
    return pairs('no cracks', tuple(d) + tuple(o), (v.K, v.G, v.K, v.G)) + [('dilute cracks soften', band(dd[0] <= v.K, dd[1] <= v.G)), ('uncracked solid solves the fluid equation', (n[0], const(0)))]


lem('C08', 'crack density 0', dict(K=R('20', '60'), G=R('15', '29'), w=R('0', '2'), e=R('0', '1')), c08b)

# C09 -------------------------------------------------------------------------------------------------
def c09(v):
    w = Vars(v)
    s = Vars(V0=v.V0, V1=v.V1, l0=v.l0, l1=v.l0, G0=v.G0, G1=v.G0)
    r = A.backus_fixed(s, 2)
    m = v.l0 + 2 * v.G0
    b = A.backus_fixed(w, 2)
    sw = A.backus_fixed(Vars(V0=v.V1, V1=v.V0, l0=v.l1, l1=v.l0, G0=v.G1, G1=v.G0), 2)
    return pairs('identical layers', tuple(r), (m, m, v.l0, v.G0, v.G0)) + pairs('layer order', tuple(b), tuple(sw)) + [
        ('C44 <= C66', (v.V0 + v.V1) / (v.V0 / v.G0 + v.V1 / v.G1) <= (v.V0 * v.G0 + v.V1 * v.G1) / (v.V0 + v.V1))]


lem('C09', 'two layers', A.vv(V=(2, ('0.05', '5')), l=(2, ('1', '40')), G=(2, ('1', '40'))), c09)

# C10 -------------------------------------------------------------------------------------------------
def c10(v):
    m = v.l + 2 * v.G
    r = A.thomsen(V(C11=m, C33=m, C13=v.l, C44=v.G, C66=v.G, den=v.den, theta=v.theta))
    vp, vs = sqrt(m / v.den) * 1000, sqrt(v.G / v.den) * 1000
    return pairs('isotropic: no angle dependence', tuple(r), (vp, vs, vs, const(0), const(0), const(0)))


lem('C10', 'isotropic', dict(l=R('2', '30'), G=R('2', '30'), den=RHO(), theta=R('0', '90')), c10)


def c10b(v):
    s, c = v.s, v.c
    q, h = A.christoffel2(v.C11, v.C33, v.C13, v.C44, s, c)
    tr = (v.C11 + v.C44) * s ** 2 + (v.C33 + v.C44) * c ** 2
    det = (v.C11 * s ** 2 + v.C44 * c ** 2) * (v.C44 * s ** 2 + v.C33 * c ** 2) - (v.C13 + v.C44) ** 2 * s ** 2 * c ** 2
    return [('sum of eigenvalues = trace', (q + h, tr)), ('product of eigenvalues = determinant', (q * h, det))]


lem('C10', 'Christoffel', dict(C11=A.cd(), C33=A.cd(), C13=A.co(), C44=A.cs(), s=R('-1', '1'), c=R('-1', '1')), c10b)

# C11 -------------------------------------------------------------------------------------------------
def c11(v):
    i = [[x for x in r] for r in U.iso(v.K, v.G).view(np.ndarray)]
    out = []
    for ax in (1, 3):
        b = A.bond(i, deg(v.theta), ax, 2)
        out += pairs('isotropic tensor is unchanged (axis %d)' % ax, b, mat(i))
    return out


lem('C11', 'Bond', dict(K=K_(), G=G_(), theta=R('-180', '180')), c11)


def c11b(v):
    C0 = A.full(v)
    out = []
    for ax in (1, 3):
        z = A.bond(C0, const(0), ax, 2)
        out += pairs('rotation by 0 (axis %d)' % ax, z, mat(C0))
    return out


lem('C11', 'identity', A.C['Bond_trans3'].vars, c11b)

# C12 -------------------------------------------------------------------------------------------------
def c12(v):
    t = deg(v.theta)
    a = AV.aki(t, v.vp, v.vp, v.vs, v.vs, v.d, v.d)
    z = AV.zoep(V(vp1=v.vp, vp2=v.vp, vs1=v.vs, vs2=v.vs, rho1=v.d, rho2=v.d, theta=v.theta), False)
    return pairs('no contrast: Aki-Richards', tuple(a), (const(0),) * 4) + pairs('no contrast: Zoeppritz', tuple(z), (const(0),) * 2)


lem('C12', 'no contrast, no reflection', dict(vp=R('2500', '5000'), vs=R('800', '2400'), d=R('1.8', '2.8'), theta=R('0', '60')), c12, lambda v: [v.vp > v.vs * Fr(6, 5)])


def c12b(v):
    z = AV.zoep(V(vp1=v.vp1, vp2=v.vp2, vs1=v.vs1, vs2=v.vs2, rho1=v.d1, rho2=v.d2, theta=const(0)), False)
    return pairs('normal incidence: impedance contrast', z[0], (v.d2 * v.vp2 - v.d1 * v.vp1) / (v.d2 * v.vp2 + v.d1 * v.vp1)) + pairs('normal incidence: no converted wave', z[1], const(0))


lem('C12', 'Zoeppritz at normal incidence', dict(vp1=R('2500', '5000'), vp2=R('2500', '5000'), vs1=R('800', '2400'), vs2=R('800', '2400'), d1=R('1.8', '2.8'), d2=R('1.8', '2.8')), c12b)

# C13 -------------------------------------------------------------------------------------------------
EMV = dict(Ka=R('0.5', '20'), Ga=R('0.3', '20'), K0=R('21', '80'), G0=R('21', '80'), x=FRAC())


def c13(v):
    e = lambda f, x: f(const(x), v.Ka, v.Ga, v.K0, v.G0)
    return (pairs('soft at zero porosity', e(G.low, 0), (v.K0, v.G0)) + pairs('soft at critical porosity', e(G.low, 1), (v.Ka, v.Ga))
            + pairs('stiff at zero porosity', e(G.up, 0), (v.K0, v.G0)) + pairs('stiff at critical porosity', e(G.up, 1), (v.Ka, v.Ga)))


lem('C13', 'sand end members', EMV, c13)


def c13b(v):
    d, m = G.C['ThomasStieber'].spec(v)
    return [('laminated porosity is a volume average', (m, (1 - v.vsh) * v.phi_sand + v.vsh * v.phi_sh)), ('dispersed <= laminated', d <= m)]


lem('C13', 'Thomas-Stieber', G.C['ThomasStieber'].vars, c13b)


def c13c(v):
    k, g = G.walton(Vars(v, f=const(1)))
    k0, g0 = G.walton(Vars(v, f=const(0)))
    return [('smooth sphere pack: G = 3K/5', (g0, Fr(3, 5) * k0)), ('rough and smooth packs have the same bulk modulus', (k, k0))]


lem('C13', 'Walton', G.C['Walton'].vars, c13c)

# C14 -------------------------------------------------------------------------------------------------
def c14(v):
    d = G.C['diluting'].spec
    return pairs('no stress: k', d(V(k=v.k, sigma0=v.sigma0, sigma=const(0), m=v.m)), v.k)


lem('C14', 'diluting at zero stress', dict(k=R('0', '2'), sigma0=R('5', '60'), m=R('0.2', '6')), c14)


def c14b(v):
    d = G.C['diluting'].spec(V(k=v.k, sigma0=v.sigma0, sigma=v.sigma0 + v.x, m=const(2)))
    return [('0 at and above the reference stress', band(d <= 0, const(0) <= d))]


lem('C14', 'diluting above the reference stress', dict(k=R('0', '2'), sigma0=R('5', '60'), x=R('0', '80')), c14b)


def c14c(v):
    h = lambda f, u: hs(f, v.Kc, v.Ku, v.Gc, v.Gu, u)
    out = []
    for u in (True, False):
        out += pairs('all cemented (%s)' % ('stiff' if u else 'soft'), h(const(1), u), (v.Kc, v.Gc)) + pairs('no cement (%s)' % ('stiff' if u else 'soft'), h(const(0), u), (v.Ku, v.Gu))
    return out


lem('C14', 'patchy end members', dict(Kc=R('5', '40'), Gc=R('5', '40'), Ku=R('0.5', '5'), Gu=R('0.3', '5')), c14c)

# C16 -------------------------------------------------------------------------------------------------
def c16(v):
    w = modular.unfold
    return pairs('no salt: water', tuple(w(S(x)) for x in B.brine(v.T, v.P, const(0))), tuple(w(S(x)) for x in B.C['rho_K_water'].spec(v)))


lem('C16', 'brine without salt', dict(T=R('0', '150'), P=R('0.1', '140')), c16)


def c16b(v):
    m = lambda e, s: (1 - s) * v.b ** 1 if False else None
    k = lambda s: 1 / ((1 - s) / v.b + s / v.g)
    br = lambda s: (v.b - v.g) * (1 - s) ** 3 + v.g
    return pairs('Wood at 0 and 1', (k(const(0)), k(const(1))), (v.b, v.g)) + pairs('Brie at 0 and 1', (br(const(0)), br(const(1))), (v.b, v.g)) + [
        ('Wood between the fluids', band(v.g <= k(v.s), k(v.s) <= v.b))]


lem('C16', 'mixtures', dict(b=R('1.5', '4'), g=R('0.01', '1'), s=FRAC()), c16b)

# C17 -------------------------------------------------------------------------------------------------
def c17(v):
    J = EP.C['Japsen'].spec
    K = EP.krief(v)
    K0 = EP.krief(Vars(v, phi=const(0)))
    return pairs('Krief at zero porosity', tuple(K0), (v.Kg - Fr(2, 3) * v.Gg, v.Gg, v.Kg)) + pairs('Krief: K = lambda + 2G/3', K[2], K[0] + Fr(2, 3) * K[1]) + pairs(
        'clean sand and pure shale of Greenberg-Castagna', tuple(EP.gc(V(Vp=v.Vp, vsh=const(x))) for x in (0, 1)),
        (D('0.80416') * v.Vp - D('855.88'), D('0.76969') * v.Vp - D('867.35')))


lem('C17', 'limits', dict(phi=R('0', '0.6'), Kg=K_(), Gg=G_(), Vp=R('1600', '6500')), c17)

# C18 -------------------------------------------------------------------------------------------------
def c18(v):
    pl = EP.P['Panda_Lake'].spec(V(d=v.d, C=const(0), S=v.S, tau=D('2.5'), phi=v.phi))
    kp = EP.P['Kozeny_Carman_Percolation'].spec(V(phi=v.phi, phic=const(0), d=v.d, B=const(Fr(1, 180))))
    kc = EP.P['Kozeny_Carman'].spec(v)
    b = EP.P['Bernabe'].spec
    return pairs('single grain size: Kozeny-Carman', pl, kc) + pairs('no percolation threshold: Kozeny-Carman', kp, kc) + pairs(
        'Bernabe: tubes only', b(V(phi=v.phi, crf=const(0), w=v.d, r=v.d)), v.phi * v.d ** 2 / 20)


lem('C18', 'limits', dict(phi=R('0.01', '0.5'), d=R('0.001', '1000'), S=R('-1', '3')), c18)


def c18b(v):
    kc = EP.P['Kozeny_Carman'].spec
    a, b = kc(V(phi=v.phi, d=v.d)), kc(V(phi=v.phj, d=v.d))
    f = EP.P['Fredrich'].spec
    return [('positive', const(0) < a), ('grows with porosity', a <= b), ('Fredrich grows with grain size', f(V(phi=v.phi, d=v.d, b=v.b)) <= f(V(phi=v.phi, d=v.d * 2, b=v.b)))]


lem('C18', 'monotone', dict(phi=R('0.01', '0.5'), phj=R('0.01', '0.5'), d=R('0.1', '10'), b=R('2', '3')), c18b, lambda v: [v.phi <= v.phj])

# C19 -------------------------------------------------------------------------------------------------
def c19(v):
    f = Q.fr(v.vsh, v.phi_c, v.phi_0)
    out = pairs('solid fractions sum to 1', f[0] + f[1] + f[2], const(1))
    n = Q.fr(v.vsh, v.phi_c, v.phi_c)
    out += pairs('no cement when the porosity is critical', n[2], const(0))
    out += pairs('one mineral: its own modulus', Q.matrix(v.vsh, v.phi_c, v.phi_0, v.g, v.g, v.g), v.g) + pairs('one mineral: its own density', Q.den(v.vsh, v.phi_c, v.phi_0, v.g, v.g, v.g), v.g)
    return out


lem('C19', 'matrix', Q.MV('1', '80'), c19, Q.MP_)
