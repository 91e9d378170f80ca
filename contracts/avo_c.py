"""Contracts: rockphypy.AVO."""
from .base import *
from .anis_c import vv, arrs, thomsen_par, cd, co, cs

C = {}
VPR, VSR, DR, THR = ('300', '9000'), ('50', '6000'), ('0.3', '8'), ('-85', '85')
VP1, VS, DEN = lambda: R(*VPR), lambda: R(*VSR), lambda: R(*DR)
slower = lambda s, p: s * 100 < p * 99


def half(a, b): return (a + b) / 2


def hti_rpp(c1, c2, d1, d2, th, az):
    def lay(c, d):
        e, _, dl = thomsen_par(c['11'], c['33'], c['13'], c['55'], c['66'])
        a, b = sqrt(c['33'] / d), sqrt(c['44'] / d)
        return a, b, d * a, c['44'], e, dl, (c['44'] - c['66']) / (2 * c['66'])
    (a1, b1, z1, m1, e1, l1, g1), (a2, b2, z2, m2, e2, l2, g2) = lay(c1, d1), lay(c2, d2)
    k = (2 * half(b1, b2) / half(a1, a2)) ** 2
    da = (a2 - a1) / half(a1, a2)
    cp, sp, st, tt = cos(az) ** 2, sin(az) ** 2, sin(th) ** 2, tan(th) ** 2
    return ((z2 - z1) / (z1 + z2) + (da - k * (m2 - m1) / half(m1, m2) + (l2 - l1 + 2 * k * (g2 - g1)) * cp) * st / 2
            + (da + (e2 - e1) * cp ** 2 + (l2 - l1) * sp * cp) * st * tt / 2)


KEYS = ('11', '12', '13', '22', '23', '33', '44', '55', '66')


def cmat(v, p):
    c = {k: v[p + k] for k in KEYS}
    from .utils_c import m6
    return m6((c['11'], c['22'], c['33']), c['12'], c['13'], c['23'], (c['44'], c['55'], c['66']))


cvars = lambda p: {p + k: (cd() if k in ('11', '22', '33') else co() if k in ('12', '13', '23') else cs()) for k in KEYS}
C['AVO_HTI'] = GridContract('AVO.AVO_HTI', dict(dict(D1=DEN(), D2=DEN(), theta=R(*THR), az=R('-720', '720')), **cvars('a'), **cvars('b')),
    lambda v: hti_rpp({k: v['a' + k] for k in KEYS}, {k: v['b' + k] for k in KEYS}, v.D1, v.D2, deg(v.theta), deg(v.az)),
    rows=('az',), cols=('theta',), shapes=('i', 'j'), args=lambda v: [v.D1, v.D2, cmat(v, 'a'), cmat(v, 'b'), v.theta, v.az], pre=lambda v: [], name='AVO.AVO_HTI[N azimuths x M angles]',
    groupscale='all')


def aki(t, vp1, vp2, vs1, vs2, d1, d2):
    a, b, d = half(vp1, vp2), half(vs1, vs2), half(d1, d2)
    da, db, dd = (vp2 - vp1) / a, (vs2 - vs1) / b, (d2 - d1) / d
    s, c = sin(t), cos(t)
    r0, M, N_ = (da + dd) / 2, -2 * (b / a) ** 2 * (2 * db + dd), da / 2
    p = s / vp1
    cs_ = sqrt(1 - s ** 2 * (vs1 / vp1) ** 2)
    q = b ** 2 * c * cs_ / (a * b)
    rps = -p * a / (2 * cs_) * ((1 - 2 * b ** 2 * p ** 2 + 2 * q) * dd - (4 * b ** 2 * p ** 2 - 4 * q) * db)
    return r0 + M * s ** 2 + N_ * tan(t) ** 2, rps, r0, M + N_


AK = ('vp1', 'vp2', 'vs1', 'vs2', 'd1', 'd2')
akr = dict(vp1=VPR, vp2=VPR, vs1=VSR, vs2=VSR, d1=DR, d2=DR)
C['Aki_Richards'] = Contract('AVO.Aki_Richards', dict(dict(theta=R(*THR)), **{k: R(*r) for k, r in akr.items()}), pre=lambda v: [slower(v.vs1, v.vp1)], spec=lambda v: aki(deg(v.theta), *[v[k] for k in AK]), vec=[('theta',)])


C['Aki_Richards_array'] = GridContract('AVO.Aki_Richards', dict(dict(theta=R(*THR)), **{k: R(*r) for k, r in akr.items()}), lambda v: aki(deg(v.theta), *[v[k] for k in AK]),
    rows=AK, cols=('theta',), shapes=(('i', 'j'), ('i', 'j'), ('i', 1), ('i', 1)), args=lambda v: [v.theta] + [v[k] for k in AK], pre=lambda v: [slower(v.vs1, v.vp1)],
    name='AVO.Aki_Richards[N interfaces x M angles]')


def zoep(v, dev):
    t = deg(v.theta)
    p = (sin(v.theta) if dev else sin(t)) / v.vp1
    sj1, sj2, si2 = p * v.vs1, p * v.vs2, p * v.vp2
    cq = lambda x: sqrt(1 - x ** 2)
    ci1, ci2, cj1, cj2 = cos(t) / v.vp1, cq(si2) / v.vp2, cq(sj1) / v.vs1, cq(sj2) / v.vs2
    a = v.rho2 * (1 - 2 * sj2 ** 2) - v.rho1 * (1 - 2 * sj1 ** 2)
    b = v.rho2 * (1 - 2 * sj2 ** 2) + 2 * v.rho1 * sj1 ** 2
    c = v.rho1 * (1 - 2 * sj1 ** 2) + 2 * v.rho2 * sj2 ** 2
    d = 2 * (v.rho2 * v.vs2 ** 2 - v.rho1 * v.vs1 ** 2)
    E, F, G, H = b * ci1 + c * ci2, b * cj1 + c * cj2, a - d * ci1 * cj2, a - d * ci2 * (cj2 if dev else cj1)
    D_ = E * F + G * H * p ** 2
    return ((b * ci1 - c * ci2) * F - (a + d * ci1 * cj2) * H * p ** 2) / D_, -2 * ci1 * (a * b + c * d * ci2 * cj2) * p * v.vp1 / (v.vs1 * D_)


C['zoeppritz'] = Contract('AVO.zoeppritz', dict(vp1=VP1(), vs1=VS(), rho1=DEN(), vp2=VP1(), vs2=VS(), rho2=DEN(), theta=R(*THR)),
    lambda v: zoep(v, False), pre=lambda v: [slower(v.vs1, v.vp1), slower(v.vs2, v.vp2)] + [slower(x ** 2 * s ** 2, v.vp1 ** 2) for x in (v.vp2, v.vs2) for s in (sin(v.theta), sin(deg(v.theta)))], vec=[('theta',)],
    known=dict(id='K-zoeppritz', text='AVO.zoeppritz: the ray parameter is sin(theta in degrees)/vp1, and H uses cos(phi2)/vs2 where the Zoeppritz solution has cos(phi1)/vs1; '
               'pinned by the existing test', spec=lambda v: zoep(v, True)))


def abe(v):
    a, b, d = half(v.vp1, v.vp2), half(v.vs1, v.vs2), half(v.d1, v.d2)
    da, db, dd = (v.vp2 - v.vp1) / a, (v.vs2 - v.vs1) / b, (v.d2 - v.d1) / d
    r0 = (da + dd) / 2
    pr = lambda p, s: (p ** 2 - 2 * s ** 2) / (2 * (p ** 2 - s ** 2))
    p1, p2 = pr(v.vp1, v.vs1), pr(v.vp2, v.vs2)
    pa = half(p1, p2)
    # Shuey: A0*R0 with F = da/(da+dd); A0 = F - 2(1+F)(1-2nu)/(1-nu)
    k = 2 * (1 - 2 * pa) / (1 - pa)
    b1 = da / 2 - k * (r0 + da / 2) + (p2 - p1) / (1 - pa) ** 2
    b2 = da / 2 - 2 * (b / a) ** 2 * (dd + 2 * db)
    e1 = -dd / 2 - b / a * (dd + 2 * db) + (b / a) ** 3 * (dd / 2 + db)
    e2 = -2 * v.vs1 / v.vp1 * ((Fr(1, 2) + a / (4 * b)) * dd + db)
    return r0, b1, b2, e1, e2


C['AVO_abe'] = Contract('AVO.AVO_abe', dict(vp1=VP1(), vs1=VS(), d1=DEN(), vp2=VP1(), vs2=VS(), d2=DEN()), abe,
                        pre=lambda v: [slower(v.vs1, v.vp1), slower(v.vs2, v.vp2),
                         bor(lt(Fr(1, 100) * (v.vp1 + v.vp2) * (v.d1 + v.d2), (v.vp2 - v.vp1) * (v.d1 + v.d2) + (v.d2 - v.d1) * (v.vp1 + v.vp2)),
                             lt((v.vp2 - v.vp1) * (v.d1 + v.d2) + (v.d2 - v.d1) * (v.vp1 + v.vp2), -Fr(1, 100) * (v.vp1 + v.vp2) * (v.d1 + v.d2)))],
                        vec=[('vp1', 'vs1', 'd1', 'vp2', 'vs2', 'd2'), ('vp2', 'vs2')])


def ei(Vp, Vs, rho, t, K, mp, ms, mr, norm):
    s, c = sin(t), cos(t)
    s2 = s * Vs / Vp                     # sin of the S angle, from the velocities given
    c2 = sqrt(1 - s2 ** 2)
    ip, is_ = (mp * mr, ms * mr) if norm else (1, 1)
    if norm:
        Vp, Vs, rho = Vp / mp, Vs / ms, rho / mr
    q, q2 = sqrt(1 - K ** 2 * s ** 2), sqrt(1 - s2 ** 2 / K ** 2)
    pp = ip * Vp ** (1 / c ** 2) * Vs ** (-8 * K ** 2 * s ** 2) * rho ** (1 - 4 * K ** 2 * s ** 2)
    psv = ip * Vs ** (s / q * (4 * s ** 2 * K ** 2 - 4 * K * c * q)) * rho ** (-s / q * (1 - 2 * s ** 2 * K ** 2 + 2 * K * c * q))
    svp = is_ * Vs ** (s2 / q2 * (4 * s2 ** 2 - 4 * K * c2 * q2)) * rho ** (-s2 / q2 * (1 - 2 * s2 ** 2 + 2 * K * c2 * q2))
    svsv = is_ * Vs ** (-1 / c2 ** 2 + 8 * s2 ** 2) * rho ** (-1 + 4 * s2 ** 2)
    shsh = is_ * Vs ** (-1 + s2 ** 2 / c2 ** 2) / rho
    return pp, psv, svp, svsv, shsh


EIT = ('-80', '80')
EIV = lambda: dict(Vp=R('0.3', '9000'), Vs=R('0.1', '6000'), rho=DEN(), theta=R(*EIT), SP=R('0.1', '1.1'))
eip = lambda Vs, Vp, t, K: [slower(Vs, Vp), K * sin(deg(t)) < Fr(99, 100), -K * sin(deg(t)) < Fr(99, 100), slower(sin(deg(t)) ** 2 * Vs ** 2, Vp ** 2 * K ** 2)]
EIP = lambda v: eip(v.Vs, v.Vp, v.theta, v.SP)
C['EI_ref_raw'] = Contract('AVO.EI_ref', EIV(), lambda v: ei(v.Vp, v.Vs, v.rho, deg(v.theta), v.SP, None, None, None, False), kwargs=lambda v: dict(norm=False),
                           pre=EIP, vec=[('theta',)], name='AVO.EI_ref[norm=False]')
C['EI_ref_scalar'] = Contract('AVO.EI_ref', EIV(), lambda v: ei(v.Vp, v.Vs, v.rho, deg(v.theta), v.SP, v.Vp, v.Vs, v.rho, True), defaults={'norm': True},
                              pre=EIP, vec=[('theta',)], name='AVO.EI_ref[norm=True]')
for nm in (True, False):
    C['EI_ref_array%d' % nm] = GridContract('AVO.EI_ref', EIV(), lambda v, nm=nm: ei(v.Vp, v.Vs, v.rho, deg(v.theta), v.SP, v.get('mean_Vp'), v.get('mean_Vs'), v.get('mean_rho'), nm),
        rows=('Vp', 'Vs', 'rho'), cols=('theta',), shapes=(('i', 'j'),) * 5, args=lambda v: [v.Vp, v.Vs, v.rho, v.theta, v.SP], kwargs=lambda v, nm=nm: {} if nm else dict(norm=False),
        defaults={'norm': True} if nm else {}, pre=EIP, mean=('Vp', 'Vs', 'rho') if nm else (), name='AVO.EI_ref[N samples x M angles,norm=%s]' % nm)


def ortho(v):
    t = deg(v.the)
    s, tt = sin(t) ** 2, tan(t) ** 2
    k = ((v.b1 + v.b2) / ((v.a1 + v.a2) / 2)) ** 2
    G1, G2, da = v.rho1 * v.b1 ** 2, v.rho2 * v.b2 ** 2, (v.a2 - v.a1) / half(v.a1, v.a2)
    r0 = (v.rho2 * v.a2 - v.rho1 * v.a1) / (v.rho2 * v.a2 + v.rho1 * v.a1)
    dG = (G2 - G1) / half(G1, G2)
    return (r0 + (da - k * (dG - 2 * (v.g2 - v.g1)) + v.d22 - v.d12) * s / 2 + (da + v.e22 - v.e12) * s * tt / 2,
            r0 + (da - k * dG + v.d21 - v.d11) * s / 2 + (da + v.e21 - v.e11) * s * tt / 2)


an = lambda: R('-2', '2')
C['AVO_ortho'] = Contract('AVO.AVO_ortho', dict(a1=VP1(), b1=VS(), e11=an(), d11=an(), e12=an(), d12=an(), g1=an(), rho1=DEN(),
                                                a2=VP1(), b2=VS(), e21=an(), d21=an(), e22=an(), d22=an(), g2=an(), rho2=DEN(), the=R(*THR)),
                          ortho, vec=[('the',), ('a2', 'b2', 'rho2')])
