"""Contracts: rockphypy.GM (granular media)."""
from .base import *
from .em_c import hs, nu_
from .utils_c import m6

C = {}
K0_, G0_ = lambda: R('0.5', '500'), lambda: R('0.3', '300')
CN, SIG = lambda: R('1', '30'), lambda: R('0.001', '1000')
PHIC = lambda: R('0.1', '0.7')
PR = lambda v: []

C['ThomasStieber'] = Contract('GM.ThomasStieber', dict(phi_sand=R('0', '1'), phi_sh=R('0', '1'), vsh=FRAC()),
    lambda v: (smax(v.phi_sand - (1 - v.phi_sh) * v.vsh, v.phi_sh * v.vsh), v.phi_sand + (v.phi_sh - v.phi_sand) * v.vsh),
    vec=[('vsh',), ('phi_sand', 'phi_sh', 'vsh')])


def low(f, Ka, Ga, Kb, Gb):
    """modified lower Hashin-Shtrikman: fraction f of the soft end member (Ka,Ga), 1-f of the stiff one"""
    return hs(1 - f, Kb, Ka, Gb, Ga, False)


def up(f, Ka, Ga, Kb, Gb):
    return hs(1 - f, Kb, Ka, Gb, Ga, True)


C['silty_shale'] = Contract('GM.silty_shale', dict(C=FRAC(), Kq=K_(), Gq=G_(), Ksh=K_(), Gsh=G_()),
    lambda v: low(v.C, v.Ksh, v.Gsh, v.Kq, v.Gq),
    vec=[('C',), ('C', 'Ksh', 'Gsh')])
C['shaly_sand'] = Contract('GM.shaly_sand', dict(phis=R('0.05', '0.7'), C=R('0', '0.7'), Kss=K_(), Gss=G_(), Kcc=K_(), Gcc=G_()),
    lambda v: hs(1 - v.C / v.phis, v.Kss, v.Kcc, v.Gss, v.Gcc, True), vec=[('C',), ('Kss', 'Gss', 'C')], pre=lambda v: [v.C <= v.phis])


def ccm(K0, G0, Kc, Gc, phi, phic, Cn, scheme):
    n, nc = nu_(K0, G0), nu_(Kc, Gc)
    a = 2 * ((phic - phi) / (3 * Cn * (1 - phic))) ** Fr(1, 4) if scheme == 1 else sqrt(2 * (phic - phi) / (3 * (1 - phic)))
    L = 2 * Gc / (PI * G0) * (1 - n) * (1 - nc) / (1 - 2 * nc)
    T = Gc / (PI * G0)
    Sn = -D('0.024153') * L ** D('-1.3646') * a ** 2 + D('0.20405') * L ** D('-0.89008') * a + D('0.00024649') * L ** D('-1.9864')
    St = (-D('0.01') * (D('2.26') * n ** 2 + D('2.07') * n + D('2.3')) * T ** (D('0.079') * n ** 2 + D('0.1754') * n - D('1.342')) * a ** 2
          + (D('0.0573') * n ** 2 + D('0.0937') * n + D('0.202')) * T ** (D('0.0274') * n ** 2 + D('0.0529') * n - D('0.8765')) * a
          + D('0.0001') * (D('9.654') * n ** 2 + D('4.945') * n + D('3.1')) * T ** (D('0.01867') * n ** 2 + D('0.4011') * n - D('1.8186')))
    K = Cn * (1 - phic) / 6 * (Kc + Fr(4, 3) * Gc) * Sn
    return K, Fr(3, 5) * K + Fr(3, 20) * Cn * (1 - phic) * Gc * St


CEM = lambda: dict(K0=K0_(), G0=G0_(), Kc=R('1', '200'), Gc=R('0.5', '150'))
PRC = lambda v: []
for s in (1, 2):
    C['contactcement%d' % s] = Contract('GM.contactcement', dict(CEM(), phi=R('0', '0.7'), phic=PHIC(), Cn=CN()),
        lambda v, s=s: ccm(v.K0, v.G0, v.Kc, v.Gc, v.phi, v.phic, v.Cn, s), args=lambda v, s=s: [v.K0, v.G0, v.Kc, v.Gc, v.phi, v.phic, v.Cn, s], pre=lambda v: PRC(v) + [v.phi <= v.phic],
        vec=[('phi',)], name='GM.contactcement[scheme=%d]' % s)
    modular.register(C['contactcement%d' % s], static={'scheme': s})


def hm(K0, G0, phic, Cn, sig, f):
    P = sig / 1000
    n = nu_(K0, G0)
    return (((Cn * (1 - phic) * G0) ** 2 * P / (18 * PI ** 2 * (1 - n) ** 2)) ** Fr(1, 3),
            (2 + 3 * f - n * (1 + 3 * f)) / (5 * (2 - n)) * (3 * (Cn * (1 - phic) * G0) ** 2 * P / (2 * PI ** 2 * (1 - n) ** 2)) ** Fr(1, 3))


HMV = lambda: dict(K0=K0_(), G0=G0_(), phic=PHIC(), Cn=CN(), sigma=R('0', '1000'), f=FRAC())
C['hertzmindlin'] = Contract('GM.hertzmindlin', HMV(), lambda v: hm(v.K0, v.G0, v.phic, v.Cn, v.sigma, v.f), pre=PR,
                             vec=[('sigma',), ('phic', 'Cn'), ('K0', 'G0', 'sigma', 'f')])
modular.register(C['hertzmindlin'])
HM = lambda *a: modular.call(C['hertzmindlin'], *a)
CCM = lambda *a: modular.call(C['contactcement%d' % a[-1]], *a[:-1])
MU = lambda *a: modular.call(C['MUHS%d' % a[-1]], *a[:-1])
SS = lambda: dict(K0=K0_(), G0=G0_(), phi=R('1e-8', '0.7'), phic=PHIC(), Cn=CN(), sigma=SIG(), f=FRAC())
C['softsand'] = Contract('GM.softsand', SS(), lambda v: (lambda h: low(v.phi / v.phic, h[0], h[1], v.K0, v.G0))(HM(v.K0, v.G0, v.phic, v.Cn, v.sigma, v.f)), uses=['GM.hertzmindlin'],
                         pre=PR, vec=[('phi',), ('sigma',), ('phi', 'sigma')])
C['stiffsand'] = Contract('GM.stiffsand', SS(), lambda v: (lambda h: up(v.phi / v.phic, h[0], h[1], v.K0, v.G0))(HM(v.K0, v.G0, v.phic, v.Cn, v.sigma, v.f)), uses=['GM.hertzmindlin'],
                          pre=PR, vec=[('phi',), ('sigma',), ('phi', 'sigma')])

modular.register(C['softsand'])
modular.register(C['stiffsand'])


def walton(v):
    l = v.K0 - Fr(2, 3) * v.G0
    A, B = (1 / v.G0 - 1 / (v.G0 + l)) / (4 * PI), (1 / v.G0 + 1 / (v.G0 + l)) / (4 * PI)
    K = (3 * (1 - v.phic) ** 2 * v.Cn ** 2 * v.sigma / 1000 / (PI ** 4 * B ** 2)) ** Fr(1, 3) / 6
    smooth, rough = Fr(3, 5) * K, Fr(3, 5) * K * (5 * B + A) / (2 * B + A)
    return K, v.f * rough + (1 - v.f) * smooth


C['Walton'] = Contract('GM.Walton', HMV(), walton, pre=PR, vec=[('sigma',), ('phic', 'Cn')])


def johnson(v, path, dev):
    n0 = nu_(v.K0, v.G0)
    Cn, Ct = 4 * v.G0 / (1 - n0), 8 * v.G0 / (2 - n0)
    B, Cw = 2 / (PI * Cn), 4 / PI * (1 / Ct - 1 / Cn)
    g = Fr(3, 32) * Cn * Ct * v.n * (1 - v.phi) * sqrt(v.e)
    a = sqrt(v.e / v.ea)
    r = sqrt(1 + a ** 2)
    I0 = (r + a ** 2 * log(1 + r / a if dev else (1 + r) / a)) / 2
    I2 = (r ** 3 - a ** 2 * I0) / 4
    I4 = (r ** 3 - 3 * a ** 2 * I2) / 6
    c11 = Fr(4, 3) * B + Fr(2, 5) * Cw + v.e / v.ea * (Fr(2, 15) * B + Cw / 35) if dev else 2 * B * (I0 - I2) + Fr(3, 4) * Cw * (I0 - 2 * I2 + I4)
    c33, c13 = 4 * B * I2 + 2 * Cw * I4, Cw * (I2 - I4)
    c44, c66 = B / 2 * (I0 + I2) + Cw * (I2 - I4), B * (I0 - I2) + Cw / 4 * (I0 - 2 * I2 + I4)
    c11, c33, c13, c44, c66 = [g / a * x for x in (c11, c33, c13, c44, c66)]
    T = -(v.e ** Fr(3, 2)) * (1 - v.phi) * v.n / (4 * PI * a ** 3)
    X = a ** 2 * I0 + (1 - a ** 2) * I2 - I4
    t = {'together': I2 - I4, 'uni_iso': const(Fr(1, 12)), 'iso_uni': X - Fr(2, 3) * a ** 3}[path]
    return (m6((c11, c11, c33), c11 - 2 * c66, c13, c13, (c44, c44, c66)), 2 * T * (Ct * t + Cn * (a ** 2 * I2 + I4)), T * (-Ct * t + Cn * X))


for p in ('together', 'uni_iso', 'iso_uni'):
    C['johnson_' + p] = Contract('GM.johnson', dict(K0=K0_(), G0=G0_(), n=CN(), phi=R('0.05', '0.7'), e=R('0.00001', '0.2'), ea=R('0.00001', '0.2')),
        lambda v, p=p: johnson(v, p, False), args=lambda v: [v.K0, v.G0, v.n, v.phi, -v.e, -v.ea], kwargs=lambda v, p=p: dict(path=p) if p != 'together' else {},
        defaults={'path': p} if p == 'together' else {}, pre=PR, name='GM.johnson[%s]' % p, budget=120,
        known=dict(id='K-johnson-I0-C11', text='GM.johnson: I0 uses log(1+sqrt(1+a^2)/a) where the integral is log((1+sqrt(1+a^2))/a), and C11 is not '
                   '(gamma/a)(2B(I0-I2)+3/4 C(I0-2I2+I4)); pinned by the existing test', spec=lambda v, p=p: johnson(v, p, True)))

# order of the variables = order of the parameters of GM.MUHS
BV = lambda: dict(CEM(), phi=R('0', '0.7'), phi_b=R('0.01', '0.7'), phic=PHIC(), Cn=CN())
PRB = lambda v: PRC(v) + [v.phi_b <= v.phic]
for s in (1, 2):
    C['constantcement%d' % s] = Contract('GM.constantcement', BV(), lambda v, s=s: (lambda b: low(v.phi / v.phi_b, b[0], b[1], v.K0, v.G0))(
        CCM(v.K0, v.G0, v.Kc, v.Gc, v.phi_b, v.phic, v.Cn, s)), uses=['GM.contactcement'], args=lambda v, s=s: [v.phi_b, v.K0, v.G0, v.Kc, v.Gc, v.phi, v.phic, v.Cn, s], pre=PRB,
        vec=[('phi',)], name='GM.constantcement[scheme=%d]' % s)
    C['MUHS%d' % s] = Contract('GM.MUHS', BV(), lambda v, s=s: (lambda b: up(v.phi / v.phi_b, b[0], b[1], v.K0, v.G0))(
        CCM(v.K0, v.G0, v.Kc, v.Gc, v.phi_b, v.phic, v.Cn, s)), uses=['GM.contactcement'], args=lambda v, s=s: [v.K0, v.G0, v.Kc, v.Gc, v.phi, v.phi_b, v.phic, v.Cn, s], pre=PRB,
        vec=[('phi',)], name='GM.MUHS[scheme=%d]' % s)
    modular.register(C['MUHS%d' % s], static={'scheme': s})
    modular.register(C['constantcement%d' % s], static={'scheme': s})


def digby(v):
    n = nu_(v.K0, v.G0)
    d = fn('posroot', Fr(3, 2) * v.a_R ** 2, 3 * PI * (1 - n) * v.sigma / 1000 / (2 * v.Cn * (1 - v.phi) * v.G0))
    b = sqrt(d ** 2 + v.a_R ** 2)
    Sn, St = 4 * v.G0 * b / (1 - n), 8 * v.G0 * v.a_R / (2 - n)
    k = v.Cn * (1 - v.phi) / PI
    return mat([k * Sn / 12]), mat([k * (Sn + Fr(3, 2) * St) / 20])


C['Digby'] = Contract('GM.Digby', dict(K0=K0_(), G0=G0_(), phi=R('0.05', '0.7'), Cn=CN(), sigma=SIG(), a_R=R('0', '1')), digby, pre=PR, squeeze=True)


def cemented(v, s, inc):
    if inc:
        return MU(v.K0, v.G0, v.Kc, v.Gc, v.phic - v.v_cem, v.phic - v.v_ci, v.phic, v.Cn, s)
    return CCM(v.K0, v.G0, v.Kc, v.Gc, v.phic - v.v_cem, v.phic, v.Cn, s)


def pcm(v, mode, s, inc):
    u = HM(v.K0, v.G0, v.phic, v.Cn, v.sigma, v.f_)
    c = cemented(v, s, inc)
    st, so = [hs(v.f, c[0], u[0], c[1], u[1], b) for b in (True, False)]
    if mode == 'vpcm':
        p = [x * (1 - v.alpha) + y * v.alpha for x, y in zip(st, so)]
    else:
        p = st if mode == 'stiff' else so
    return low(v.phi / v.phic, p[0], p[1], v.K0, v.G0)


PV = lambda inc: dict(f=FRAC(), sigma=SIG(), K0=K0_(), G0=G0_(), phi=R('0.001', '0.7'), phic=PHIC(),
                      v_cem=R('0.001', '0.6'), v_ci=R('0.001', '0.6'),
                      Kc=R('1', '200'), Gc=R('0.5', '150'), Cn=CN())
PV_pre = lambda inc: lambda v: [(v.v_cem > v.v_ci) if inc else (v.v_cem <= v.v_ci), v.v_cem < v.phic - Fr(1, 100), v.v_ci < v.phic - Fr(1, 100), v.phi <= v.phic]
for s in (1, 2):
    for inc in (0, 1):
        for mode in ('stiff', 'soft'):
            C['pcm_%s%d%d' % (mode, s, inc)] = Contract('GM.pcm', dict(PV(inc), f_=FRAC()), lambda v, mode=mode, s=s, inc=inc: pcm(v, mode, s, inc),
                args=lambda v, mode=mode, s=s: [v.f, v.sigma, v.K0, v.G0, v.phi, v.phic, v.v_cem, v.v_ci, v.Kc, v.Gc, v.Cn, mode, s, v.f_], pre=PV_pre(inc),
                vec=[('phi',), ('sigma',)] if s == 1 else [('sigma', 'phi')], name='GM.pcm[%s,scheme=%d,%s]' % (mode, s, 'increasing' if inc else 'contact'), budget=40, rtol=1e-5, uses=['GM.hertzmindlin', 'GM.contactcement', 'GM.MUHS'])
        C['vpcm_%d%d' % (s, inc)] = Contract('GM.vpcm', dict(dict(alpha=FRAC()), **PV(inc), f_=FRAC()), lambda v, s=s, inc=inc: pcm(v, 'vpcm', s, inc),
            args=lambda v, s=s: [v.alpha, v.f, v.sigma, v.K0, v.G0, v.phi, v.phic, v.v_cem, v.v_ci, v.Kc, v.Gc, v.Cn, s, v.f_], pre=PV_pre(inc),
            vec=[('alpha', 'sigma')], name='GM.vpcm[scheme=%d,%s]' % (s, 'increasing' if inc else 'contact'), budget=40, rtol=1e-5, uses=['GM.hertzmindlin', 'GM.contactcement', 'GM.MUHS'])

C['diluting'] = Contract('GM.diluting', dict(k=R('0', '10'), sigma0=R('0.1', '500'), sigma=R('0', '1000'), m=R('0.05', '20')),
    lambda v: v.k * smax(1 - v.sigma / v.sigma0, 0) ** v.m, vec=[('sigma',)], ints=True)
