"""Contracts: rockphypy.utils (velocities, moduli, stiffness matrices)."""
from .base import *

C = {}


def V(v):
    return (sqrt((v.K + v.G * 4 / 3) / v.rho) * 1000, sqrt(v.G / v.rho) * 1000)


C['V'] = Contract('utils.V', dict(K=R('0.0001', '1000'), G=R('0', '500'), rho=R('0.0001', '20')), V, vec=[('K', 'G', 'rho'), ('K',), ('rho',)], int_arrays=True)
C['poi'] = Contract('utils.poi', dict(K=R('0.0001', '1000'), G=R('0', '500')), lambda v: (3 * v.K - 2 * v.G) / (2 * (3 * v.K + v.G)), vec=[('K', 'G')], int_arrays=True)
C['lame'] = Contract('utils.lame', dict(K=R('0', '1000'), G=R('0', '500')), lambda v: v.K - v.G * Fr(2, 3), vec=[('K', 'G')], int_arrays=True)


def M_from_V(v):
    G = v.den * v.vs ** 2 / 10 ** 6
    return v.den * v.vp ** 2 / 10 ** 6 - G * Fr(4, 3), G


C['M_from_V'] = Contract('utils.M_from_V', dict(den=R('0.0001', '20'), vp=R('10', '15000'), vs=R('0', '10000')), M_from_V,
                         vec=[('den', 'vp', 'vs'), ('vp', 'vs')], int_arrays=True, pre=lambda v: [v.vp > v.vs * Fr(116, 100)])

c_ = lambda: R('0.001', '500')
so = lambda: R('-300', '300')


def m6(d, o12, o13, o23, sh):
    return mat([[d[0], o12, o13, 0, 0, 0], [o12, d[1], o23, 0, 0, 0], [o13, o23, d[2], 0, 0, 0],
                [0, 0, 0, sh[0], 0, 0], [0, 0, 0, 0, sh[1], 0], [0, 0, 0, 0, 0, sh[2]]])


C['write_HTI_matrix'] = Contract('utils.write_HTI_matrix', dict(C11=c_(), C33=c_(), C13=so(), C44=c_(), C55=c_()),
    lambda v: m6((v.C11, v.C33, v.C33), v.C13, v.C13, v.C33 - 2 * v.C44, (v.C44, v.C55, v.C55)))
C['write_VTI_compliance'] = Contract('utils.write_VTI_compliance', dict(S11=c_(), S12=so(), S13=so(), S33=c_(), S44=c_()),
    lambda v: m6((v.S11, v.S11, v.S33), v.S12, v.S13, v.S13, (v.S44, v.S44, 2 * (v.S11 - v.S12))))
C['write_VTI_matrix'] = Contract('utils.write_VTI_matrix', dict(C11=c_(), C33=c_(), C13=so(), C44=c_(), C66=c_()),
    lambda v: m6((v.C11, v.C11, v.C33), v.C11 - 2 * v.C66, v.C13, v.C13, (v.C44, v.C44, v.C66)))
C['write_matrix'] = Contract('utils.write_matrix',
    dict(C11=c_(), C22=c_(), C33=c_(), C12=so(), C13=so(), C23=so(), C44=c_(), C55=c_(), C66=c_()),
    lambda v: m6((v.C11, v.C22, v.C33), v.C12, v.C13, v.C23, (v.C44, v.C55, v.C66)))


def iso(K, G):
    l = K - Fr(2, 3) * G
    return m6((l + 2 * G,) * 3, l, l, l, (G, G, G))


C['write_iso'] = Contract('utils.write_iso', dict(K=K_(), G=G_()), lambda v: iso(v.K, v.G))
C['crack_por'] = Contract('utils.crack_por', dict(crd=R('0', '10'), alpha=R('0', '10')), lambda v: Fr(4, 3) * PI * v.alpha * v.crd,
                          vec=[('crd', 'alpha'), ('crd',)])


def v2c(v):
    """the stiffnesses are the ones whose Christoffel velocities are the measured ones"""
    c11, c33, c44, c66 = v.den * v.Vp90 ** 2, v.den * v.Vp0 ** 2, v.den * v.Vs0 ** 2, v.den * v.Vsh90 ** 2
    m = 2 * v.den * v.Vp45 ** 2
    # (2 rho V45^2 - c11 - c44)(2 rho V45^2 - c33 - c44) = (c13+c44)^2
    c13 = sqrt((m - c11 - c44) * (m - c33 - c44)) - c44
    return m6((c11, c11, c33), c11 - 2 * c66, c13, c13, (c44, c44, c66))


def v2c_pre(v):
    c11, c33, c44 = v.Vp90 ** 2, v.Vp0 ** 2, v.Vs0 ** 2
    m = 2 * v.Vp45 ** 2
    return [m > c11 + c44, m > c33 + c44, v.Vp0 > v.Vs0 * Fr(6, 5), v.Vp90 > v.Vsh90 * Fr(6, 5)]


C['v_to_c_VTI'] = Contract('utils.v_to_c_VTI', dict(Vp0=R('0.3', '9'), Vp45=R('0.3', '9'), Vp90=R('0.3', '9'), Vs0=R('0.05', '6'), Vsh90=R('0.05', '6'), den=RHO()),
                           v2c, pre=v2c_pre)
