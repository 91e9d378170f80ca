"""Contracts: rockphypy.BW (Batzle-Wang fluids)."""
from .base import *
from .fluid_c import C as FC

C = {}
P_, T_, G_g = lambda: R('0.1', '140'), lambda: R('0', '300'), lambda: R('0.5', '2')


def zfac(p, t):
    q = D('0.45') + 8 * (D('0.56') - 1 / t) ** 2
    return (D('0.03') + D('0.00527') * (D('3.5') - t) ** 3) * p + (D('0.642') * t - D('0.007') * t ** 4 - D('0.52')) \
        + D('0.109') * (D('3.85') - t) ** 2 * exp(-q * p ** D('1.2') / t)


def dzdp(p, t):
    q = D('0.45') + 8 * (D('0.56') - 1 / t) ** 2
    return D('0.03') + D('0.00527') * (D('3.5') - t) ** 3 - D('0.109') * (D('3.85') - t) ** 2 * D('1.2') * p ** D('0.2') * q / t * exp(-q * p ** D('1.2') / t)


C['dz_dp'] = Contract('BW.dz_dp', dict(P_pr=R('0.01', '40'), T_pr=R('0.5', '5')), lambda v: dzdp(v.P_pr, v.T_pr), vec=[('P_pr',), ('P_pr', 'T_pr')], atol=1e-9)


def ppt(P, T, G):
    return T + D('273.15'), P / (D('4.892') - D('0.4048') * G), (T + D('273.15')) / (D('94.72') + D('170.75') * G)


C['pseudo_p_t'] = Contract('BW.pseudo_p_t', dict(P=P_(), T=T_(), G=G_g()), lambda v: ppt(v.P, v.T, v.G), vec=[('P', 'T'), ('P',)], int_arrays=True)


def gas(P, G, Ta, p, t):
    Z = zfac(p, t)
    g0 = D('0.85') + D('5.6') / (p + 2) + D('27.1') / (p + D('3.5')) ** 2 - D('8.7') * exp(-D('0.65') * (p + 1))
    return D('28.8') * G * P / (Z * D('8.3145') * Ta), P * g0 / (1 - p / Z * dzdp(p, t)) / 1000


C['rho_K_gas'] = Contract('BW.rho_K_gas', dict(P=P_(), T=T_(), G=G_g()), lambda v: gas(v.P, v.G, *ppt(v.P, v.T, v.G)), vec=[('P', 'T'), ('P',), ('T',)])


def co2(P, T, G, dev):
    Ta = T + D('273.15')
    return gas(P, G, Ta, P / D('7.4'), Ta / (D('31.1') + (D('273.5') if dev else D('273.15'))))


KCO2 = 'BW.rho_K_co2 adds 273.5 (not 273.15) to the critical temperature 31.1 degC of CO2; pinned by the existing test'
C['rho_K_co2'] = Contract('BW.rho_K_co2', dict(P=P_(), T=T_(), G=G_g()), lambda v: co2(v.P, v.T, v.G, False), vec=[('P', 'T'), ('P',), ('T',)],
                          known=dict(id='K-co2-Tc', text=KCO2, spec=lambda v: co2(v.P, v.T, v.G, True)))


def oilv(r, T, P):
    return 2096 * sqrt(r / (D('2.6') - r)) - D('3.7') * T + D('4.64') * P + D('0.0115') * (D('4.12') * sqrt(D('1.08') / r - 1) - 1) * T * P


def oil(v):
    rp = v.den + (D('0.00277') * v.P - D('0.000000171') * v.P ** 3) * (v.den - D('1.15')) ** 2 + D('0.000349') * v.P
    rho = rp / (D('0.972') + D('0.000381') * (v.T + D('17.78')) ** D('1.175'))
    return rho, rho * oilv(v.den, v.T, v.P) ** 2 / 10 ** 6


C['rho_K_oil'] = Contract('BW.rho_K_oil', dict(P=P_(), T=T_(), den=R('0.5', '1.07')), oil, vec=[('P', 'T'), ('P',), ('den',)])


def live(P, T, den, G, Rg):
    B_ = D('0.972') + D('0.00038') * (D('2.4') * Rg * sqrt(G / den) + T + D('17.8')) ** D('1.175')
    ps = den / (B_ * (1 + Rg / 1000))
    rho = (den + D('0.0012') * G * Rg) / B_
    return rho, rho * oilv(ps, T, P) ** 2 / 10 ** 6


C['rho_K_go'] = Contract('BW.rho_K_go', dict(P=P_(), T=T_(), den=R('0.5', '1'), G=R('0.5', '2'), Rg=R('0', '1000')),
                         lambda v: live(v.P, v.T, v.den, v.G, v.Rg), vec=[('P', 'T'), ('P',)])
C['rho_K_go_max'] = Contract('BW.rho_K_go', dict(P=P_(), T=T_(), den=R('0.6', '1'), G=R('0.5', '2')),
    lambda v: live(v.P, v.T, v.den, v.G, D('0.02123') * v.G * (v.P * exp(D('4.072') / v.den - D('0.00377') * v.T)) ** D('1.205')),
    args=lambda v: [v.P, v.T, v.den, v.G, None], vec=[('P', 'T'), ('P',)], name='BW.rho_K_go[Rg=None]')
W = [['1402.85', '1.524', '0.003437', '-0.00001197'], ['4.871', '-0.0111', '0.0001739', '-0.000001628'],
     ['-0.04783', '0.0002747', '-0.000002135', '0.00000001237'], ['0.0001487', '-0.0000006503', '-0.00000001455', '0.0000000001327'],
     ['-0.0000002197', '0.0000000007987', '0.0000000000523', '-0.0000000000004614']]


def vw(T, P):
    r = S(0)
    for i in range(5):
        for j in range(4):
            r = r + D(W[i][j]) * S(T) ** i * S(P) ** j
    return r


PW = lambda: R('0.1', '200')
C['v_water'] = Contract('BW.v_water', dict(T=R('0', '350'), P=PW()), lambda v: vw(v.T, v.P), vec=[('T', 'P'), ('P',), ('T',)])
modular.register(C['v_water'], nout=1)


def rhow(T, P):
    return 1 + (-80 * T - D('3.3') * T ** 2 + D('0.00175') * T ** 3 + 489 * P - 2 * T * P + D('0.016') * T ** 2 * P - D('0.000013') * T ** 3 * P
                - D('0.333') * P ** 2 - D('0.002') * T * P ** 2) / 10 ** 6


C['rho_K_water'] = Contract('BW.rho_K_water', dict(T=R('0', '350'), P=PW()), lambda v: (rhow(v.T, v.P), rhow(v.T, v.P) * modular.call(C['v_water'], v.T, v.P) ** 2 / 10 ** 6),
                            vec=[('T', 'P'), ('P',)], uses=['BW.v_water'])


def vb(T, P, S_):
    return (modular.call(C['v_water'], T, P) + S_ * (1170 - D('9.6') * T + D('0.055') * T ** 2 - D('0.000085') * T ** 3 + D('2.6') * P - D('0.0029') * T * P - D('0.0476') * P ** 2)
            + S_ ** Fr(3, 2) * (780 - 10 * P + D('0.16') * P ** 2) - 820 * S_ ** 2)


BR = lambda: dict(T=R('0', '350'), P=PW(), S=R('0', '0.6'))
C['v_brine'] = Contract('BW.v_brine', BR(), lambda v: vb(v.T, v.P, v.S), vec=[('T', 'P'), ('S',)], uses=['BW.v_water'])


def brine(T, P, S_):
    r = rhow(T, P) + S_ * (D('0.668') + D('0.44') * S_ + (300 * P - 2400 * P * S_ + T * (80 + 3 * T - 3300 * S_ - 13 * P + 47 * P * S_)) / 10 ** 6)
    return r, r * vb(T, P, S_) ** 2 / 10 ** 6


C['rho_K_brine'] = Contract('BW.rho_K_brine', BR(), lambda v: brine(v.T, v.P, v.S), vec=[('T', 'P'), ('S',)], uses=['BW.v_water'])
modular.register(C['rho_K_gas'])
modular.register(C['rho_K_brine'])
_co2call = Contract('BW.rho_K_co2', C['rho_K_co2'].vars, lambda v: co2(v.P, v.T, v.G, True), name='BW.rho_K_co2*')
modular.register(_co2call)


def mix(v, bw, e, dev):
    G = D('1.5349')
    if bw:
        g = modular.call(C['rho_K_gas'], v.P, v.T, G)
    else:
        g = modular.call(_co2call, v.P, v.T, G) if dev else co2(v.P, v.T, G, False)
    b = modular.call(C['rho_K_brine'], v.T, v.P, v.S)
    K = 1 / ((1 - v.Sc) / b[1] + v.Sc / g[1]) if e is None else (b[1] - g[1]) * (1 - v.Sc) ** e + g[1]
    return (1 - v.Sc) * b[0] + v.Sc * g[0], K


for bw in (0, 1):
    for e in (0, 1):
        C['co2_brine%d%d' % (bw, e)] = Contract('BW.co2_brine', dict(dict(T=T_(), P=P_(), S=R('0', '0.6'), Sc=FRAC()), **(dict(e=R('0.5', '60')) if e else {})),
            lambda v, bw=bw, e=e: mix(v, bw, v.e if e else None, False), args=lambda v, e=e: [v.T, v.P, v.S, v.Sc] + ([v.e] if e else []),
            kwargs=lambda v, bw=bw: dict(bw=True) if bw else {}, defaults=dict(dict() if e else dict(brie_component=None), **({} if bw else dict(bw=False))),
            vec=[('Sc',), ('T', 'P', 'Sc')], name='BW.co2_brine[bw=%s,%s]' % (bool(bw), 'Brie' if e else 'Wood'), uses=['BW.rho_K_gas', 'BW.rho_K_co2', 'BW.rho_K_brine'],
            known=None if bw else dict(id='K-co2-Tc', text=KCO2, spec=lambda v, bw=bw, e=e: mix(v, bw, v.e if e else None, True)))
