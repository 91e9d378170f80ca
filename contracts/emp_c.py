"""Contracts: rockphypy.Empirical and rockphypy.Permeability."""
from .base import *

C = {}
Z_ = lambda hi='20000': R('0', hi)
lin = lambda name, a, b, hi='20000', **k: Contract('Empirical.' + name, dict(Z=Z_(hi)), lambda v: D(a) + D(b) * v.Z, vec=[('Z',)], int_arrays=True, **k)


def krief(v):
    m = (1 - v.phi) ** (3 / (1 - v.phi))
    return m * (v.Kg - Fr(2, 3) * v.Gg), m * v.Gg, m * v.Kg


C['krief'] = Contract('Empirical.krief', dict(phi=R('0', '0.99'), Kg=R('0.1', '1000'), Gg=R('0', '1000')), krief, vec=[('phi',), ('phi', 'Kg', 'Gg')], atol=1e-9)


def gc(v):
    a, b = D('0.80416') * v.Vp / 1000 - D('0.85588'), D('0.76969') * v.Vp / 1000 - D('0.86735')
    return 500 * ((1 - v.vsh) * a + v.vsh * b + 1 / ((1 - v.vsh) / a + v.vsh / b))


C['esti_VS'] = Contract('Empirical.esti_VS', dict(Vp=R('1200', '10000'), vsh=FRAC()), gc, vec=[('Vp', 'vsh'), ('Vp',)], int_arrays=True)
C['han'] = Contract('Empirical.han', dict(phi=R('0', '1'), C=R('0', '1')), lambda v: (5590 - 6930 * v.phi - 2180 * v.C, 3520 - 4910 * v.phi - 1890 * v.C),
                    vec=[('phi', 'C'), ('phi',)])
C['ehrenberg'] = Contract('Empirical.ehrenberg', dict(Z=Z_()), lambda v: D('0.4802422') - D('0.092200747') * v.Z / 1000, vec=[('Z',)], int_arrays=True)
SEG = dict(special=('2630',))
C['yu_segment_trend'] = Contract('Empirical.yu_segment_trend', dict(Z=R('0', '20000', special=('2630', '2629', '2631'))),
    lambda v: ite(le(v.Z, const(2630)), D('1707.998') + D('0.66') * v.Z, D('1200.84') + D('0.853') * v.Z), vec=[('Z',)], int_arrays=True)
C['ramm_porosity'] = Contract('Empirical.ramm_porosity', dict(Z=Z_()), lambda v: (D('46.4') - D('0.0085') * v.Z) / 100, defaults={'HB': True}, vec=[('Z',)])
C['ramm_porosity_all'] = Contract('Empirical.ramm_porosity', dict(Z=Z_()), lambda v: (D('42.7') - D('0.0069') * v.Z) / 100, kwargs=lambda v: dict(HB=False), vec=[('Z',)],
                                  name='Empirical.ramm_porosity[HB=False]')
C['ramm_porosity_segment'] = Contract('Empirical.ramm_porosity_segment', dict(Z=Z_()),
    lambda v: smin(45 * exp(-D('0.00025') * v.Z), 25 - D('0.013') * (v.Z - 2500)), vec=[('Z',)], int_arrays=True)
PE = {1: (('4.21', '0.187', '0.746', 24), ('2.58', '0.160', '0.781', 20)), 2: (('4.55', '0.298', '0.8', 19), ('2.83', '0.195', '0.741', 16))}
for s in (1, 2):
    C['StPeter%d' % s] = Contract('Empirical.empirical_StPeter', dict(Pe=R('0', '20')),
        lambda v, s=s: tuple(1000 * (D(a) + D(k) * v.Pe - D(b) * exp(-d * v.Pe)) for a, k, b, d in PE[s]), kwargs=lambda v, s=s: dict(sample=s) if s == 2 else {},
        defaults={'sample': 1} if s == 1 else {}, vec=[('Pe',)], name='Empirical.empirical_StPeter[sample=%d]' % s)
C['Scherbaum'] = lin('Scherbaum', '2325', '0.51')
C['Sclater'] = Contract('Empirical.Sclater', dict(phi=R('0.0001', '1')), lambda v: D('3.7') * log(D('0.49') / v.phi), vec=[('phi',)], atol=1e-9)
C['Storvoll'] = Contract('Empirical.Storvoll', dict(Z=Z_()), lambda v: (v.Z + 2600) / D('1.76'), vec=[('Z',)], int_arrays=True)
C['Hillis'] = Contract('Empirical.Hillis', dict(Z=Z_('6700')), lambda v: 304800 / (D('135.9') - D('20.22') * v.Z / 1000), vec=[('Z',)], int_arrays=True)
C['Japsen'] = Contract('Empirical.Japsen', dict(Z=R('0', '20000', special=('1393', '2000', '3500', '5300', '1392', '1999', '3499', '5299'))),
    lambda v: ite(lt(v.Z, const(1393)), 1550 + D('0.6') * v.Z, ite(lt(v.Z, const(2000)), 2 * v.Z - 400, ite(lt(v.Z, const(3500)), 2600 + v.Z / 2, ite(lt(v.Z, const(5300)), 3475 + v.Z / 4, s_.NAN)))),
    vec=[('Z',)], int_arrays=True)
C['hjelstuen'] = lin('hjelstuen', '1870', '0.55')
C['Cp'] = Contract('Empirical.Cp', dict(phi=R('0', '1')), lambda v: 20 - 34 * v.phi + 14 * v.phi ** 2, vec=[('phi',)])

P = {}
ph, dd = lambda: R('0', '0.99'), lambda: R('0.0001', '10000')
pc = lambda name, vs, spec, vec, **k: Contract('Permeability.' + name, vs, spec, vec=vec, **k)
P['Kozeny_Carman'] = pc('Kozeny_Carman', dict(phi=ph(), d=dd()), lambda v: v.d ** 2 / 180 * v.phi ** 3 / (1 - v.phi) ** 2, [('phi',), ('phi', 'd')])
P['Kozeny_Carman_Percolation'] = pc('Kozeny_Carman_Percolation', dict(phi=R('0', '0.99'), phic=R('0', '0.4'), d=dd(), B=R('0.1', '500')),
    lambda v: v.B * v.d ** 2 * (v.phi - v.phic) ** 3 / (1 + v.phic - v.phi) ** 2, [('phi',), ('phi', 'd')],
    pre=lambda v: [le(v.phic, v.phi)])
P['Owolabi'] = pc('Owolabi', dict(phi=ph(), Swi=R('0.001', '1')),
    lambda v: (307 + 26552 * v.phi ** 2 - 34540 * v.phi ** 2 * v.Swi ** 2, D('30.7') + 2655 * v.phi ** 2 - 3454 * v.phi ** 2 * v.Swi ** 2), [('phi',), ('phi', 'Swi')])
P['Perm_logs'] = pc('Perm_logs', dict(phi=ph(), Swi=R('0.001', '1')),
    lambda v: (62500 * v.phi ** 6 / v.Swi ** 2, 10000 * v.phi ** Fr(9, 2) / v.Swi ** 2, 10000 * v.phi ** 4 * (1 - v.Swi) ** 2 / v.Swi ** 2, 352 * v.phi ** 4 / v.Swi ** 4),
    [('phi',), ('phi', 'Swi')])
P['Panda_Lake'] = pc('Panda_Lake', dict(d=dd(), C=R('0', '10'), S=R('-20', '20'), tau=R('0.1', '100'), phi=ph()),
    lambda v: v.d ** 2 * v.phi ** 3 * (v.S * v.C ** 3 + 3 * v.C ** 2 + 1) ** 2 / (72 * v.tau * (1 - v.phi) ** 2 * (1 + v.C ** 2) ** 2), [('phi',), ('phi', 'd')])
P['Panda_Lake_cem'] = pc('Panda_Lake_cem', dict(phi=ph(), d=dd()), lambda v: D('3.34') * v.d ** 2 * v.phi ** 3 / (1 - v.phi) ** 2, [('phi',), ('phi', 'd')])
P['Revil'] = pc('Revil', dict(phi=ph(), d=dd()), lambda v: 1000 * v.d ** 2 * v.phi ** Fr(9, 2) / 24, [('phi',), ('phi', 'd')])
P['Fredrich'] = pc('Fredrich', dict(phi=R('0.0001', '0.99'), d=dd(), b=R('0.1', '30')), lambda v: v.phi / (v.b * Fr(5, 2)) * (v.phi * v.d / (6 * (1 - v.phi))) ** 2, [('phi',), ('phi', 'd')])
P['Bloch'] = pc('Bloch', dict(S=R('0.5', '20'), C=R('0', '100'), D=R('0.001', '10')),
    lambda v: (D('-6.1') + D('9.8') / v.S + D('0.17') * v.C, const(10) ** (D('-4.67') + D('1.34') * v.D + D('4.08') / v.S + D('3.42') * v.C / 100)), [('S', 'C', 'D'), ('C',)], atol=1e-9)
P['Bernabe'] = pc('Bernabe', dict(phi=ph(), crf=FRAC(), w=R('0.001', '1000'), r=R('0.001', '1000')),
    lambda v: v.phi * (v.crf * v.w ** 2 / 30 + (1 - v.crf) * v.r ** 2 / 20), [('phi',), ('phi', 'crf')])
