"""Contracts: rockphypy.Anisotropy."""
from .base import *
from .utils_c import m6

C = {}
cd, co, cs = lambda: R('1', '500'), lambda: R('-100', '300'), lambda: R('0.1', '200')
ANG = lambda: R('-720', '720')


def thomsen_par(c11, c33, c13, c44, c66):
    return ((c11 - c33) / (2 * c33), (c66 - c44) / (2 * c44), ((c13 + c44) ** 2 - (c33 - c44) ** 2) / (2 * c33 * (c33 - c44)))


def thomsen(v):
    e, g, d = thomsen_par(v.C11, v.C33, v.C13, v.C44, v.C66)
    a, b, t = sqrt(v.C33 / v.den) * 1000, sqrt(v.C44 / v.den) * 1000, deg(v.theta)
    s, c = sin(t), cos(t)
    return (a * (1 + d * s ** 2 * c ** 2 + e * s ** 4), b * (1 + a ** 2 / b ** 2 * (e - d) * s ** 2 * c ** 2), b * (1 + g * s ** 2), e, g, d)


C['Thomsen'] = Contract('Anisotropy.Thomsen', dict(C11=cd(), C33=cd(), C13=co(), C44=cs(), C66=cs(), den=RHO(), theta=ANG()), thomsen, pre=lambda v: [bnot(eq(v.C33, v.C44))],
                        vec=[('theta',), ('C11', 'C33', 'C13', 'C44', 'C66', 'den')])


def tsvankin(v):
    e1, _, d1 = thomsen_par(v.C22, v.C33, v.C23, v.C44, v.C66)
    e2, _, d2 = thomsen_par(v.C11, v.C33, v.C13, v.C55, v.C66)
    d3 = ((v.C12 + v.C66) ** 2 - (v.C11 - v.C66) ** 2) / (2 * v.C11 * (v.C11 - v.C66))
    return e1, d1, (v.C66 - v.C55) / (2 * v.C55), e2, d2, (v.C66 - v.C44) / (2 * v.C44), d3


C['Thomsen_Tsvankin'] = Contract('Anisotropy.Thomsen_Tsvankin',
    dict(C11=cd(), C22=cd(), C33=cd(), C12=co(), C13=co(), C23=co(), C44=cs(), C55=cs(), C66=cs()), tsvankin,
    pre=lambda v: [bnot(eq(v.C33, v.C44)), bnot(eq(v.C33, v.C55)), bnot(eq(v.C11, v.C66))],
    vec=[('C11', 'C22', 'C33', 'C12', 'C13', 'C23', 'C44', 'C55', 'C66')])


def backus_terms(av, l, G):
    M = l + 2 * G
    im, lm = av(1 / M), av(l / M)
    return av(4 * G * (l + G) / M) + lm ** 2 / im, 1 / im, lm / im, 1 / av(1 / G), av(G)


C['Backus'] = Contract('Anisotropy.Backus', dict(V=R('0', '1000'), lamda=R('-130', '200'), G=R('0.1', '200')),
    lambda v: backus_terms(lambda x: Sum(v.V * x) / Sum(v.V), v.lamda, v.G), sumvars=('V', 'lamda', 'G'), aslist=('list',),
    pre=lambda v: [v.lamda * 3 > v.G * (-2)])


def arrs(v, name, n):
    return mat([v['%s%d' % (name, i)] for i in range(n)])


def backus_fixed(v, n=3):
    w = [v['V%d' % i] for i in range(n)]
    t = sum(w[1:], w[0])

    def av(f):
        r = 0
        for i in range(n):
            r = r + w[i] * f[i]
        return r / t
    l, G = [np.array([v['%s%d' % (k, i)] for i in range(n)], dtype=object) for k in ('l', 'G')]
    return backus_terms(av, l, G)


def vv(**k):
    out = {}
    for name, (n, r) in k.items():
        for i in range(n):
            out['%s%d' % (name, i)] = R(*r)
    return out


C['Backus_list'] = Contract('Anisotropy.Backus', vv(V=(3, ('0.001', '1000')), l=(3, ('0', '200')), G=(3, ('0.1', '200'))), backus_fixed,
    args=lambda v: [[v['%s%d' % (k, i)] for i in range(3)] for k in ('V', 'l', 'G')], name='Anisotropy.Backus[3 layers, lists]')


def blog(v, n=3):
    d = [v['d%d' % i] for i in range(n + 1)]
    w = Vars({'V%d' % i: d[i + 1] - d[i] for i in range(n)})
    t = d[n] - d[0]
    den = 0
    for i in range(n):
        rho = v['r%d' % i]
        G = rho * v['s%d' % i] ** 2
        w['G%d' % i], w['l%d' % i] = G, rho * v['p%d' % i] ** 2 - 2 * G
        den = den + (d[i + 1] - d[i]) / t * rho
    return backus_fixed(w, n) + (den,)


def blog_n(v):
    """any number of layers: thickness-weighted averages"""
    av = lambda x: Sum(v.T * x) / Sum(v.T)
    G = v.r * v.s ** 2
    return backus_terms(av, v.r * v.p ** 2 - 2 * G, G) + (av(v.r),)


def blog_args(v):
    from vc import rt
    d = rt.edges_mark(v.d0, v.T) if isinstance(v.T, rt._VecMark) else arr.SymEdges(v.d0, v.lo.e, v.T.e)
    return [v.p, v.s, v.r, d]


C['Backus_log'] = Contract('Anisotropy.Backus_log', dict(p=R('0.5', '10'), s=R('0.1', '6'), r=R('0.5', '8'), T=R('0.001', '1000'), lo=R('-1000', '10000'), d0=R('-1000', '10000')),
    blog_n, args=blog_args, sumvars=('p', 's', 'r', 'T', 'lo'), aslist=('list',), pre=lambda v: [3 * v.p ** 2 > 4 * v.s ** 2], name='Anisotropy.Backus_log[N layers]')
for _n, _kind in ((3, 'list'), (2, 'array')):
    C['Backus_log%d' % _n] = Contract('Anisotropy.Backus_log',
        dict(vv(p=(_n, ('0.5', '10')), s=(_n, ('0.1', '6')), r=(_n, ('0.5', '8'))), **{'d%d' % i: R('-1000', '10000') for i in range(_n + 1)}),
        lambda v, n=_n: blog(v, n), pre=lambda v, n=_n: [lt(v['d%d' % i], v['d%d' % (i + 1)]) for i in range(n)], args=lambda v, n=_n, k=_kind: [(arrs(v, x, m) if k == 'array' else [v['%s%d' % (x, i)] for i in range(m)])
                                                              for x, m in (('p', n), ('s', n), ('r', n), ('d', n + 1))],
        name='Anisotropy.Backus_log[%d layers]' % _n)


def christoffel2(cxx, czz, cxz, css, s, c):
    """the two in-plane eigenvalues of the Christoffel matrix, direction (c along z', s along x')"""
    a, b, m = cxx * s ** 2 + css * c ** 2, czz * c ** 2 + css * s ** 2, (cxz + css) * s * c
    r = sqrt((a - b) ** 2 + 4 * m ** 2)
    return (a + b + r) / 2, (a + b - r) / 2


def gam(c, s, v):
    return m6((v.C11, v.C22, v.C33), v.C12, v.C13, v.C23, (v.C44, v.C55, v.C66))


def hti(v):
    t = deg(v.az)
    s, c = sin(t), cos(t)
    q, h = christoffel2(v.C33, v.C11, v.C12, v.C55, s, c)
    return sqrt(q / v.Den), sqrt(h / v.Den), sqrt((v.C55 * c ** 2 + v.C44 * s ** 2) / v.Den)


def vti(v):
    t = deg(v.az)
    s, c = sin(t), cos(t)
    q, h = christoffel2(v.C11, v.C33, v.C13, v.C44, s, c)
    return sqrt(q / v.Den), sqrt((v.C66 * s ** 2 + v.C44 * c ** 2) / v.Den), sqrt(h / v.Den)


C['vel_azi_HTI'] = Contract('Anisotropy.vel_azi_HTI', dict(C11=cd(), C33=cd(), C12=co(), C44=cs(), C55=cs(), Den=RHO(), az=ANG()), hti, pre=lambda v: [lt(v.C12 * v.C12, v.C11 * v.C33)],
    args=lambda v: [m6((v.C11, v.C33, v.C33), v.C12, v.C12, v.C33 - 2 * v.C44, (v.C44, v.C55, v.C55)), v.Den, v.az], vec=[('az',), ('az', 'Den')])
C['vel_azi_VTI'] = Contract('Anisotropy.vel_azi_VTI', dict(C11=cd(), C33=cd(), C13=co(), C44=cs(), C66=cs(), Den=RHO(), az=ANG()), vti, pre=lambda v: [lt(v.C13 * v.C13, v.C11 * v.C33)],
    args=lambda v: [m6((v.C11, v.C11, v.C33), v.C11 - 2 * v.C66, v.C13, v.C13, (v.C44, v.C44, v.C66)), v.Den, v.az], vec=[('az',), ('az', 'Den')])


def bond(C, t, axis, f):
    """M C M^T with the Bond matrix of the rotation b about the axis"""
    c, s = cos(t), sin(t)
    b = [[c, s, 0], [-s, c, 0], [0, 0, 1]] if axis == 3 else [[1, 0, 0], [0, c, -s], [0, s, c]]
    b = [[S(x) for x in r] for r in b]
    p = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    M = [[None] * 6 for _ in range(6)]
    for I_, (i, j) in enumerate(p):
        for J, (k, l) in enumerate(p):
            if J < 3:
                M[I_][J] = b[i][k] * b[j][k]
            elif I_ < 3:
                M[I_][J] = f * b[i][k] * b[i][l]
            else:
                M[I_][J] = b[i][k] * b[j][l] + b[i][l] * b[j][k]
    R_ = [[None] * 6 for _ in range(6)]
    for a in range(6):
        for d in range(6):
            x = S(0)
            for k in range(6):
                for l in range(6):
                    x = x + M[a][k] * C[k][l] * M[d][l]
            R_[a][d] = x
    return mat(R_)


def full(v):
    return [[v['c%d%d' % (min(i, j), max(i, j))] for j in range(6)] for i in range(6)]


for ax in (3, 1):
    C['Bond_trans%d' % ax] = Contract('Anisotropy.Bond_trans',
        dict({'c%d%d' % (i, j): (cd() if i == j < 3 else cs() if i == j else R('-200', '200')) for i in range(6) for j in range(i, 6)}, theta=ANG()),
        lambda v, ax=ax: bond(full(v), deg(v.theta), ax, 2), args=lambda v, ax=ax: [mat(full(v)), v.theta] + ([] if ax == 3 else [ax]),
        defaults={'axis': 3} if ax == 3 else {}, name='Anisotropy.Bond_trans[axis=%d]' % ax,
        known=dict(id='K-Bond-M2', text='Anisotropy.Bond_trans: the upper right block of the Bond matrix lacks the factor 2, so an isotropic tensor is changed by a rotation; '
                   'pinned by the existing test', spec=lambda v, ax=ax: bond(full(v), deg(v.theta), ax, 1)), groupscale='all')
