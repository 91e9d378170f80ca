"""property id -> its contracts, lemmas and relational obligations"""
from . import utils_c, em_c, fluid_c, gm_c, anis_c, avo_c, bw_c, emp_c, qi_c, lemmas, modes
from vc import relational

G = {'utils': utils_c.C, 'em': em_c.C, 'fluid': fluid_c.C, 'gm': gm_c.C, 'anis': anis_c.C, 'avo': avo_c.C, 'bw': bw_c.C, 'emp': emp_c.C, 'perm': emp_c.P, 'qi': qi_c.C}
for g_, ms_ in modes.MODES.items():
    for k_, vs_ in ms_.items():
        have_ = {frozenset(x) for x in G[g_][k_].vec}
        G[g_][k_].vec = G[g_][k_].vec + [x for x in vs_ if frozenset(x) not in have_]
# these take one-dimensional arrays (they index the elements or build a matrix or table with a row per element)
for g_, k_ in [('em', 'PQ_vectorize_oblate'), ('em', 'PQ_vectorize_prolate'), ('fluid', 'Biot'), ('qi', 'matrix_modulus_v'), ('qi', 'den_matrix_v')] + \
        [('qi', k) for k in G['qi'] if k.startswith('estimate_cem')]:
    G[g_][k_].matrix_ok = False
PROPS = {
    'C01': ('utils', ['V', 'poi', 'lame', 'M_from_V', 'crack_por']),
    'C02': ('utils', ['write_', 'v_to_c_VTI']),
    'C03': ('em', ['VRH', 'cripor', 'HS_']),
    'C04': ('fluid', ['Brie', 'Gassmann', 'vels']),
    'C05': ('fluid', ['BK_']),
    'C06': ('fluid', ['Biot', 'Geertsma', 'Mavko', 'Squirt', 'White']),
    'C07': ('em', ['Swiss', 'SC', 'PQ_', 'DEM', 'MT_', 'Berryman']),
    'C08': ('em', ['Eshelby', 'hudson', 'Dilute', 'OConnell', 'OC_R']),
    'C09': ('anis', ['Backus']),
    'C10': ('anis', ['Thomsen', 'vel_azi']),
    'C11': ('anis', ['Bond']),
    'C12': ('avo', ['']),
    'C13': ('gm', ['ThomasStieber', 'silty', 'shaly', 'hertz', 'softsand', 'stiffsand', 'Walton', 'constantcement', 'MUHS']),
    'C14': ('gm', ['pcm', 'vpcm', 'diluting']),
    'C15': ('gm', ['contactcement', 'Digby', 'johnson']),
    'C16': ('bw', ['']),
    'C17': ('emp', ['']),
    'C18': ('perm', ['']),
    'C19': ('qi', ['']),
}
GROUP_OF = {}
for p, (g, pre) in PROPS.items():
    for k in G[g]:
        if any(k.startswith(x) for x in pre):
            assert (g, k) not in GROUP_OF, (g, k)
            GROUP_OF[g, k] = p
missing = [(g, k) for g in G for k in G[g] if (g, k) not in GROUP_OF]
assert not missing, missing


def contracts():
    return [(g, k, c) for g in G for k, c in G[g].items()]


def items(prop):
    if prop in PROPS:
        g, pre = PROPS[prop]
        return [c for k, c in G[g].items() if GROUP_OF[g, k] == prop] + lemmas.L.get(prop, [])
    if prop == 'C20':
        return relational.purity([c for _, _, c in contracts()])
    if prop == 'C21':
        # results over two axes: element (i, j) is the scalar relation of row i and column j
        return relational.pointwise([c for _, _, c in contracts()]) + [avo_c.C[k] for k in ('Aki_Richards_array', 'EI_ref_array0', 'AVO_HTI')]
    if prop == 'lemmas':
        return [l for ls in lemmas.L.values() for l in ls]
    if prop in G:
        return list(G[prop].values())
    g, n = prop.split(':')
    return [x for k, x in G[g].items() if k.startswith(n)]
