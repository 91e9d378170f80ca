"""further array modes: every parameter that the documentation calls an array, alone (the modes in the contracts are combinations)"""
MODES = {
    'utils': {
        'crack_por': [('alpha',)],
        'lame': [('K',), ('G',)],
        'V': [('G',)],
        'M_from_V': [('den',), ('vp',), ('vs',)],
        'poi': [('K',), ('G',)],
    },
    'em': {
        'Swiss_cheese': [('Gs',)],
        'cripor': [('K0',), ('G0',)],
        'HS_lower': [('K1',), ('K2',), ('G1',), ('G2',)],
        'HS_upper': [('K1',), ('K2',), ('G1',), ('G2',)],
    },
    'fluid': {
        'Gassmann': [('Kd',), ('Gd',), ('phi',)],
        'Gassmann_sub': [('phi',), ('K1',)],
        'Geertsma_Smit_HF': [('Kdry',), ('Gdry',)],
        'Biot_HF': [('Kdry',), ('Gdry',)],
        'Gassmann_vels': [('Vp1',), ('Vs1',), ('phi',)],
        'Mavko_Jizba': [('Vpdry',), ('Vsdry',)],
    },
    'gm': {
        'vpcm_10': [('alpha',), ('sigma',)],
        'pcm_stiff20': [('sigma',)],
        'pcm_soft20': [('sigma',)],
        'pcm_stiff21': [('sigma',)],
        'vpcm_11': [('alpha',), ('sigma',)],
        'vpcm_20': [('alpha',), ('sigma',)],
        'pcm_soft21': [('sigma',)],
        'vpcm_21': [('alpha',), ('sigma',)],
    },
    'avo': {
        'AVO_abe': [('vp1',), ('vs1',), ('d1',), ('vp2',), ('vs2',), ('d2',)],
        'EI_ref_raw': [('Vs',), ('rho',)],
        'AVO_ortho': [('a1', 'b1', 'e11', 'd11', 'e12', 'd12', 'g1', 'rho1', 'a2', 'b2', 'e21', 'd21', 'e22', 'd22', 'g2', 'rho2', 'the')],
    },
    'bw': {
        'pseudo_p_t': [('T',)],
        'rho_K_oil': [('T',)],
        'rho_K_water': [('T',)],
        'v_brine': [('T',), ('P',)],
        'rho_K_go': [('T',)],
        'rho_K_brine': [('T',), ('P',)],
        'rho_K_go_max': [('T',)],
    },
    'emp': {
        'esti_VS': [('vsh',)],
        'han': [('C',)],
    },
    'perm': {
        'Owolabi': [('Swi',)],
        'Perm_logs': [('Swi',)],
    },
}

# arrays in several parameters at once (logs of the whole model), where the documentation names one of them an array
MORE = {
    'em': {
        'HS_soft': [('f',), ('f', 'K1', 'K2', 'G1')],
        'hudson_rand': [('K', 'G'), ('K', 'G', 'crd')],
        'cripor': [('K0', 'G0', 'phi', 'phic')],
        'OConnell_Budiansky': [('K0', 'G0', 'crd')],
        'MT_average': [('f', 'Km', 'Gm')],
        'SC_flex': [('f', 'Km', 'Gm')],
    },
    'fluid': {
        'vels': [('Kd', 'Gd', 'K0', 'D0', 'Kf', 'Df', 'phi')],
        'Gassmann_vels': [('Vp1', 'Vs1', 'rho1', 'rhofl1', 'Kfl1', 'rhofl2', 'Kfl2', 'K0', 'phi'), ('Vp1', 'Vs1', 'rho1', 'phi')],
        'Gassmann_approx': [('M1', 'M0', 'f1', 'f2', 'phi')],
        'Biot': [('Kdry', 'Gdry', 'freq')],
        'Biot_HF': [('Kdry', 'Gdry'), ('Kdry', 'Gdry', 'phi')],
        'Geertsma_Smit_HF': [('Kdry', 'Gdry'), ('Kdry', 'Gdry', 'phi')],
        'Mavko_Jizba': [('Vp_hs', 'Vs_hs', 'Vpdry', 'Vsdry', 'K0', 'rhodry', 'rhofl', 'Kfl', 'phi'), ('Vp_hs', 'Vs_hs', 'Vpdry', 'Vsdry', 'phi')],
        'Brie': [('Kw', 'Kgas', 'Sw', 'e')],
    },
    'gm': {
        'hertzmindlin': [('K0', 'G0', 'phic', 'Cn', 'sigma', 'f')],
        'softsand': [('K0', 'G0', 'phi'), ('K0', 'G0', 'phi', 'phic', 'Cn', 'sigma', 'f')],
        'stiffsand': [('K0', 'G0', 'phi'), ('K0', 'G0', 'phi', 'phic', 'Cn', 'sigma', 'f')],
        'Walton': [('K0', 'G0', 'phic', 'Cn', 'sigma', 'f')],
        'contactcement1': [('K0', 'G0', 'phi')],
        'contactcement2': [('K0', 'G0', 'phi')],
        'constantcement1': [('K0', 'G0', 'phi')],
        'constantcement2': [('K0', 'G0', 'phi')],
        'MUHS1': [('K0', 'G0', 'phi')],
        'MUHS2': [('K0', 'G0', 'phi')],
        'silty_shale': [('C', 'Kq', 'Gq', 'Ksh', 'Gsh')],
        'shaly_sand': [('phis', 'C', 'Kss', 'Gss', 'Kcc', 'Gcc')],
        'diluting': [('sigma', 'k')],
    },
    'anis': {
        'Thomsen': [('C11', 'C33', 'C13', 'C44', 'C66', 'den', 'theta')],
    },
    'avo': {
        'AVO_ortho': [('rho1',), ('rho2',), ('a1', 'b1'), ('a2',), ('g1', 'g2')],
    },
    'bw': {
        'rho_K_gas': [('P', 'T', 'G')],
        'rho_K_co2': [('P', 'T', 'G')],
        'rho_K_oil': [('P', 'T', 'den')],
        'v_brine': [('T', 'P', 'S')],
        'rho_K_brine': [('T', 'P', 'S')],
    },
    'perm': {
        'Panda_Lake': [('d', 'C', 'S', 'tau', 'phi')],
        'Kozeny_Carman_Percolation': [('phi', 'phic', 'd', 'B')],
        'Bernabe': [('phi', 'crf', 'w', 'r')],
        'Fredrich': [('phi', 'd', 'b')],
    },
}
for g_, ms_ in MORE.items():
    for k_, vs_ in ms_.items():
        MODES.setdefault(g_, {}).setdefault(k_, []).extend(vs_)
