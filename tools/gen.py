#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand after an edit here; not part of any check)"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The suite calls each function on one or a few hand-picked inputs and compares rounded numbers; '
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',)):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=TESTS + why,
                  anchors=dict(files=['rockphypy/%s.py' % f for f in files], mechanism=[dict(name=m, where='rockphypy/%s.py' % w) for w, ms in mech.items() for m in ms],
                               observe_at=['return values and arguments of the functions named under mechanism'], hook_needed=None)))


prop('C01', 'Velocity, modulus and crack-density conversions are exact and inverse',
     'Converting bulk modulus, shear modulus (GPa) and density (g/cc) to P and S velocities (m/s) and back returns the moduli, and converting velocities to moduli and back returns the velocities, for every physical solid and for a fluid with zero shear modulus. '
     'Poisson ratio and Lame constant are the ones that belong to the given moduli, and crack porosity is 4/3 pi times crack density times aspect ratio.',
     'all moduli > 0 (shear >= 0), densities > 0, velocities with Vp > 1.2 Vs, floats, integers and arrays',
     'the identities must hold for every combination of moduli and density, including zero shear modulus and integer input.',
     ['utils'], {'utils': ['V', 'M_from_V', 'poi', 'lame', 'crack_por']})
prop('C02', 'Stiffness and compliance matrices have the symmetry they are named for',
     'A 6x6 stiffness or compliance matrix built from independent constants is symmetric, has every constant at the Voigt position of the named symmetry class (isotropic, VTI, HTI, orthorhombic) and fills the dependent entries by the relations of that class. '
     'The VTI stiffness built from five velocities and a density is the one whose vertical, horizontal and 45-degree phase velocities are the given ones.',
     'all values of the independent constants; all velocity sets for which a VTI medium with a positive-definite stiffness exists',
     'a wrong or transposed entry shows only for constants that differ, and the 45-degree equation couples all inputs.',
     ['utils'], {'utils': ['write_iso', 'write_VTI_matrix', 'write_HTI_matrix', 'write_VTI_compliance', 'write_matrix', 'v_to_c_VTI']})
prop('C03', 'Effective-medium averages equal the published bounds and keep their order',
     'The Voigt, Reuss and Hill averages of any number of phases are the arithmetic mean, the harmonic mean and their mean, weighted by the given volume fractions; the Hashin-Shtrikman bounds of two phases (stiff phase first) equal the published bounds for every fraction from 0 to 1, also when the phases are equal or one is a fluid. '
     'Hence each bound gives the end members at fraction 0 and 1, and Reuss <= lower <= upper <= Voigt. The critical-porosity averages are linear in porosity/critical porosity, and the fluid-filled end member is the Reuss average of moduli or the linear average of densities.',
     'all fractions in [0,1], all moduli > 0 (phase one at least as stiff as phase two), any number of phases, lists and arrays, porosity from 0 to critical porosity',
     'ordering and end-member behaviour are statements over all moduli, all fractions and any number of phases.',
     ['EM'], {'EM': ['VRH', 'HS', 'cripor', 'cripor_reuss']})
prop('C04', 'Gassmann saturation and fluid substitution are exact and reversible',
     'The saturated bulk modulus satisfies Gassmann\'s relation between dry frame, mineral, fluid and porosity, and the shear modulus is unchanged; substituting one fluid by another gives the rock that the same dry frame has with the second fluid, so substituting back, or the same fluid, returns the original modulus. '
     'The velocity versions apply the same moduli with the mass-balanced density. Brie mixing goes from the gas modulus at zero water saturation to the water modulus at full saturation and is the Voigt average for exponent 1.',
     'all porosities in (0,1), dry frame below the mineral, fluids below the mineral, initial saturated rocks that some dry frame has; floats and arrays',
     'a round trip of substitutions and the relation itself involve five independent inputs.',
     ['Fluid'], {'Fluid': ['Gassmann', 'Gassmann_sub', 'Gassmann_approx', 'Gassmann_vels', 'vels', 'Brie']})
prop('C05', 'Anisotropic (Brown-Korringa) fluid substitution is exact and reversible',
     'For a rock of any symmetry the saturated compliance follows from the dry one by the Brown-Korringa relation with an isotropic mineral, the result is symmetric, and the dry compliance computed from the saturated one is the one started from. '
     'Substituting fluid one by fluid two in a stiffness matrix equals drying with fluid one, saturating with fluid two and inverting; for an isotropic rock the bulk modulus is the Gassmann one.',
     'all symmetric 6x6 compliances (21 constants) whose compressibility exceeds the mineral\'s, all mineral and fluid moduli and porosities',
     'the identity has 25 independent inputs and the tests use one matrix.',
     ['Fluid'], {'Fluid': ['Brown_Korringa_dry2sat', 'Brown_Korringa_sat2dry', 'Brown_Korringa_sub']})
prop('C06', 'Wave dispersion and attenuation models equal their published solutions',
     'Frequency-dependent fast P, slow P and S velocities and attenuations of a saturated porous rock solve Biot\'s equations, and the high-frequency limits, the Geertsma-Smit approximations, the Mavko-Jizba unrelaxed moduli, the anisotropic squirt compliances and the White/Dutta-Ode patchy-gas velocity and attenuation equal the published closed forms. '
     'The low-to-middle frequency interpolation stays between its two limits, and the unrelaxed shear modulus equals the dry one when there is no crack compliance.',
     'all frequencies, viscosities, permeabilities, pore sizes, tortuosities, frame, mineral and fluid moduli and densities in physical ranges; scalar frequency or frequency arrays where the function takes them',
     'each result is a formula in ten or more inputs with branches on frequency; tests sample single points.',
     ['Fluid'], {'Fluid': ['Biot', 'Biot_HF', 'Geertsma_Smit_HF', 'Geertsma_Smit_LF', 'Mavko_Jizba', 'Squirt_anisotropic', 'White_Dutta_Ode']})
prop('C07', 'Inclusion models solve their published equations for every shape and count',
     'The inclusion shape factors P and Q equal the published spheroid expressions (sphere at aspect ratio 1) and are 1 for an inclusion of the host material; the dilute, fixed-point self-consistent, Mori-Tanaka, N-phase self-consistent and differential effective medium estimates are the results of their published equations or iterations for every number of iterations or phases. '
     'With no inclusions each returns the host moduli, and with a fraction of 1 of one phase the average returns that phase.',
     'all host and inclusion moduli (empty and fluid inclusions included), aspect ratios in (0,1] and above 1, fractions and porosities of the model\'s range, any iteration count, any number of phases',
     'iteration counts, phase counts and aspect ratios are unbounded ranges.',
     ['EM'], {'EM': ['Swiss_cheese', 'SC', 'SC_flex', 'SC_dilute', 'PQ', 'PQ_vectorize', 'MT_average', 'Berryman_func', 'Berryman_sc', 'DEM', 'Berryman_DEM']}, over=('inputs', 'configurations'))
prop('C08', 'Cracked-rock models equal their published stiffnesses and vanish without cracks',
     'The stiffness of a rock with aligned, randomly oriented, orthogonal or conically distributed cracks equals the published Hudson expansion of the requested order and crack-normal axis, and the penny-crack compliances, Eshelby-Cheng stiffnesses and dry or fluid-filled self-consistent crack moduli equal their published forms. '
     'At zero crack density the isotropic host comes back, cracks normal to axis 1 are the axis-3 result with the axes exchanged, and three orthogonal sets with one non-empty set equal that single set.',
     'all host moduli with positive Poisson ratio, crack densities from 0, aspect ratios, infill moduli from 0, orders 1 and 2, axes 1 and 3, cone angles 0 to 90 degrees',
     'the consequences (zero-crack limit, axis exchange, single set) hold for all inputs and options or not at all.',
     ['EM'], {'EM': ['hudson', 'hudson_rand', 'hudson_ortho', 'hudson_cone', 'Eshelby_Cheng', 'Dilute_crack', 'OConnell_Budiansky', 'OC_R_funcs', 'OConnell_Budiansky_fl']}, over=('inputs', 'configurations'))
prop('C09', 'Backus averaging of layers equals the long-wave VTI medium',
     'The five stiffnesses of a stack of isotropic layers equal the Backus averages for any number of layers with weights proportional to the given thicknesses, whatever their sum; identical layers give that layer and the order of layers does not matter. '
     'The version for logs takes each layer\'s thickness from consecutive depths and returns the thickness-weighted density with the same stiffnesses.',
     'any number of layers, all positive thicknesses, Lame constants and shear moduli; increasing depths',
     'the number of layers is unbounded.',
     ['Anisotropy'], {'Anisotropy': ['Backus', 'Backus_log']})
prop('C10', 'Anisotropy parameters and directional velocities match the elastic tensor',
     'Thomsen and Tsvankin parameters are the published functions of the stiffnesses and vanish for isotropic stiffness; the weak-anisotropy velocities use them at the given angle in degrees. '
     'The exact VTI and HTI phase velocities at any angle are the square roots of the eigenvalues of the Christoffel matrix over density, with the quasi-P mode the fastest in-plane one.',
     'all stable VTI/HTI/orthorhombic stiffnesses, densities and angles (degrees, negative angles and arrays included)',
     'every angle and every stiffness tensor; tests use one tensor.',
     ['Anisotropy'], {'Anisotropy': ['Thomsen', 'Thomsen_Tsvankin', 'vel_azi_VTI', 'vel_azi_HTI']})
prop('C11', 'Rotating a stiffness matrix is the Bond transformation',
     'Rotating a 6x6 stiffness matrix by an angle in degrees about axis 1 or axis 3 is M C M^T with the Bond matrix of that rotation: the result is symmetric, rotation by 0 changes nothing, and an isotropic matrix is unchanged. '
     'One listed deviation (the factor 2 of one block) is a known finding; every other difference is a violation.',
     'all symmetric 6x6 matrices (21 constants), all angles, both axes',
     '21 constants and a continuous angle.',
     ['Anisotropy'], {'Anisotropy': ['Bond_trans']}, over=('inputs', 'configurations'))
prop('C12', 'AVO reflectivities equal the published reflection coefficients',
     'Aki-Richards, Zoeppritz, HTI, orthorhombic and elastic-impedance results equal the published expressions for every angle and contrast, for one interface or angle and for arrays of interfaces and angles, with angles in degrees. '
     'Two identical half-spaces reflect nothing, and at normal incidence the P reflectivity is the impedance contrast (linearised where the method is linearised); the listed deviations of the Zoeppritz implementation are known findings.',
     'all velocity, density, stiffness and anisotropy contrasts and all angles below the critical angle, any number of angles, azimuths and interfaces',
     'continuous angles, contrasts and array shapes.',
     ['AVO'], {'AVO': ['Aki_Richards', 'zoeppritz', 'AVO_abe', 'AVO_HTI', 'AVO_ortho', 'EI_ref']})
prop('C13', 'Granular sand models reach their end members and equal the published bounds',
     'Grain-pack moduli follow Hertz-Mindlin and Walton contact theory in effective pressure (MPa), coordination number, porosity and the fraction of rough contacts; soft-, stiff- and constant-cement-sand moduli are the modified Hashin-Shtrikman interpolation in porosity between the mineral and the end member at critical (or cemented) porosity. '
     'At zero porosity they give the mineral and at the end-member porosity the grain pack or the cemented pack; silty shale, shaly sand and Thomas-Stieber mixing interpolate likewise between their pure end members.',
     'all minerals, porosities from 0 to the end member, critical porosities, coordination numbers, pressures, rough fractions in [0,1], both cementation schemes, floats and arrays',
     'each holds for every mineral, pressure and porosity; the composition of contact theory and bound has seven inputs.',
     ['GM'], {'GM': ['hertzmindlin', 'Walton', 'softsand', 'stiffsand', 'constantcement', 'MUHS', 'silty_shale', 'shaly_sand', 'ThomasStieber']})
prop('C14', 'Patchy cement models interpolate between cemented and uncemented sand',
     'Patchy cemented moduli at critical porosity are the Hashin-Shtrikman mix (stiff or soft arrangement, or the linear combination of both set by the connectivity weight) of a cemented and an unconsolidated end member for the given cemented fraction, carried to lower porosity by the soft interpolation to the mineral. '
     'Above the given contact-cement limit the cemented end member follows the increasing-cement model. The dilution weight is k at zero stress, falls with stress by the given exponent and is 0 at and beyond the reference stress.',
     'all cemented fractions in [0,1], stresses, porosities, cement volumes below and above the limit, both schemes, both arrangements, all weights, floats and stress arrays',
     'the branch on cement volume, the modes and the schemes multiply; tests take one path.',
     ['GM'], {'GM': ['pcm', 'vpcm', 'diluting']}, over=('inputs', 'configurations'))
prop('C15', 'Contact cement, bonded-sphere and stress-path models equal their theory',
     'Contact-cement moduli equal Dvorkin-Nur theory for cement at grain contacts and for cement evenly on grain surfaces; Digby moduli use the positive root of the contact equation for every pressure and bond radius. '
     'Stress-induced anisotropic stiffnesses and the vertical and lateral stresses of a sphere pack follow the published strain-path theory for each of its three documented strain paths; listed deviations are known findings.',
     'all minerals and cements, porosities up to critical, coordination numbers, pressures, bond radii from 0, strains (hydrostatic and uniaxial), three strain paths',
     'three paths, two schemes and continuous inputs; two of the paths have no test.',
     ['GM'], {'GM': ['contactcement', 'Digby', 'johnson']}, over=('inputs', 'configurations'))
prop('C16', 'Fluid properties equal the Batzle-Wang relations and reduce at their limits',
     'Density and bulk modulus of gas, CO2, dead and live oil, water and brine equal the Batzle-Wang relations for every pressure (MPa), temperature (Celsius), gravity, gas ratio and salinity, with the compressibility derivative being that of the gas law used. '
     'Brine without salt is water; a CO2-brine mixture is pure brine or pure CO2 at saturation 0 or 1, its density is the volume average, and its modulus follows Wood or the given Brie exponent in between.',
     'pressures 5-60 MPa (water to 140), temperatures 20-150 C (water from 0; CO2 above critical), gas gravity 0.56-1.6, oil 0.7-1 g/cc, salinity 0-0.3, saturations 0-1; floats and arrays',
     'polynomials with dozens of coefficients: a single point does not see a wrong coefficient whose contribution is small there.',
     ['BW'], {'BW': ['dz_dp', 'pseudo_p_t', 'rho_K_gas', 'rho_K_co2', 'rho_K_oil', 'rho_K_go', 'v_water', 'rho_K_water', 'v_brine', 'rho_K_brine', 'co2_brine']})
prop('C17', 'Empirical trends equal the published regressions on every segment',
     'Each velocity, porosity, moduli and coordination-number trend returns its published regression at every depth, porosity, clay content or pressure, including both sides and the end points of every segment of a piecewise trend. '
     'The result for a depth does not depend on the other depths in the array or their order, and a single number is accepted wherever an array is.',
     'all depths 0-5000 m (5300 for the deepest trend), porosities, clay contents 0-1, velocities, pressures; sorted and unsorted arrays, floats, integers',
     'piecewise trends have breakpoints and segments that the sampled depths miss.',
     ['Emp'], {'Emp': ['krief', 'esti_VS', 'han', 'ehrenberg', 'yu_segment_trend', 'ramm_porosity', 'ramm_porosity_segment', 'empirical_StPeter', 'Scherbaum', 'Sclater', 'Storvoll', 'Hillis', 'Japsen', 'hjelstuen', 'Cp']})
prop('C18', 'Permeability relations equal the published ones and are consistent',
     'Each permeability is the published function of porosity, grain or pore size, irreducible saturation, tortuosity and sorting, and is not negative where the relation is defined. '
     'Relations that generalise one another agree: no percolation threshold and a single grain size both give Kozeny-Carman, and permeability grows with porosity and with the square of grain size.',
     'all porosities in (0,0.5], grain and pore sizes > 0, saturations in (0,1], tortuosities >= 1, sorting and skewness values; floats and arrays',
     'scaling and limits are statements over all grain sizes and porosities.',
     ['Perm'], {'Perm': ['Kozeny_Carman', 'Kozeny_Carman_Percolation', 'Owolabi', 'Perm_logs', 'Panda_Lake', 'Panda_Lake_cem', 'Revil', 'Fredrich', 'Bloch', 'Bernabe']})
prop('C19', 'Rock-physics diagnostics use exactly the models they display',
     'Screening curves, constant-cement lines and template points are the saturated velocities, impedances and Vp/Vs of the corresponding sand models with mineral, cement and shale mixed by their volume fractions and the brine or mixed fluid; porosities where a model does not apply are left undefined. '
     'The cement estimate of a well sample is 0 below the first line, interpolates linearly between the two lines that bracket its velocity at its porosity, and is the maximum above the last; drawn curves and points are those data.',
     'all minerals, shale volumes, critical porosities, cement schemes, stresses, coordination numbers, all well-log samples, seed lists and grid points',
     'log samples can lie anywhere relative to the lines, and a curve is 100 points of a composition of four models.',
     ['QI'], {'QI': ['screening', 'matrix_modulus', 'den_matrix', 'cst_vels', 'cal_v_const', 'estimate_cem', 'plot_rpt', 'normalize', 'screening_plot', 'cst_plot', 'cement_diag_plot']})
ALL = ['utils', 'EM', 'Fluid', 'GM', 'Anisotropy', 'AVO', 'BW', 'Emp', 'Perm', 'QI']
prop('C20', 'Calls are pure: arguments are not changed and no state is carried over',
     'No function of the package changes the arrays, lists or other arguments it is given, or interpreter-wide settings. '
     'The result of a call depends only on its arguments: it is the same after any history of calls of any functions of the package as in a fresh interpreter, even if the caller has overwritten results of earlier calls.',
     'all histories of calls, all arguments of every numeric function of the package',
     'histories and aliasing are not sampled at all: each test makes one call.',
     ALL, {f: ['every numeric function'] for f in ALL}, over=('histories', 'inputs'))
prop('C21', 'Array results are the element-by-element results',
     'Where a function accepts arrays for some of its inputs, element i of every result equals the result for the i-th elements alone, for arrays of any length, order, repetition and memory layout, for matrices of any shape in the elementwise relations, and integer arrays give the same values as floats. '
     'No element of a result depends on the other elements, on their order, or on the length of the array.',
     'all array lengths, orders and values for every function and combination of inputs that takes arrays',
     'tests use one array each and do not compare it with the single-element results.',
     ALL, {f: ['every function that takes arrays'] for f in ALL}, over=('inputs',))

TECH = 'contracts on the real functions; own VC generator (symbolic execution of the current source) with normal-form and z3 back ends'
NOTE = ('Every obligation (postcondition per result component, frame per argument, state, no-raise, loop invariants, lemmas) is generated from the current source of /repo and discharged for all inputs of the stated domain, '
        'over real arithmetic. Trusted: the VC generator in /verif/vc (cross-checked on every run by evaluating the same contracts on the unmodified package), z3, sympy factorisation, contracts assumed for numpy/scipy. '
        'A failed obligation is reported when its counterexample, or a directed search, fails on the real code. What falls outside the symbolic fragment is listed in the evidence as bounded.')
EXTRA = {
    'C07': ' fsolve and odeint are assumed to return a root / the solution; the equations handed to them are proved, and the returned values are checked at run time (bounded).',
    'C08': ' fsolve is assumed to return a root; the equations handed to it are proved, and the returned values are checked at run time (bounded).',
    'C15': ' The cubic in Digby is characterised as having one positive root (numpy.roots assumed).',
    'C19': ' The kernel density of kde_plot (package kde_diffusion) is trusted; the cement estimate is proved for any number of samples and 2 to 4 lines.',
    'C20': ' Each function is proved to write no reachable state; histories of different functions follow by composition of these frame obligations.',
    'C21': ' Memory layouts, long arrays and integer dtypes are run (the generic element has no dtype); everything else is proved.',
}
checks = [dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
               technique=TECH, level='proof', level_note=NOTE + EXTRA.get(p['id'], '')) for p in P]
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[],
               notes='No hooks are needed in /repo: the checks load its current source text. KNOWN_FINDINGS.md lists the genuine defects found: repaired ("fixed:") or pinned by the existing tests ("known:").'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
