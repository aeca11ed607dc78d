import os
import re

from .common import *
from .codata_ref import CONSTANTS
from .units_ref import BY_NAME
from .c14 import base_dims

TITLE = 'constants have their published values'
LEVEL = 'other'
FLOOR = 2000
EXPLAIN = ('abstract evaluation of every exported constant against an independently written table of the CODATA 2006 '
           'values, units and exported names; the shipped tables against each other; the relations between constants')

MASSES = {'electron': ('m_e', 'electron'), 'muon': ('m_mu', 'muon'), 'tau': ('m_tau', 'tau'), 'proton': ('m_p', 'proton'), 'neutron': ('m_n', 'neutron'),
          'deuteron': ('m_d', 'deuteron'), 'triton': ('m_t', 'triton'), 'helion': ('m_h', 'helion'), 'alpha_particle': ('m_alpha', 'alpha')}
# left side, right side (over the constants), relative tolerance (a few standard deviations of the worse known side)
RELATIONS = [
    ('K.Planck_constant_over_2_pi', 'K.h/(2*K.pi)', 1e-9), ('K.mu_0*K.epsilon_0*K.natural_unit_of_velocity**2', '1*pq.dimensionless', 1e-9),
    ('K.Z_0', 'K.mu_0*K.natural_unit_of_velocity', 1e-9), ('K.R', 'K.N_A*K.k', 1e-6), ('K.Faraday_constant', 'K.N_A*K.e', 1e-7),
    ('K.alpha', 'K.e**2/(2*K.epsilon_0*K.h*K.natural_unit_of_velocity)', 1e-7), ('K.alpha*K.inverse_fine_structure_constant', '1*pq.dimensionless', 1e-9),
    ('K.Rydberg_constant', 'K.alpha**2*K.m_e*K.natural_unit_of_velocity/(2*K.h)', 1e-7), ('K.E_h', '2*K.Rydberg_constant*K.h*K.natural_unit_of_velocity', 1e-7),
    ('K.Bohr_radius', 'K.alpha/(4*K.pi*K.Rydberg_constant)', 1e-8), ('K.r_e', 'K.alpha**2*K.Bohr_radius', 1e-8), ('K.Thomson_cross_section', '8*K.pi/3*K.r_e**2', 1e-7),
    ('K.mu_B', 'K.e*K.hbar/(2*K.m_e)', 1e-7), ('K.mu_N', 'K.e*K.hbar/(2*K.m_p)', 1e-7), ('K.Phi_0', 'K.h/(2*K.e)', 1e-7), ('K.K_J', '2*K.e/K.h', 1e-7),
    ('K.R_K', 'K.h/K.e**2', 1e-7), ('K.G_0', '2*K.e**2/K.h', 1e-7), ('K.inverse_of_conductance_quantum*K.G_0', '1*pq.dimensionless', 1e-8),
    ('K.sigma', '(K.pi**2/60)*K.k**4/(K.hbar**3*K.natural_unit_of_velocity**2)', 1e-5), ('K.c_1', '2*K.pi*K.h*K.natural_unit_of_velocity**2', 1e-7),
    ('K.c_2', 'K.h*K.natural_unit_of_velocity/K.k', 1e-5), ('K.b', 'K.c_2/4.965114231744276', 1e-5), ('K.b_prime', '2.821439372122078*K.k/K.h', 1e-5),
    ('K.l_P', '(K.hbar*K.G/K.natural_unit_of_velocity**3)**0.5', 2e-4), ('K.m_P', '(K.hbar*K.natural_unit_of_velocity/K.G)**0.5', 2e-4),
    ('K.t_P', '(K.hbar*K.G/K.natural_unit_of_velocity**5)**0.5', 2e-4), ('K.T_P', 'K.m_P*K.natural_unit_of_velocity**2/K.k', 2e-4),
    ('K.molar_Planck_constant', 'K.N_A*K.h', 1e-6), ('K.molar_Planck_constant_times_c', 'K.N_A*K.h*K.natural_unit_of_velocity', 1e-6),
    ('K.quantum_of_circulation', 'K.h/(2*K.m_e)', 1e-7), ('K.quantum_of_circulation_times_2', 'K.h/K.m_e', 1e-7),
    ('K.elementary_charge_over_h', 'K.e/K.h', 1e-7), ('K.electron_charge_to_mass_quotient', '-1*K.e/K.m_e', 1e-7), ('K.proton_charge_to_mass_quotient', 'K.e/K.m_p', 1e-7),
    ('K.atomic_unit_of_action', 'K.hbar', 1e-12), ('K.atomic_unit_of_charge', 'K.e', 1e-12), ('K.atomic_unit_of_mass', 'K.m_e', 1e-12), ('K.atomic_unit_of_energy', 'K.E_h', 1e-12),
    ('K.atomic_unit_of_length', 'K.Bohr_radius', 1e-12), ('K.atomic_unit_of_time', 'K.hbar/K.E_h', 1e-6), ('K.atomic_unit_of_velocity', 'K.Bohr_radius*K.E_h/K.hbar', 1e-6),
    ('K.atomic_unit_of_force', 'K.E_h/K.Bohr_radius', 1e-6), ('K.atomic_unit_of_momentum', 'K.hbar/K.Bohr_radius', 1e-6), ('K.atomic_unit_of_current', 'K.e*K.E_h/K.hbar', 1e-6),
    ('K.atomic_unit_of_electric_potential', 'K.E_h/K.e', 1e-6), ('K.atomic_unit_of_electric_field', 'K.E_h/(K.e*K.Bohr_radius)', 1e-6),
    ('K.atomic_unit_of_electric_field_gradient', 'K.E_h/(K.e*K.Bohr_radius**2)', 1e-6), ('K.atomic_unit_of_charge_density', 'K.e/K.Bohr_radius**3', 1e-6),
    ('K.atomic_unit_of_electric_dipole_moment', 'K.e*K.Bohr_radius', 1e-6), ('K.atomic_unit_of_electric_quadrupole_moment', 'K.e*K.Bohr_radius**2', 1e-6),
    ('K.atomic_unit_of_electric_polarizability', 'K.e**2*K.Bohr_radius**2/K.E_h', 1e-6), ('K.atomic_unit_of_1st_hyperpolarizability', 'K.e**3*K.Bohr_radius**3/K.E_h**2', 1e-6),
    ('K.atomic_unit_of_2nd_hyperpolarizability', 'K.e**4*K.Bohr_radius**4/K.E_h**3', 1e-6), ('K.atomic_unit_of_magnetic_dipole_moment', 'K.hbar*K.e/K.m_e', 1e-6),
    ('K.atomic_unit_of_magnetic_flux_density', 'K.hbar/(K.e*K.Bohr_radius**2)', 1e-6), ('K.atomic_unit_of_magnetizability', 'K.e**2*K.Bohr_radius**2/K.m_e', 1e-6),
    ('K.atomic_unit_of_permittivity', 'K.e**2/(K.Bohr_radius*K.E_h)', 1e-6), ('K.natural_unit_of_action', 'K.hbar', 1e-12), ('K.natural_unit_of_mass', 'K.m_e', 1e-12),
    ('K.natural_unit_of_energy', 'K.m_e*K.natural_unit_of_velocity**2', 1e-7), ('K.natural_unit_of_momentum', 'K.m_e*K.natural_unit_of_velocity', 1e-7),
    ('K.natural_unit_of_length', 'K.hbar/(K.m_e*K.natural_unit_of_velocity)', 1e-7), ('K.natural_unit_of_time', 'K.hbar/(K.m_e*K.natural_unit_of_velocity**2)', 1e-7),
    ('K.natural_unit_of_velocity', '1*pq.c', 1e-12), ('K.e', '1*pq.e', 1e-12), ('K.u', '1*pq.u', 1e-12), ('K.E_h', '1*pq.hartree', 1e-12), ('K.electron_volt', '1*pq.eV', 1e-12),
    ('1*pq.eV', 'K.e*pq.V', 1e-12), ('K.Faraday_constant', '1*pq.faraday/pq.mol', 1e-12), ('K.atomic_mass_constant', 'K.u', 1e-12), ('K.molar_mass_constant', 'K.molar_mass_of_carbon_12/12', 1e-9),
    ('K.Z_0', '1*pq.characteristic_impedance_of_vacuum', 1e-9), ('K.au', '1*pq.au', 1e-9),
    ('K.Loschmidt_constant', '101325*pq.Pa/(K.k*(273.15*pq.K))', 1e-5), ('K.molar_volume_of_ideal_gas_STP', 'K.R*(273.15*pq.K)/(101325*pq.Pa)', 1e-5),
    ('K.molar_volume_of_ideal_gas_ST_100kPa', 'K.R*(273.15*pq.K)/(100000*pq.Pa)', 1e-5), ('K.lattice_parameter_of_silicon', 'K.silicon_220_lattice_spacing*8**0.5', 1e-7),
    ('K.gamma_p', '2*K.mu_p/K.hbar', 1e-6), ('K.gamma_e', '-2*K.mu_e/K.hbar', 1e-6), ('K.mu_e', 'K.g_e*K.mu_B/2', 1e-6), ('K.mu_p', 'K.g_p*K.mu_N/2', 1e-6),
    ('K.mu_d', 'K.g_d*K.mu_N', 1e-6), ('K.mu_n', 'K.g_n*K.mu_N/2', 1e-6), ('K.Planck_constant_in_eV_s', 'K.h', 1e-6), ('K.Planck_constant_over_2_pi_in_eV_s', 'K.hbar', 1e-6),
    ('K.Boltzmann_constant_in_eV_per_K', 'K.k', 1e-5), ('K.Boltzmann_constant_in_Hz_per_K', 'K.k/K.h', 1e-5), ('K.Hartree_energy_in_eV', 'K.E_h', 1e-6),
    ('K.Rydberg_constant_times_c_in_Hz', 'K.Rydberg_constant*K.natural_unit_of_velocity', 1e-9), ('K.Rydberg_constant_times_hc_in_J', 'K.Rydberg_constant*K.h*K.natural_unit_of_velocity', 1e-7),
    ('K.Rydberg_constant_times_hc_in_eV', 'K.Rydberg_constant_times_hc_in_J', 1e-7), ('K.golden_ratio**2', 'K.golden_ratio + 1*pq.dimensionless', 1e-12),
]
for _p, (_m, _s) in MASSES.items():
    RELATIONS += [('K.%s_mass_energy_equivalent' % _p, 'K.%s*K.natural_unit_of_velocity**2' % _m, 2e-4 if _p == 'tau' else 1e-6),
                  ('K.%s_mass_energy_equivalent_in_MeV' % _p, 'K.%s_mass_energy_equivalent' % _p, 2e-4 if _p == 'tau' else 1e-6),
                  ('K.%s_mass_in_u' % _p, 'K.%s' % _m, 2e-4 if _p == 'tau' else 1e-6),
                  ('K.%s_molar_mass' % _p, 'K.%s*K.N_A' % _m, 2e-4 if _p == 'tau' else 1e-6)]
    if _p in ('electron', 'muon', 'tau', 'proton', 'neutron'):
        RELATIONS.append(('K.%sCompton_wavelength' % ('' if _p == 'electron' else _p + '_'), 'K.h/(K.%s*K.natural_unit_of_velocity)' % _m, 2e-4 if _p == 'tau' else 1e-6))
# (equivalent energy, temperature, mass, … of the energy equivalence table)
ENERGY = {'electron_volt': '1*pq.eV', 'hartree': '1*pq.hartree', 'hertz': 'K.h*pq.Hz', 'inverse_meter': 'K.h*K.natural_unit_of_velocity/pq.m', 'joule': '1*pq.J', 'kelvin': 'K.k*pq.K',
          'kilogram': 'pq.kg*K.natural_unit_of_velocity**2', 'atomic_mass_unit': 'pq.u*K.natural_unit_of_velocity**2'}
BACK = {'electron_volt': 'K.%s', 'hartree': 'K.%s', 'hertz': 'K.h*K.%s', 'inverse_meter': 'K.h*K.natural_unit_of_velocity*K.%s', 'joule': 'K.%s', 'kelvin': 'K.k*K.%s',
        'kilogram': 'K.%s*K.natural_unit_of_velocity**2', 'atomic_mass_unit': 'K.%s*K.natural_unit_of_velocity**2'}
for _a in ENERGY:
    for _b in ENERGY:
        if _a != _b:
            RELATIONS.append((BACK[_b] % ('%s_%s_relationship' % (_a, _b)), ENERGY[_a], 1e-5))


def build(root, tier):
    S = Suite(root)
    W = S.W
    K = W.I.import_module('quantities.constants')

    def definition(row):
        mod, name, variables, cd, value, sigma, dims = row
        m = W.I.import_module('quantities.constants.' + mod)
        v = T.const(T.Fraction(value))
        first = None
        scale, base = ONE, {}
        for u, e in dims.items():
            r = BY_NAME[u]
            scale = T.mul(scale, T.power(T.const(T.Fraction(r[6][0])), C(e)))
            for k, x in base_dims(r[7]).items():
                base[k] = T.add(base.get(k, ZERO), T.mul(x, C(e)))
        base = {k: x for k, x in base.items() if not T.is_const_eq(x, 0)}
        for var in variables:
            for where, mm in (('quantities.constants.%s' % mod, m), ('quantities.constants', K)):
                what = '%s.%s' % (where, var)
                try:
                    x = W.I.getattr(mm, var)
                except spec.PyRaise:
                    fail(what, 'is not exported')
                want(what, isinstance(x, AArr) and any(c.name == 'UnitQuantity' for c in x.cls.mro), 'is not a constant')
                if mm is m:
                    want(what, W.I.getattr(x, 'name') == name, 'has the name %s instead of %s' % (W.I.getattr(x, 'name'), name))
                d = W.I.getattr(x, 'definition')
                want_dims('units of ' + what, W.dims(d), {u: C(e) for u, e in dims.items()})
                want_same(what, W.mag(d), v, 1e-12)
                if first is None:
                    first = x
                    s = W.ev('x.simplified', what + '.simplified', x=x)
                    want_dims('dimensions of ' + what + '.simplified', W.dims(s), base)
                    want_same(what + '.simplified', W.mag(s), T.mul(v, scale), 1e-9)
                    q = W.ev('(a*x).rescale(d.units)', 'a*%s in the published units' % var, a=W.vec('a'), x=x, d=d)
                    want_same('a*%s in the published units' % var, W.mag(q), T.mul(T.sym('a'), v), 1e-9)
        if cd is None and sigma != '0':
            u = W.I.getattr(W.I.getattr(first, 'definition'), 'uncertainty')
            want_same('uncertainty of %s' % name, W.mag(u), T.const(T.Fraction(sigma)), 1e-12)
    for row in CONSTANTS:
        S.add('constant %s of %s' % (row[1], row[0]), definition, row)

    def relation(a, b, tol):
        x, y = W.ev('(%s).simplified' % a, K=K), W.ev('(%s).simplified' % b, K=K)
        what = '%s = %s' % (a, b)
        want_dims('dimensions of ' + what, W.dims(x), W.dims(y))
        want_same(what, W.mag(x), W.mag(y), tol)
    for a, b, tol in RELATIONS:
        S.add('relation %s = %s' % (a, b), relation, a, b, tol)

    # the shipped tables
    path = os.path.join(root, 'quantities', 'constants', 'NIST_codata.txt')
    table = {}
    if os.path.exists(path):
        lines = open(path, encoding='utf-8', errors='replace').read().split('\n')
        start = [i for i, l in enumerate(lines) if l.startswith('------')]
        for l in lines[start[0] + 1:] if start else ():
            if l.strip():
                n = l[:55].strip()
                for a, b in (('gyromag.', 'gyromagnetic'), ('mag.', 'magnetic'), ('mom.', 'moment')):
                    n = n.replace(a, b)
                table[n] = (l[55:77], l[77:99], l[99:].strip())

    def number(s):
        s = re.sub(r'\.\.\.|\s', '', s)
        return T.const(T.Fraction(0 if s == '(exact)' else s))

    def entry(n, row):
        m = W.I.import_module('quantities.constants._codata')
        try:
            e = W.ev('t[n]', t=W.I.getattr(m, 'physical_constants'), n=n)
            v, p, u = (W.ev('e[k]', e=e, k=k) for k in ('value', 'precision', 'units'))
        except paths.Finding:
            fail("physical_constants['%s']" % n, 'is missing')
        want_same("physical_constants['%s'] against the NIST listing" % n, W.mag(v), number(row[0]), 1e-13)
        want_same("precision of physical_constants['%s']" % n, W.mag(p), number(row[1]), 1e-13)
        if u == row[2].replace('^', '**').replace(' ', '*'):
            done('units')
            return
        q = W.ev('pq.Quantity(v, u)', "units of physical_constants['%s']" % n, v=v, u=u)
        r = W.ev('pq.Quantity(v, u)', v=v, u=row[2].replace('^', '**').replace(' ', '*'))
        want_dims("units of physical_constants['%s']" % n, W.dims(q), W.dims(r))
    for n, row in table.items():
        S.add('listing of %s' % n, entry, n, row)
    return S.items, {'coverage': {'constants in the reference table': len(CONSTANTS), 'relations': len(RELATIONS), 'entries of the NIST listing': len(table)}}
