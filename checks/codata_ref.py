"""The CODATA 2006 recommended values (NIST listing) behind each exported constant, written down independently of the
package's table.

(module, name, exported variables, CODATA quantity, value, standard uncertainty, {unit: exponent})
"""
CONSTANTS = [
    ('alpha', 'alpha_particle_mass', ('m_alpha', 'alpha_particle_mass'), 'alpha particle mass', '6.64465620e-27', '0.00000033e-27', {'kilogram': 1}),
    ('alpha', 'alpha_particle_mass_energy_equivalent', ('alpha_particle_mass_energy_equivalent',), 'alpha particle mass energy equivalent', '5.97191917e-10', '0.00000030e-10', {'joule': 1}),
    ('alpha', 'alpha_particle_mass_energy_equivalent_in_MeV', ('alpha_particle_mass_energy_equivalent_in_MeV',), 'alpha particle mass energy equivalent in MeV', '3727.379109', '0.000093', {'MeV': 1}),
    ('alpha', 'alpha_particle_mass_in_u', ('alpha_particle_mass_in_u',), 'alpha particle mass in u', '4.001506179127', '0.000000000062', {'atomic_mass_unit': 1}),
    ('alpha', 'alpha_particle_molar_mass', ('alpha_particle_molar_mass',), 'alpha particle molar mass', '4.001506179127e-3', '0.000000000062e-3', {'kilogram': 1, 'mole': -1}),
    ('alpha', 'alpha_particle_electron_mass_ratio', ('alpha_particle_electron_mass_ratio',), 'alpha particle-electron mass ratio', '7294.2995365', '0.0000031', {}),
    ('alpha', 'alpha_particle_proton_mass_ratio', ('alpha_particle_proton_mass_ratio',), 'alpha particle-proton mass ratio', '3.97259968951', '0.00000000041', {}),
    ('astronomy', 'astronomical_unit', ('au', 'astronomical_unit'), None, '149597870700', '3', {'meter': 1}),
    ('astronomy', 'Newtonian_constant_of_gravitation', ('G', 'Newtonian_constant_of_gravitation'), 'Newtonian constant of gravitation', '6.67428e-11', '0.00067e-11', {'meter': 3, 'kilogram': -1, 'second': -2}),
    ('atomicunits', 'atomic_mass_constant', ('amu', 'atomic_mass_constant'), 'atomic mass constant', '1.660538782e-27', '0.000000083e-27', {'kilogram': 1}),
    ('atomicunits', 'atomic_unit_of_1st_hyperpolarizability', ('atomic_unit_of_1st_hyperpolarizability',), 'atomic unit of 1st hyperpolarizability', '3.206361533e-53', '0.000000081e-53', {'coulomb': 3, 'meter': 3, 'joule': -2}),
    ('atomicunits', 'atomic_unit_of_2nd_hyperpolarizability', ('atomic_unit_of_2nd_hyperpolarizability',), 'atomic unit of 2nd hyperpolarizability', '6.23538095e-65', '0.00000031e-65', {'coulomb': 4, 'meter': 4, 'joule': -3}),
    ('atomicunits', 'atomic_unit_of_action', ('hbar', 'atomic_unit_of_action'), 'atomic unit of action', '1.054571628e-34', '0.000000053e-34', {'joule': 1, 'second': 1}),
    ('atomicunits', 'atomic_unit_of_charge', ('atomic_unit_of_charge',), 'atomic unit of charge', '1.602176487e-19', '0.000000040e-19', {'coulomb': 1}),
    ('atomicunits', 'atomic_unit_of_charge_density', ('atomic_unit_of_charge_density',), 'atomic unit of charge density', '1.081202300e12', '0.000000027e12', {'coulomb': 1, 'meter': -3}),
    ('atomicunits', 'atomic_unit_of_current', ('atomic_unit_of_current',), 'atomic unit of current', '6.62361763e-3', '0.00000017e-3', {'ampere': 1}),
    ('atomicunits', 'atomic_unit_of_electric_dipole_moment', ('atomic_unit_of_electric_dipole_moment',), 'atomic unit of electric dipole moment', '8.47835281e-30', '0.00000021e-30', {'coulomb': 1, 'meter': 1}),
    ('atomicunits', 'atomic_unit_of_electric_field', ('atomic_unit_of_electric_field',), 'atomic unit of electric field', '5.14220632e11', '0.00000013e11', {'volt': 1, 'meter': -1}),
    ('atomicunits', 'atomic_unit_of_electric_field_gradient', ('atomic_unit_of_electric_field_gradient',), 'atomic unit of electric field gradient', '9.71736166e21', '0.00000024e21', {'volt': 1, 'meter': -2}),
    ('atomicunits', 'atomic_unit_of_electric_polarizability', ('atomic_unit_of_electric_polarizability',), 'atomic unit of electric polarizability', '1.6487772536e-41', '0.0000000034e-41', {'coulomb': 2, 'meter': 2, 'joule': -1}),
    ('atomicunits', 'atomic_unit_of_electric_potential', ('atomic_unit_of_electric_potential',), 'atomic unit of electric potential', '27.21138386', '0.00000068', {'volt': 1}),
    ('atomicunits', 'atomic_unit_of_electric_quadrupole_moment', ('atomic_unit_of_electric_quadrupole_moment',), 'atomic unit of electric quadrupole moment', '4.48655107e-40', '0.00000011e-40', {'coulomb': 1, 'meter': 2}),
    ('atomicunits', 'atomic_unit_of_energy', ('atomic_unit_of_energy',), 'atomic unit of energy', '4.35974394e-18', '0.00000022e-18', {'joule': 1}),
    ('atomicunits', 'atomic_unit_of_force', ('atomic_unit_of_force',), 'atomic unit of force', '8.23872206e-8', '0.00000041e-8', {'newton': 1}),
    ('atomicunits', 'atomic_unit_of_length', ('a_0', 'atomic_unit_of_length'), 'atomic unit of length', '0.52917720859e-10', '0.00000000036e-10', {'meter': 1}),
    ('atomicunits', 'Bohr_radius', ('Bohr_radius',), 'Bohr radius', '0.52917720859e-10', '0.00000000036e-10', {'meter': 1}),
    ('atomicunits', 'atomic_unit_of_magnetic_dipole_moment', ('atomic_unit_of_magnetic_dipole_moment',), 'atomic unit of magnetic dipole moment', '1.854801830e-23', '0.000000046e-23', {'joule': 1, 'tesla': -1}),
    ('atomicunits', 'atomic_unit_of_magnetic_flux_density', ('atomic_unit_of_magnetic_flux_density',), 'atomic unit of magnetic flux density', '2.350517382e5', '0.000000059e5', {'tesla': 1}),
    ('atomicunits', 'atomic_unit_of_magnetizability', ('atomic_unit_of_magnetizability',), 'atomic unit of magnetizability', '7.891036433e-29', '0.000000027e-29', {'joule': 1, 'tesla': -2}),
    ('atomicunits', 'atomic_unit_of_mass', ('m_e', 'atomic_unit_of_mass'), 'atomic unit of mass', '9.10938215e-31', '0.00000045e-31', {'kilogram': 1}),
    ('atomicunits', 'atomic_unit_of_momentum', ('atomic_unit_of_momentum',), 'atomic unit of momentum', '1.992851565e-24', '0.000000099e-24', {'kilogram': 1, 'meter': 1, 'second': -1}),
    ('atomicunits', 'atomic_unit_of_permittivity', ('atomic_unit_of_permittivity',), 'atomic unit of permittivity', '1.112650056e-10', '0', {'farad': 1, 'meter': -1}),
    ('atomicunits', 'atomic_unit_of_time', ('atomic_unit_of_time',), 'atomic unit of time', '2.418884326505e-17', '0.000000000016e-17', {'second': 1}),
    ('atomicunits', 'atomic_unit_of_velocity', ('atomic_unit_of_velocity',), 'atomic unit of velocity', '2.1876912541e6', '0.0000000015e6', {'meter': 1, 'second': -1}),
    ('atomicunits', 'Hartree_energy', ('E_h', 'Hartree_energy'), 'Hartree energy', '4.35974394e-18', '0.00000022e-18', {'joule': 1}),
    ('atomicunits', 'unified_atomic_mass_unit', ('u', 'unified_atomic_mass_unit'), 'unified atomic mass unit', '1.660538782e-27', '0.000000083e-27', {'kilogram': 1}),
    ('atomicunits', 'molar_mass_of_carbon_12', ('molar_mass_of_carbon_12',), 'molar mass of carbon-12', '12e-3', '0', {'kilogram': 1, 'mole': -1}),
    ('atomicunits', 'atomic_mass_constant_energy_equivalent', ('atomic_mass_constant_energy_equivalent',), 'atomic mass constant energy equivalent', '1.492417830e-10', '0.000000074e-10', {'joule': 1}),
    ('atomicunits', 'atomic_mass_constant_energy_equivalent_in_MeV', ('atomic_mass_constant_energy_equivalent_in_MeV',), 'atomic mass constant energy equivalent in MeV', '931.494028', '0.000023', {'MeV': 1}),
    ('atomicunits', 'Hartree_energy_in_eV', ('Hartree_energy_in_eV',), 'Hartree energy in eV', '27.21138386', '0.00000068', {'electron_volt': 1}),
    ('atomicunits', 'atomic_mass_unit_electron_volt_relationship', ('atomic_mass_unit_electron_volt_relationship',), 'atomic mass unit-electron volt relationship', '931.494028e6', '0.000023e6', {'electron_volt': 1}),
    ('atomicunits', 'atomic_mass_unit_hartree_relationship', ('atomic_mass_unit_hartree_relationship',), 'atomic mass unit-hartree relationship', '3.4231777149e7', '0.0000000049e7', {'hartree': 1}),
    ('atomicunits', 'atomic_mass_unit_hertz_relationship', ('atomic_mass_unit_hertz_relationship',), 'atomic mass unit-hertz relationship', '2.2523427369e23', '0.0000000032e23', {'hertz': 1}),
    ('atomicunits', 'atomic_mass_unit_inverse_meter_relationship', ('atomic_mass_unit_inverse_meter_relationship',), 'atomic mass unit-inverse meter relationship', '7.513006671e14', '0.000000011e14', {'meter': -1}),
    ('atomicunits', 'atomic_mass_unit_joule_relationship', ('atomic_mass_unit_joule_relationship',), 'atomic mass unit-joule relationship', '1.492417830e-10', '0.000000074e-10', {'joule': 1}),
    ('atomicunits', 'atomic_mass_unit_kelvin_relationship', ('atomic_mass_unit_kelvin_relationship',), 'atomic mass unit-kelvin relationship', '1.0809527e13', '0.0000019e13', {'Kelvin': 1}),
    ('atomicunits', 'atomic_mass_unit_kilogram_relationship', ('atomic_mass_unit_kilogram_relationship',), 'atomic mass unit-kilogram relationship', '1.660538782e-27', '0.000000083e-27', {'kilogram': 1}),
    ('atomicunits', 'hartree_atomic_mass_unit_relationship', ('hartree_atomic_mass_unit_relationship',), 'hartree-atomic mass unit relationship', '2.9212622986e-8', '0.0000000042e-8', {'atomic_mass_unit': 1}),
    ('atomicunits', 'hartree_electron_volt_relationship', ('hartree_electron_volt_relationship',), 'hartree-electron volt relationship', '27.21138386', '0.00000068', {'electron_volt': 1}),
    ('atomicunits', 'hartree_hertz_relationship', ('hartree_hertz_relationship',), 'hartree-hertz relationship', '6.579683920722e15', '0.000000000044e15', {'hertz': 1}),
    ('atomicunits', 'hartree_inverse_meter_relationship', ('hartree_inverse_meter_relationship',), 'hartree-inverse meter relationship', '2.194746313705e7', '0.000000000015e7', {'meter': -1}),
    ('atomicunits', 'hartree_joule_relationship', ('hartree_joule_relationship',), 'hartree-joule relationship', '4.35974394e-18', '0.00000022e-18', {'joule': 1}),
    ('atomicunits', 'hartree_kelvin_relationship', ('hartree_kelvin_relationship',), 'hartree-kelvin relationship', '3.1577465e5', '0.0000055e5', {'Kelvin': 1}),
    ('atomicunits', 'hartree_kilogram_relationship', ('hartree_kilogram_relationship',), 'hartree-kilogram relationship', '4.85086934e-35', '0.00000024e-35', {'kilogram': 1}),
    ('atomicunits', 'hertz_atomic_mass_unit_relationship', ('hertz_atomic_mass_unit_relationship',), 'hertz-atomic mass unit relationship', '4.4398216294e-24', '0.0000000064e-24', {'atomic_mass_unit': 1}),
    ('atomicunits', 'hertz_hartree_relationship', ('hertz_hartree_relationship',), 'hertz-hartree relationship', '1.519829846006e-16', '0.000000000010e-16', {'hartree': 1}),
    ('atomicunits', 'inverse_meter_atomic_mass_unit_relationship', ('inverse_meter_atomic_mass_unit_relationship',), 'inverse meter-atomic mass unit relationship', '1.3310250394e-15', '0.0000000019e-15', {'atomic_mass_unit': 1}),
    ('atomicunits', 'inverse_meter_hartree_relationship', ('inverse_meter_hartree_relationship',), 'inverse meter-hartree relationship', '4.556335252760e-8', '0.000000000030e-8', {'hartree': 1}),
    ('atomicunits', 'joule_atomic_mass_unit_relationship', ('joule_atomic_mass_unit_relationship',), 'joule-atomic mass unit relationship', '6.70053641e9', '0.00000033e9', {'atomic_mass_unit': 1}),
    ('atomicunits', 'joule_hartree_relationship', ('joule_hartree_relationship',), 'joule-hartree relationship', '2.29371269e17', '0.00000011e17', {'hartree': 1}),
    ('atomicunits', 'kelvin_atomic_mass_unit_relationship', ('kelvin_atomic_mass_unit_relationship',), 'kelvin-atomic mass unit relationship', '9.251098e-14', '0.000016e-14', {'atomic_mass_unit': 1}),
    ('atomicunits', 'kelvin_hartree_relationship', ('kelvin_hartree_relationship',), 'kelvin-hartree relationship', '3.1668153e-6', '0.0000055e-6', {'hartree': 1}),
    ('atomicunits', 'kilogram_atomic_mass_unit_relationship', ('kilogram_atomic_mass_unit_relationship',), 'kilogram-atomic mass unit relationship', '6.02214179e26', '0.00000030e26', {'atomic_mass_unit': 1}),
    ('atomicunits', 'kilogram_hartree_relationship', ('kilogram_hartree_relationship',), 'kilogram-hartree relationship', '2.06148616e34', '0.00000010e34', {'hartree': 1}),
    ('deuteron', 'deuteron_rms_charge_radius', ('R_d', 'deuteron_rms_charge_radius'), 'deuteron rms charge radius', '2.1402e-15', '0.0028e-15', {'meter': 1}),
    ('deuteron', 'deuteron_mass', ('m_d', 'deuteron_mass'), 'deuteron mass', '3.34358320e-27', '0.00000017e-27', {'kilogram': 1}),
    ('deuteron', 'deuteron_g_factor', ('g_d', 'deuteron_g_factor'), 'deuteron g factor', '0.8574382308', '0.0000000072', {}),
    ('deuteron', 'deuteron_magnetic_moment', ('mu_d', 'deuteron_magnetic_moment'), 'deuteron magnetic moment', '0.433073465e-26', '0.000000011e-26', {'joule': 1, 'tesla': -1}),
    ('deuteron', 'deuteron_mass_energy_equivalent', ('deuteron_mass_energy_equivalent',), 'deuteron mass energy equivalent', '3.00506272e-10', '0.00000015e-10', {'joule': 1}),
    ('deuteron', 'deuteron_mass_energy_equivalent_in_MeV', ('deuteron_mass_energy_equivalent_in_MeV',), 'deuteron mass energy equivalent in MeV', '1875.612793', '0.000047', {'MeV': 1}),
    ('deuteron', 'deuteron_mass_in_u', ('deuteron_mass_in_u',), 'deuteron mass in u', '2.013553212724', '0.000000000078', {'atomic_mass_unit': 1}),
    ('deuteron', 'deuteron_molar_mass', ('deuteron_molar_mass',), 'deuteron molar mass', '2.013553212724e-3', '0.000000000078e-3', {'kilogram': 1, 'mole': -1}),
    ('deuteron', 'deuteron_electron_mass_ratio', ('deuteron_electron_mass_ratio',), 'deuteron-electron mass ratio', '3670.4829654', '0.0000016', {}),
    ('deuteron', 'deuteron_proton_mass_ratio', ('deuteron_proton_mass_ratio',), 'deuteron-proton mass ratio', '1.99900750108', '0.00000000022', {}),
    ('deuteron', 'deuteron_electron_magnetic_moment_ratio', ('deuteron_electron_magnetic_moment_ratio',), 'deuteron-electron magnetic moment ratio', '-4.664345537e-4', '0.000000039e-4', {}),
    ('deuteron', 'deuteron_magnetic_moment_to_Bohr_magneton_ratio', ('deuteron_magnetic_moment_to_Bohr_magneton_ratio',), 'deuteron magnetic moment to Bohr magneton ratio', '0.4669754556e-3', '0.0000000039e-3', {}),
    ('deuteron', 'deuteron_magnetic_moment_to_nuclear_magneton_ratio', ('deuteron_magnetic_moment_to_nuclear_magneton_ratio',), 'deuteron magnetic moment to nuclear magneton ratio', '0.8574382308', '0.0000000072', {}),
    ('deuteron', 'deuteron_neutron_magnetic_moment_ratio', ('deuteron_neutron_magnetic_moment_ratio',), 'deuteron-neutron magnetic moment ratio', '-0.44820652', '0.00000011', {}),
    ('deuteron', 'deuteron_proton_magnetic_moment_ratio', ('deuteron_proton_magnetic_moment_ratio',), 'deuteron-proton magnetic moment ratio', '0.3070122070', '0.0000000024', {}),
    ('electromagnetism', 'characteristic_impedance_of_vacuum', ('Z_0', 'impedence_of_free_space', 'characteristic_impedance_of_vacuum'), 'characteristic impedance of vacuum', '376.730313461', '0', {'ohm': 1}),
    ('electromagnetism', 'electric_constant', ('vacuum_permittivity', 'epsilon_0', 'electric_constant'), 'electric constant', '8.854187817e-12', '0', {'farad': 1, 'meter': -1}),
    ('electromagnetism', 'magnetic_constant', ('mu_0', 'magnetic_constant'), 'magnetic constant', '12.566370614e-7', '0', {'newton': 1, 'ampere': -2}),
    ('electron', 'elementary_charge', ('e', 'elementary_charge'), 'elementary charge', '1.602176487e-19', '0.000000040e-19', {'coulomb': 1}),
    ('electron', 'elementary_charge_over_h', ('elementary_charge_over_h',), 'elementary charge over h', '2.417989454e14', '0.000000060e14', {'ampere': 1, 'joule': -1}),
    ('electron', 'Faraday_constant', ('Faraday_constant',), 'Faraday constant', '96485.3399', '0.0024', {'coulomb': 1, 'mole': -1}),
    ('electron', 'classical_electron_radius', ('r_e', 'classical_electron_radius'), 'classical electron radius', '2.8179402894e-15', '0.0000000058e-15', {'meter': 1}),
    ('electron', 'electron_mass', ('m_e', 'electron_mass'), 'electron mass', '9.10938215e-31', '0.00000045e-31', {'kilogram': 1}),
    ('electron', 'Compton_wavelength', ('lambda_C', 'Compton_wavelength'), 'Compton wavelength', '2.4263102175e-12', '0.0000000033e-12', {'meter': 1}),
    ('electron', 'Compton_wavelength_over_2_pi', ('Compton_wavelength_over_2_pi',), 'Compton wavelength over 2 pi', '386.15926459e-15', '0.00000053e-15', {'meter': 1}),
    ('electron', 'electron_charge_to_mass_quotient', ('electron_charge_to_mass_quotient',), 'electron charge to mass quotient', '-1.758820150e11', '0.000000044e11', {'coulomb': 1, 'kilogram': -1}),
    ('electron', 'electron_g_factor', ('g_e', 'electron_g_factor'), 'electron g factor', '-2.0023193043622', '0.0000000000015', {}),
    ('electron', 'electron_gyromagnetic_ratio', ('gamma_e', 'electron_gyromagnetic_ratio'), 'electron gyromagnetic ratio', '1.760859770e11', '0.000000044e11', {'second': -1, 'tesla': -1}),
    ('electron', 'electron_gyromagnetic_ratio_over_2_pi', ('electron_gyromagnetic_ratio_over_2_pi',), 'electron gyromagnetic ratio over 2 pi', '28024.95364', '0.00070', {'megahertz': 1, 'tesla': -1}),
    ('electron', 'electron_magnetic_moment', ('mu_e', 'electron_magnetic_moment'), 'electron magnetic moment', '-928.476377e-26', '0.000023e-26', {'joule': 1, 'tesla': -1}),
    ('electron', 'electron_magnetic_moment_anomaly', ('a_e', 'electron_magnetic_moment_anomaly'), 'electron magnetic moment anomaly', '1.15965218111e-3', '0.00000000074e-3', {}),
    ('electron', 'electron_volt', ('eV', 'electron_volt'), 'electron volt', '1.602176487e-19', '0.000000040e-19', {'joule': 1}),
    ('electron', 'Thomson_cross_section', ('sigma_e', 'Thomson_cross_section'), 'Thomson cross section', '0.6652458558e-28', '0.0000000027e-28', {'meter': 2}),
    ('electron', 'Bohr_magneton', ('mu_B', 'Bohr_magneton'), 'Bohr magneton', '927.400915e-26', '0.000023e-26', {'joule': 1, 'tesla': -1}),
    ('electron', 'Bohr_magneton_in_Hz_per_T', ('Bohr_magneton_in_Hz_per_T',), 'Bohr magneton in Hz/T', '13.99624604e9', '0.00000035e9', {'hertz': 1, 'tesla': -1}),
    ('electron', 'Bohr_magneton_in_inverse_meters_per_tesla', ('Bohr_magneton_in_inverse_meters_per_tesla',), 'Bohr magneton in inverse meters per tesla', '46.6864515', '0.0000012', {'meter': -1, 'tesla': -1}),
    ('electron', 'Bohr_magneton_in_K_per_T', ('Bohr_magneton_in_K_per_T',), 'Bohr magneton in K/T', '0.6717131', '0.0000012', {'Kelvin': 1, 'tesla': -1}),
    ('electron', 'electron_mass_energy_equivalent', ('electron_mass_energy_equivalent',), 'electron mass energy equivalent', '8.18710438e-14', '0.00000041e-14', {'joule': 1}),
    ('electron', 'electron_mass_energy_equivalent_in_MeV', ('electron_mass_energy_equivalent_in_MeV',), 'electron mass energy equivalent in MeV', '0.510998910', '0.000000013', {'MeV': 1}),
    ('electron', 'electron_mass_in_u', ('electron_mass_in_u',), 'electron mass in u', '5.4857990943e-4', '0.0000000023e-4', {'atomic_mass_unit': 1}),
    ('electron', 'electron_molar_mass', ('electron_molar_mass',), 'electron molar mass', '5.4857990943e-7', '0.0000000023e-7', {'kilogram': 1, 'mole': -1}),
    ('electron', 'electron_deuteron_mass_ratio', ('electron_deuteron_mass_ratio',), 'electron-deuteron mass ratio', '2.7244371093e-4', '0.0000000012e-4', {}),
    ('electron', 'electron_muon_mass_ratio', ('electron_muon_mass_ratio',), 'electron-muon mass ratio', '4.83633171e-3', '0.00000012e-3', {}),
    ('electron', 'electron_neutron_mass_ratio', ('electron_neutron_mass_ratio',), 'electron-neutron mass ratio', '5.4386734459e-4', '0.0000000033e-4', {}),
    ('electron', 'electron_proton_mass_ratio', ('electron_proton_mass_ratio',), 'electron-proton mass ratio', '5.4461702177e-4', '0.0000000024e-4', {}),
    ('electron', 'electron_tau_mass_ratio', ('electron_tau_mass_ratio',), 'electron-tau mass ratio', '2.87564e-4', '0.00047e-4', {}),
    ('electron', 'electron_to_alpha_particle_mass_ratio', ('electron_to_alpha_particle_mass_ratio',), 'electron to alpha particle mass ratio', '1.37093355570e-4', '0.00000000058e-4', {}),
    ('electron', 'electron_deuteron_magnetic_moment_ratio', ('electron_deuteron_magnetic_moment_ratio',), 'electron-deuteron magnetic moment ratio', '-2143.923498', '0.000018', {}),
    ('electron', 'electron_magnetic_moment_to_Bohr_magneton_ratio', ('electron_magnetic_moment_to_Bohr_magneton_ratio',), 'electron magnetic moment to Bohr magneton ratio', '-1.00115965218111', '0.00000000000074', {}),
    ('electron', 'electron_magnetic_moment_to_nuclear_magneton_ratio', ('electron_magnetic_moment_to_nuclear_magneton_ratio',), 'electron magnetic moment to nuclear magneton ratio', '-1838.28197092', '0.00000080', {}),
    ('electron', 'electron_muon_magnetic_moment_ratio', ('electron_muon_magnetic_moment_ratio',), 'electron-muon magnetic moment ratio', '206.7669877', '0.0000052', {}),
    ('electron', 'electron_neutron_magnetic_moment_ratio', ('electron_neutron_magnetic_moment_ratio',), 'electron-neutron magnetic moment ratio', '960.92050', '0.00023', {}),
    ('electron', 'electron_proton_magnetic_moment_ratio', ('electron_proton_magnetic_moment_ratio',), 'electron-proton magnetic moment ratio', '-658.2106848', '0.0000054', {}),
    ('electron', 'electron_to_shielded_helion_magnetic_moment_ratio', ('electron_to_shielded_helion_magnetic_moment_ratio',), 'electron to shielded helion magnetic moment ratio', '864.058257', '0.000010', {}),
    ('electron', 'electron_to_shielded_proton_magnetic_moment_ratio', ('electron_to_shielded_proton_magnetic_moment_ratio',), 'electron to shielded proton magnetic moment ratio', '-658.2275971', '0.0000072', {}),
    ('electron', 'electron_volt_atomic_mass_unit_relationship', ('electron_volt_atomic_mass_unit_relationship',), 'electron volt-atomic mass unit relationship', '1.073544188e-9', '0.000000027e-9', {'atomic_mass_unit': 1}),
    ('electron', 'electron_volt_hartree_relationship', ('electron_volt_hartree_relationship',), 'electron volt-hartree relationship', '3.674932540e-2', '0.000000092e-2', {'hartree': 1}),
    ('electron', 'electron_volt_hertz_relationship', ('electron_volt_hertz_relationship',), 'electron volt-hertz relationship', '2.417989454e14', '0.000000060e14', {'hertz': 1}),
    ('electron', 'electron_volt_inverse_meter_relationship', ('electron_volt_inverse_meter_relationship',), 'electron volt-inverse meter relationship', '8.06554465e5', '0.00000020e5', {'meter': -1}),
    ('electron', 'electron_volt_joule_relationship', ('electron_volt_joule_relationship',), 'electron volt-joule relationship', '1.602176487e-19', '0.000000040e-19', {'joule': 1}),
    ('electron', 'electron_volt_kelvin_relationship', ('electron_volt_kelvin_relationship',), 'electron volt-kelvin relationship', '1.1604505e4', '0.0000020e4', {'Kelvin': 1}),
    ('electron', 'electron_volt_kilogram_relationship', ('electron_volt_kilogram_relationship',), 'electron volt-kilogram relationship', '1.782661758e-36', '0.000000044e-36', {'kilogram': 1}),
    ('electron', 'hertz_electron_volt_relationship', ('hertz_electron_volt_relationship',), 'hertz-electron volt relationship', '4.13566733e-15', '0.00000010e-15', {'electron_volt': 1}),
    ('electron', 'inverse_meter_electron_volt_relationship', ('inverse_meter_electron_volt_relationship',), 'inverse meter-electron volt relationship', '1.239841875e-6', '0.000000031e-6', {'electron_volt': 1}),
    ('electron', 'joule_electron_volt_relationship', ('joule_electron_volt_relationship',), 'joule-electron volt relationship', '6.24150965e18', '0.00000016e18', {'electron_volt': 1}),
    ('electron', 'kelvin_electron_volt_relationship', ('kelvin_electron_volt_relationship',), 'kelvin-electron volt relationship', '8.617343e-5', '0.000015e-5', {'electron_volt': 1}),
    ('electron', 'kilogram_electron_volt_relationship', ('kilogram_electron_volt_relationship',), 'kilogram-electron volt relationship', '5.60958912e35', '0.00000014e35', {'electron_volt': 1}),
    ('helion', 'helion_mass', ('m_h', 'helion_mass'), 'helion mass', '5.00641192e-27', '0.00000025e-27', {'kilogram': 1}),
    ('helion', 'shielded_helion_gyromagnetic_ratio', ('gamma_prime_h', 'shielded_helion_gyromagnetic_ratio'), 'shielded helion gyromagnetic ratio', '2.037894730e8', '0.000000056e8', {'second': -1, 'tesla': -1}),
    ('helion', 'shielded_helion_gyromagnetic_ratio_over_2_pi', ('shielded_helion_gyromagnetic_ratio_over_2_pi',), 'shielded helion gyromagnetic ratio over 2 pi', '32.43410198', '0.00000090', {'megahertz': 1, 'tesla': -1}),
    ('helion', 'shielded_helion_magnetic_moment', ('mu_prime_h', 'shielded_helion_magnetic_moment'), 'shielded helion magnetic moment', '-1.074552982e-26', '0.000000030e-26', {'joule': 1, 'tesla': -1}),
    ('helion', 'helion_mass_energy_equivalent', ('helion_mass_energy_equivalent',), 'helion mass energy equivalent', '4.49953864e-10', '0.00000022e-10', {'joule': 1}),
    ('helion', 'helion_mass_energy_equivalent_in_MeV', ('helion_mass_energy_equivalent_in_MeV',), 'helion mass energy equivalent in MeV', '2808.391383', '0.000070', {'MeV': 1}),
    ('helion', 'helion_mass_in_u', ('helion_mass_in_u',), 'helion mass in u', '3.0149322473', '0.0000000026', {'atomic_mass_unit': 1}),
    ('helion', 'helion_molar_mass', ('helion_molar_mass',), 'helion molar mass', '3.0149322473e-3', '0.0000000026e-3', {'kilogram': 1, 'mole': -1}),
    ('helion', 'helion_electron_mass_ratio', ('helion_electron_mass_ratio',), 'helion-electron mass ratio', '5495.8852765', '0.0000052', {}),
    ('helion', 'helion_proton_mass_ratio', ('helion_proton_mass_ratio',), 'helion-proton mass ratio', '2.9931526713', '0.0000000026', {}),
    ('helion', 'shielded_helion_to_proton_magnetic_moment_ratio', ('shielded_helion_to_proton_magnetic_moment_ratio',), 'shielded helion to proton magnetic moment ratio', '-0.761766558', '0.000000011', {}),
    ('helion', 'shielded_helion_magnetic_moment_to_Bohr_magneton_ratio', ('shielded_helion_magnetic_moment_to_Bohr_magneton_ratio',), 'shielded helion magnetic moment to Bohr magneton ratio', '-1.158671471e-3', '0.000000014e-3', {}),
    ('helion', 'shielded_helion_magnetic_moment_to_nuclear_magneton_ratio', ('shielded_helion_magnetic_moment_to_nuclear_magneton_ratio',), 'shielded helion magnetic moment to nuclear magneton ratio', '-2.127497718', '0.000000025', {}),
    ('helion', 'shielded_helion_to_shielded_proton_magnetic_moment_ratio', ('shielded_helion_to_shielded_proton_magnetic_moment_ratio',), 'shielded helion to shielded proton magnetic moment ratio', '-0.7617861313', '0.0000000033', {}),
    ('mathematical', 'pi', ('pi',), None, '3.141592653589793', '0', {}),
    ('mathematical', 'golden_ratio', ('golden', 'golden_ratio'), None, '1.618033988749895', '0', {}),
    ('muon', 'muon_mass', ('m_mu', 'muon_mass'), 'muon mass', '1.88353130e-28', '0.00000011e-28', {'kilogram': 1}),
    ('muon', 'muon_Compton_wavelength', ('lambda_C_mu', 'muon_Compton_wavelength'), 'muon Compton wavelength', '11.73444104e-15', '0.00000030e-15', {'meter': 1}),
    ('muon', 'muon_Compton_wavelength_over_2_pi', ('muon_Compton_wavelength_over_2_pi',), 'muon Compton wavelength over 2 pi', '1.867594295e-15', '0.000000047e-15', {'meter': 1}),
    ('muon', 'muon_g_factor', ('g_mu', 'muon_g_factor'), 'muon g factor', '-2.0023318414', '0.0000000012', {}),
    ('muon', 'muon_magnetic_moment', ('mu_mu', 'muon_magnetic_moment'), 'muon magnetic moment', '-4.49044786e-26', '0.00000016e-26', {'joule': 1, 'tesla': -1}),
    ('muon', 'muon_magnetic_moment_anomaly', ('a_mu', 'muon_magnetic_moment_anomaly'), 'muon magnetic moment anomaly', '1.16592069e-3', '0.00000060e-3', {}),
    ('muon', 'muon_mass_energy_equivalent', ('muon_mass_energy_equivalent',), 'muon mass energy equivalent', '1.692833510e-11', '0.000000095e-11', {'joule': 1}),
    ('muon', 'muon_mass_energy_equivalent_in_MeV', ('muon_mass_energy_equivalent_in_MeV',), 'muon mass energy equivalent in MeV', '105.6583668', '0.0000038', {'MeV': 1}),
    ('muon', 'muon_mass_in_u', ('muon_mass_in_u',), 'muon mass in u', '0.1134289256', '0.0000000029', {'atomic_mass_unit': 1}),
    ('muon', 'muon_molar_mass', ('muon_molar_mass',), 'muon molar mass', '0.1134289256e-3', '0.0000000029e-3', {'kilogram': 1, 'mole': -1}),
    ('muon', 'muon_electron_mass_ratio', ('muon_electron_mass_ratio',), 'muon-electron mass ratio', '206.7682823', '0.0000052', {}),
    ('muon', 'muon_neutron_mass_ratio', ('muon_neutron_mass_ratio',), 'muon-neutron mass ratio', '0.1124545167', '0.0000000029', {}),
    ('muon', 'muon_proton_mass_ratio', ('muon_proton_mass_ratio',), 'muon-proton mass ratio', '0.1126095261', '0.0000000029', {}),
    ('muon', 'muon_tau_mass_ratio', ('muon_tau_mass_ratio',), 'muon-tau mass ratio', '5.94592e-2', '0.00097e-2', {}),
    ('muon', 'muon_magnetic_moment_to_Bohr_magneton_ratio', ('muon_magnetic_moment_to_Bohr_magneton_ratio',), 'muon magnetic moment to Bohr magneton ratio', '-4.84197049e-3', '0.00000012e-3', {}),
    ('muon', 'muon_magnetic_moment_to_nuclear_magneton_ratio', ('muon_magnetic_moment_to_nuclear_magneton_ratio',), 'muon magnetic moment to nuclear magneton ratio', '-8.89059705', '0.00000023', {}),
    ('muon', 'muon_proton_magnetic_moment_ratio', ('muon_proton_magnetic_moment_ratio',), 'muon-proton magnetic moment ratio', '-3.183345137', '0.000000085', {}),
    ('naturalunits', 'natural_unit_of_action', ('natural_unit_of_action',), 'natural unit of action', '1.054571628e-34', '0.000000053e-34', {'joule': 1, 'second': 1}),
    ('naturalunits', 'natural_unit_of_energy', ('natural_unit_of_energy',), 'natural unit of energy', '8.18710438e-14', '0.00000041e-14', {'joule': 1}),
    ('naturalunits', 'natural_unit_of_length', ('natural_unit_of_length',), 'natural unit of length', '386.15926459e-15', '0.00000053e-15', {'meter': 1}),
    ('naturalunits', 'natural_unit_of_mass', ('natural_unit_of_mass',), 'natural unit of mass', '9.10938215e-31', '0.00000045e-31', {'kilogram': 1}),
    ('naturalunits', 'natural_unit_of_momentum', ('natural_unit_of_momentum',), 'natural unit of momentum', '2.73092406e-22', '0.00000014e-22', {'kilogram': 1, 'meter': 1, 'second': -1}),
    ('naturalunits', 'natural_unit_of_time', ('natural_unit_of_time',), 'natural unit of time', '1.2880886570e-21', '0.0000000018e-21', {'second': 1}),
    ('naturalunits', 'natural_unit_of_velocity', ('natural_unit_of_velocity',), 'natural unit of velocity', '299792458', '0', {'meter': 1, 'second': -1}),
    ('naturalunits', 'natural_unit_of_action_in_eV_s', ('natural_unit_of_action_in_eV_s',), 'natural unit of action in eV s', '6.58211899e-16', '0.00000016e-16', {'electron_volt': 1, 'second': 1}),
    ('naturalunits', 'natural_unit_of_energy_in_MeV', ('natural_unit_of_energy_in_MeV',), 'natural unit of energy in MeV', '0.510998910', '0.000000013', {'MeV': 1}),
    ('naturalunits', 'natural_unit_of_momentum_in_MeV_per_c', ('natural_unit_of_momentum_in_MeV_per_c',), 'natural unit of momentum in MeV/c', '0.510998910', '0.000000013', {'MeV': 1, 'speed_of_light': -1}),
    ('neutron', 'neutron_mass', ('m_n', 'neutron_mass'), 'neutron mass', '1.674927211e-27', '0.000000084e-27', {'kilogram': 1}),
    ('neutron', 'neutron_Compton_wavelength', ('lambda_C_n', 'neutron_Compton_wavelength'), 'neutron Compton wavelength', '1.3195908951e-15', '0.0000000020e-15', {'meter': 1}),
    ('neutron', 'neutron_Compton_wavelength_over_2_pi', ('neutron_Compton_wavelength_over_2_pi',), 'neutron Compton wavelength over 2 pi', '0.21001941382e-15', '0.00000000031e-15', {'meter': 1}),
    ('neutron', 'neutron_g_factor', ('g_n', 'neutron_g_factor'), 'neutron g factor', '-3.82608545', '0.00000090', {}),
    ('neutron', 'neutron_gyromagnetic_ratio', ('gamma_n', 'neutron_gyromagnetic_ratio'), 'neutron gyromagnetic ratio', '1.83247185e8', '0.00000043e8', {'second': -1, 'tesla': -1}),
    ('neutron', 'neutron_gyromagnetic_ratio_over_2_pi', ('neutron_gyromagnetic_ratio_over_2_pi',), 'neutron gyromagnetic ratio over 2 pi', '29.1646954', '0.0000069', {'megahertz': 1, 'tesla': -1}),
    ('neutron', 'neutron_magnetic_moment', ('mu_n', 'neutron_magnetic_moment'), 'neutron magnetic moment', '-0.96623641e-26', '0.00000023e-26', {'joule': 1, 'tesla': -1}),
    ('neutron', 'neutron_mass_energy_equivalent', ('neutron_mass_energy_equivalent',), 'neutron mass energy equivalent', '1.505349505e-10', '0.000000075e-10', {'joule': 1}),
    ('neutron', 'neutron_mass_energy_equivalent_in_MeV', ('neutron_mass_energy_equivalent_in_MeV',), 'neutron mass energy equivalent in MeV', '939.565346', '0.000023', {'MeV': 1}),
    ('neutron', 'neutron_mass_in_u', ('neutron_mass_in_u',), 'neutron mass in u', '1.00866491597', '0.00000000043', {'atomic_mass_unit': 1}),
    ('neutron', 'neutron_molar_mass', ('neutron_molar_mass',), 'neutron molar mass', '1.00866491597e-3', '0.00000000043e-3', {'kilogram': 1, 'mole': -1}),
    ('neutron', 'neutron_electron_mass_ratio', ('neutron_electron_mass_ratio',), 'neutron-electron mass ratio', '1838.6836605', '0.0000011', {}),
    ('neutron', 'neutron_muon_mass_ratio', ('neutron_muon_mass_ratio',), 'neutron-muon mass ratio', '8.89248409', '0.00000023', {}),
    ('neutron', 'neutron_proton_mass_ratio', ('neutron_proton_mass_ratio',), 'neutron-proton mass ratio', '1.00137841918', '0.00000000046', {}),
    ('neutron', 'neutron_tau_mass_ratio', ('neutron_tau_mass_ratio',), 'neutron-tau mass ratio', '0.528740', '0.000086', {}),
    ('neutron', 'neutron_electron_magnetic_moment_ratio', ('neutron_electron_magnetic_moment_ratio',), 'neutron-electron magnetic moment ratio', '1.04066882e-3', '0.00000025e-3', {}),
    ('neutron', 'neutron_magnetic_moment_to_Bohr_magneton_ratio', ('neutron_magnetic_moment_to_Bohr_magneton_ratio',), 'neutron magnetic moment to Bohr magneton ratio', '-1.04187563e-3', '0.00000025e-3', {}),
    ('neutron', 'neutron_magnetic_moment_to_nuclear_magneton_ratio', ('neutron_magnetic_moment_to_nuclear_magneton_ratio',), 'neutron magnetic moment to nuclear magneton ratio', '-1.91304273', '0.00000045', {}),
    ('neutron', 'neutron_proton_magnetic_moment_ratio', ('neutron_proton_magnetic_moment_ratio',), 'neutron-proton magnetic moment ratio', '-0.68497934', '0.00000016', {}),
    ('neutron', 'neutron_to_shielded_proton_magnetic_moment_ratio', ('neutron_to_shielded_proton_magnetic_moment_ratio',), 'neutron to shielded proton magnetic moment ratio', '-0.68499694', '0.00000016', {}),
    ('proton', 'proton_mass', ('m_p', 'proton_mass'), 'proton mass', '1.672621637e-27', '0.000000083e-27', {'kilogram': 1}),
    ('proton', 'proton_Compton_wavelength', ('lambda_C_p', 'proton_Compton_wavelength'), 'proton Compton wavelength', '1.3214098446e-15', '0.0000000019e-15', {'meter': 1}),
    ('proton', 'proton_Compton_wavelength_over_2_pi', ('proton_Compton_wavelength_over_2_pi',), 'proton Compton wavelength over 2 pi', '0.21030890861e-15', '0.00000000030e-15', {'meter': 1}),
    ('proton', 'proton_rms_charge_radius', ('R_p', 'proton_rms_charge_radius'), 'proton rms charge radius', '0.8768e-15', '0.0069e-15', {'meter': 1}),
    ('proton', 'proton_charge_to_mass_quotient', ('proton_charge_to_mass_quotient',), 'proton charge to mass quotient', '9.57883392e7', '0.00000024e7', {'coulomb': 1, 'kilogram': -1}),
    ('proton', 'proton_g_factor', ('g_p', 'proton_g_factor'), 'proton g factor', '5.585694713', '0.000000046', {}),
    ('proton', 'proton_gyromagnetic_ratio', ('gamma_p', 'proton_gyromagnetic_ratio'), 'proton gyromagnetic ratio', '2.675222099e8', '0.000000070e8', {'second': -1, 'tesla': -1}),
    ('proton', 'proton_gyromagnetic_ratio_over_2_pi', ('proton_gyromagnetic_ratio_over_2_pi',), 'proton gyromagnetic ratio over 2 pi', '42.5774821', '0.0000011', {'megahertz': 1, 'tesla': -1}),
    ('proton', 'proton_magnetic_moment', ('mu_p', 'proton_magnetic_moment'), 'proton magnetic moment', '1.410606662e-26', '0.000000037e-26', {'joule': 1, 'tesla': -1}),
    ('proton', 'proton_magnetic_shielding_correction', ('sigma_prime_p', 'proton_magnetic_shielding_correction'), 'proton magnetic shielding correction', '25.694e-6', '0.014e-6', {}),
    ('proton', 'shielded_proton_gyromagnetic_ratio', ('gamma_prime_p', 'shielded_proton_gyromagnetic_ratio'), 'shielded proton gyromagnetic ratio', '2.675153362e8', '0.000000073e8', {'second': -1, 'tesla': -1}),
    ('proton', 'shielded_proton_gyromagnetic_ratio_over_2_pi', ('shielded_proton_gyromagnetic_ratio_over_2_pi',), 'shielded proton gyromagnetic ratio over 2 pi', '42.5763881', '0.0000012', {'megahertz': 1, 'tesla': -1}),
    ('proton', 'shielded_proton_magnetic_moment', ('mu_prime_p', 'shielded_proton_magnetic_moment'), 'shielded proton magnetic moment', '1.410570419e-26', '0.000000038e-26', {'joule': 1, 'tesla': -1}),
    ('proton', 'nuclear_magneton', ('mu_N', 'nuclear_magneton'), 'nuclear magneton', '5.05078324e-27', '0.00000013e-27', {'joule': 1, 'tesla': -1}),
    ('proton', 'nuclear_magneton_in_eV_per_T', ('nuclear_magneton_in_eV_per_T',), 'nuclear magneton in eV/T', '3.1524512326e-8', '0.0000000045e-8', {'electron_volt': 1, 'tesla': -1}),
    ('proton', 'nuclear_magneton_in_inverse_meters_per_tesla', ('nuclear_magneton_in_inverse_meters_per_tesla',), 'nuclear magneton in inverse meters per tesla', '2.542623616e-2', '0.000000064e-2', {'meter': -1, 'tesla': -1}),
    ('proton', 'nuclear_magneton_in_K_per_T', ('nuclear_magneton_in_K_per_T',), 'nuclear magneton in K/T', '3.6582637e-4', '0.0000064e-4', {'Kelvin': 1, 'tesla': -1}),
    ('proton', 'nuclear_magneton_in_MHz_per_T', ('nuclear_magneton_in_MHz_per_T',), 'nuclear magneton in MHz/T', '7.62259384', '0.00000019', {'megahertz': 1, 'tesla': -1}),
    ('proton', 'proton_mass_energy_equivalent', ('proton_mass_energy_equivalent',), 'proton mass energy equivalent', '1.503277359e-10', '0.000000075e-10', {'joule': 1}),
    ('proton', 'proton_mass_energy_equivalent_in_MeV', ('proton_mass_energy_equivalent_in_MeV',), 'proton mass energy equivalent in MeV', '938.272013', '0.000023', {'MeV': 1}),
    ('proton', 'proton_mass_in_u', ('proton_mass_in_u',), 'proton mass in u', '1.00727646677', '0.00000000010', {'atomic_mass_unit': 1}),
    ('proton', 'proton_molar_mass', ('proton_molar_mass',), 'proton molar mass', '1.00727646677e-3', '0.00000000010e-3', {'kilogram': 1, 'mole': -1}),
    ('proton', 'proton_electron_mass_ratio', ('proton_electron_mass_ratio',), 'proton-electron mass ratio', '1836.15267247', '0.00000080', {}),
    ('proton', 'proton_muon_mass_ratio', ('proton_muon_mass_ratio',), 'proton-muon mass ratio', '8.88024339', '0.00000023', {}),
    ('proton', 'proton_neutron_mass_ratio', ('proton_neutron_mass_ratio',), 'proton-neutron mass ratio', '0.99862347824', '0.00000000046', {}),
    ('proton', 'proton_tau_mass_ratio', ('proton_tau_mass_ratio',), 'proton-tau mass ratio', '0.528012', '0.000086', {}),
    ('proton', 'proton_magnetic_moment_to_Bohr_magneton_ratio', ('proton_magnetic_moment_to_Bohr_magneton_ratio',), 'proton magnetic moment to Bohr magneton ratio', '1.521032209e-3', '0.000000012e-3', {}),
    ('proton', 'proton_magnetic_moment_to_nuclear_magneton_ratio', ('proton_magnetic_moment_to_nuclear_magneton_ratio',), 'proton magnetic moment to nuclear magneton ratio', '2.792847356', '0.000000023', {}),
    ('proton', 'proton_neutron_magnetic_moment_ratio', ('proton_neutron_magnetic_moment_ratio',), 'proton-neutron magnetic moment ratio', '-1.45989806', '0.00000034', {}),
    ('proton', 'shielded_proton_magnetic_moment_to_Bohr_magneton_ratio', ('shielded_proton_magnetic_moment_to_Bohr_magneton_ratio',), 'shielded proton magnetic moment to Bohr magneton ratio', '1.520993128e-3', '0.000000017e-3', {}),
    ('proton', 'shielded_proton_magnetic_moment_to_nuclear_magneton_ratio', ('shielded_proton_magnetic_moment_to_nuclear_magneton_ratio',), 'shielded proton magnetic moment to nuclear magneton ratio', '2.792775598', '0.000000030', {}),
    ('quantum', 'molar_Planck_constant', ('molar_Planck_constant',), 'molar Planck constant', '3.9903126821e-10', '0.0000000057e-10', {'joule': 1, 'second': 1, 'mole': -1}),
    ('quantum', 'molar_Planck_constant_times_c', ('molar_Planck_constant_times_c',), 'molar Planck constant times c', '0.11962656472', '0.00000000017', {'joule': 1, 'meter': 1, 'mole': -1}),
    ('quantum', 'Planck_constant', ('h', 'Planck_constant'), 'Planck constant', '6.62606896e-34', '0.00000033e-34', {'joule': 1, 'second': 1}),
    ('quantum', 'Planck_constant_over_2_pi', ('hbar', 'Planck_constant_over_2_pi'), 'Planck constant over 2 pi', '1.054571628e-34', '0.000000053e-34', {'joule': 1, 'second': 1}),
    ('quantum', 'quantum_of_circulation', ('quantum_of_circulation',), 'quantum of circulation', '3.6369475199e-4', '0.0000000050e-4', {'meter': 2, 'second': -1}),
    ('quantum', 'quantum_of_circulation_times_2', ('quantum_of_circulation_times_2',), 'quantum of circulation times 2', '7.273895040e-4', '0.000000010e-4', {'meter': 2, 'second': -1}),
    ('quantum', 'Planck_length', ('l_P', 'Planck_length'), 'Planck length', '1.616252e-35', '0.000081e-35', {'meter': 1}),
    ('quantum', 'Planck_mass', ('m_P', 'Planck_mass'), 'Planck mass', '2.17644e-8', '0.00011e-8', {'kilogram': 1}),
    ('quantum', 'Planck_temperature', ('T_P', 'Planck_temperature'), 'Planck temperature', '1.416785e32', '0.000071e32', {'Kelvin': 1}),
    ('quantum', 'Planck_time', ('t_P', 'Planck_time'), 'Planck time', '5.39124e-44', '0.00027e-44', {'second': 1}),
    ('quantum', 'Rydberg_constant', ('R_infinity', 'Rydberg_constant'), 'Rydberg constant', '10973731.568527', '0.000073', {'meter': -1}),
    ('quantum', 'Rydberg_constant_times_c_in_Hz', ('Rydberg_constant_times_c_in_Hz',), 'Rydberg constant times c in Hz', '3.289841960361e15', '0.000000000022e15', {'hertz': 1}),
    ('quantum', 'Rydberg_constant_times_hc_in_eV', ('Rydberg_constant_times_hc_in_eV',), 'Rydberg constant times hc in eV', '13.60569193', '0.00000034', {'electron_volt': 1}),
    ('quantum', 'Rydberg_constant_times_hc_in_J', ('Rydberg_constant_times_hc_in_J',), 'Rydberg constant times hc in J', '2.17987197e-18', '0.00000011e-18', {'joule': 1}),
    ('quantum', 'conductance_quantum', ('G_0', 'conductance_quantum'), 'conductance quantum', '7.7480917004e-5', '0.0000000053e-5', {'siemens': 1}),
    ('quantum', 'conventional_value_of_Josephson_constant', ('K_J90', 'conventional_value_of_Josephson_constant'), 'conventional value of Josephson constant', '483597.9e9', '0', {'hertz': 1, 'volt': -1}),
    ('quantum', 'conventional_value_of_von_Klitzing_constant', ('R_K90', 'conventional_value_of_von_Klitzing_constant'), 'conventional value of von Klitzing constant', '25812.807', '0', {'ohm': 1}),
    ('quantum', 'Fermi_coupling_constant', ('Fermi_coupling_constant',), 'Fermi coupling constant', '1.16637e-5', '0.00001e-5', {'GeV': -2}),
    ('quantum', 'fine_structure_constant', ('alpha', 'fine_structure_constant'), 'fine-structure constant', '7.2973525376e-3', '0.0000000050e-3', {}),
    ('quantum', 'inverse_fine_structure_constant', ('inverse_fine_structure_constant',), 'inverse fine-structure constant', '137.035999679', '0.000000094', {}),
    ('quantum', 'first_radiation_constant', ('c_1', 'first_radiation_constant'), 'first radiation constant', '3.74177118e-16', '0.00000019e-16', {'watt': 1, 'meter': 2}),
    ('quantum', 'first_radiation_constant_for_spectral_radiance', ('c_1L', 'first_radiation_constant_for_spectral_radiance'), 'first radiation constant for spectral radiance', '1.191042759e-16', '0.000000059e-16', {'watt': 1, 'meter': 2, 'steradian': -1}),
    ('quantum', 'inverse_of_conductance_quantum', ('inverse_of_conductance_quantum',), 'inverse of conductance quantum', '12906.4037787', '0.0000088', {'ohm': 1}),
    ('quantum', 'Josephson_constant', ('Josephson_constant', 'K_J'), 'Josephson constant', '483597.891e9', '0.012e9', {'hertz': 1, 'volt': -1}),
    ('quantum', 'magnetic_flux_quantum', ('Phi_0', 'magnetic_flux_quantum'), 'magnetic flux quantum', '2.067833667e-15', '0.000000052e-15', {'weber': 1}),
    ('quantum', 'Newtonian_constant_of_gravitation_over_h_bar_c', ('Newtonian_constant_of_gravitation_over_h_bar_c',), 'Newtonian constant of gravitation over h-bar c', '6.70881e-39', '0.00067e-39', {'GeV': -2, 'speed_of_light': 4}),
    ('quantum', 'Sackur_Tetrode_constant_ST_100kPa', ('Sackur_Tetrode_constant_ST_100kPa',), 'Sackur-Tetrode constant (1 K, 100 kPa)', '-1.1517047', '0.0000044', {}),
    ('quantum', 'Sackur_Tetrode_constant_STP', ('Sackur_Tetrode_constant_STP',), 'Sackur-Tetrode constant (1 K, 101.325 kPa)', '-1.1648677', '0.0000044', {}),
    ('quantum', 'second_radiation_constant', ('c_2', 'second_radiation_constant'), 'second radiation constant', '1.4387752e-2', '0.0000025e-2', {'meter': 1, 'Kelvin': 1}),
    ('quantum', 'Stefan_Boltzmann_constant', ('sigma', 'Stefan_Boltzmann_constant'), 'Stefan-Boltzmann constant', '5.670400e-8', '0.000040e-8', {'watt': 1, 'meter': -2, 'Kelvin': -4}),
    ('quantum', 'von_Klitzing_constant', ('R_K', 'von_Klitzing_constant'), 'von Klitzing constant', '25812.807557', '0.000018', {'ohm': 1}),
    ('quantum', 'Wien_frequency_displacement_law_constant', ('b_prime', 'Wien_frequency_displacement_law_constant'), 'Wien frequency displacement law constant', '5.878933e10', '0.000010e10', {'hertz': 1, 'Kelvin': -1}),
    ('quantum', 'Wien_wavelength_displacement_law_constant', ('b', 'Wien_wavelength_displacement_law_constant'), 'Wien wavelength displacement law constant', '2.8977685e-3', '0.0000051e-3', {'meter': 1, 'Kelvin': 1}),
    ('quantum', 'Planck_constant_in_eV_s', ('Planck_constant_in_eV_s',), 'Planck constant in eV s', '4.13566733e-15', '0.00000010e-15', {'electron_volt': 1, 'second': 1}),
    ('quantum', 'Planck_constant_over_2_pi_in_eV_s', ('Planck_constant_over_2_pi_in_eV_s',), 'Planck constant over 2 pi in eV s', '6.58211899e-16', '0.00000016e-16', {'electron_volt': 1, 'second': 1}),
    ('quantum', 'Planck_constant_over_2_pi_times_c_in_MeV_fm', ('Planck_constant_over_2_pi_times_c_in_MeV_fm',), 'Planck constant over 2 pi times c in MeV fm', '197.3269631', '0.0000049', {'MeV': 1, 'femtometer': 1}),
    ('quantum', 'Planck_mass_energy_equivalent_in_GeV', ('Planck_mass_energy_equivalent_in_GeV',), 'Planck mass energy equivalent in GeV', '1.220892e19', '0.000061e19', {'GeV': 1}),
    ('relationships', 'hertz_inverse_meter_relationship', ('hertz_inverse_meter_relationship',), 'hertz-inverse meter relationship', '3.335640951e-9', '0', {'meter': -1}),
    ('relationships', 'hertz_joule_relationship', ('hertz_joule_relationship',), 'hertz-joule relationship', '6.62606896e-34', '0.00000033e-34', {'joule': 1}),
    ('relationships', 'hertz_kelvin_relationship', ('hertz_kelvin_relationship',), 'hertz-kelvin relationship', '4.7992374e-11', '0.0000084e-11', {'Kelvin': 1}),
    ('relationships', 'hertz_kilogram_relationship', ('hertz_kilogram_relationship',), 'hertz-kilogram relationship', '7.37249600e-51', '0.00000037e-51', {'kilogram': 1}),
    ('relationships', 'inverse_meter_hertz_relationship', ('inverse_meter_hertz_relationship',), 'inverse meter-hertz relationship', '299792458', '0', {'hertz': 1}),
    ('relationships', 'inverse_meter_joule_relationship', ('inverse_meter_joule_relationship',), 'inverse meter-joule relationship', '1.986445501e-25', '0.000000099e-25', {'joule': 1}),
    ('relationships', 'inverse_meter_kelvin_relationship', ('inverse_meter_kelvin_relationship',), 'inverse meter-kelvin relationship', '1.4387752e-2', '0.0000025e-2', {'Kelvin': 1}),
    ('relationships', 'inverse_meter_kilogram_relationship', ('inverse_meter_kilogram_relationship',), 'inverse meter-kilogram relationship', '2.21021870e-42', '0.00000011e-42', {'kilogram': 1}),
    ('relationships', 'joule_hertz_relationship', ('joule_hertz_relationship',), 'joule-hertz relationship', '1.509190450e33', '0.000000075e33', {'hertz': 1}),
    ('relationships', 'joule_inverse_meter_relationship', ('joule_inverse_meter_relationship',), 'joule-inverse meter relationship', '5.03411747e24', '0.00000025e24', {'meter': -1}),
    ('relationships', 'joule_kelvin_relationship', ('joule_kelvin_relationship',), 'joule-kelvin relationship', '7.242963e22', '0.000013e22', {'Kelvin': 1}),
    ('relationships', 'joule_kilogram_relationship', ('joule_kilogram_relationship',), 'joule-kilogram relationship', '1.112650056e-17', '0', {'kilogram': 1}),
    ('relationships', 'kelvin_hertz_relationship', ('kelvin_hertz_relationship',), 'kelvin-hertz relationship', '2.0836644e10', '0.0000036e10', {'hertz': 1}),
    ('relationships', 'kelvin_inverse_meter_relationship', ('kelvin_inverse_meter_relationship',), 'kelvin-inverse meter relationship', '69.50356', '0.00012', {'meter': -1}),
    ('relationships', 'kelvin_joule_relationship', ('kelvin_joule_relationship',), 'kelvin-joule relationship', '1.3806504e-23', '0.0000024e-23', {'joule': 1}),
    ('relationships', 'kelvin_kilogram_relationship', ('kelvin_kilogram_relationship',), 'kelvin-kilogram relationship', '1.5361807e-40', '0.0000027e-40', {'kilogram': 1}),
    ('relationships', 'kilogram_hertz_relationship', ('kilogram_hertz_relationship',), 'kilogram-hertz relationship', '1.356392733e50', '0.000000068e50', {'hertz': 1}),
    ('relationships', 'kilogram_inverse_meter_relationship', ('kilogram_inverse_meter_relationship',), 'kilogram-inverse meter relationship', '4.52443915e41', '0.00000023e41', {'meter': -1}),
    ('relationships', 'kilogram_joule_relationship', ('kilogram_joule_relationship',), 'kilogram-joule relationship', '8.987551787e16', '0', {'joule': 1}),
    ('relationships', 'kilogram_kelvin_relationship', ('kilogram_kelvin_relationship',), 'kilogram-kelvin relationship', '6.509651e39', '0.000011e39', {'Kelvin': 1}),
    ('statisticalmechanics', 'Avogadro_constant', ('N_A', 'L', 'Avogadro_constant'), 'Avogadro constant', '6.02214179e23', '0.00000030e23', {'mole': -1}),
    ('statisticalmechanics', 'Loschmidt_constant', ('n_0', 'Loschmidt_constant'), 'Loschmidt constant (273.15 K, 101.325 kPa)', '2.6867774e25', '0.0000047e25', {'meter': -3}),
    ('statisticalmechanics', 'molar_gas_constant', ('R', 'molar_gas_constant'), 'molar gas constant', '8.314472', '0.000015', {'joule': 1, 'mole': -1, 'Kelvin': -1}),
    ('statisticalmechanics', 'Boltzmann_constant', ('k', 'Boltzmann_constant'), 'Boltzmann constant', '1.3806504e-23', '0.0000024e-23', {'joule': 1, 'Kelvin': -1}),
    ('statisticalmechanics', 'Boltzmann_constant_in_eV_per_K', ('Boltzmann_constant_in_eV_per_K',), 'Boltzmann constant in eV/K', '8.617343e-5', '0.000015e-5', {'electron_volt': 1, 'Kelvin': -1}),
    ('statisticalmechanics', 'Boltzmann_constant_in_Hz_per_K', ('Boltzmann_constant_in_Hz_per_K',), 'Boltzmann constant in Hz/K', '2.0836644e10', '0.0000036e10', {'hertz': 1, 'Kelvin': -1}),
    ('statisticalmechanics', 'Boltzmann_constant_in_inverse_meters_per_kelvin', ('Boltzmann_constant_in_inverse_meters_per_kelvin',), 'Boltzmann constant in inverse meters per kelvin', '69.50356', '0.00012', {'meter': -1, 'Kelvin': -1}),
    ('statisticalmechanics', 'molar_mass_constant', ('M_u', 'molar_mass_constant'), 'molar mass constant', '1e-3', '0', {'kilogram': 1, 'mole': -1}),
    ('statisticalmechanics', 'molar_volume_of_ideal_gas_ST_100kPa', ('molar_volume_of_ideal_gas_ST_100kPa',), 'molar volume of ideal gas (273.15 K, 100 kPa)', '22.710981e-3', '0.000040e-3', {'meter': 3, 'mole': -1}),
    ('statisticalmechanics', 'molar_volume_of_ideal_gas_STP', ('molar_volume_of_ideal_gas_STP',), 'molar volume of ideal gas (273.15 K, 101.325 kPa)', '22.413996e-3', '0.000039e-3', {'meter': 3, 'mole': -1}),
    ('statisticalmechanics', 'molar_volume_of_silicon', ('molar_volume_of_silicon',), 'molar volume of silicon', '12.0588349e-6', '0.0000011e-6', {'meter': 3, 'mole': -1}),
    ('tau', 'tau_mass', ('m_tau', 'tau_mass'), 'tau mass', '3.16777e-27', '0.00052e-27', {'kilogram': 1}),
    ('tau', 'tau_Compton_wavelength', ('lambda_C_tau', 'tau_Compton_wavelength'), 'tau Compton wavelength', '0.69772e-15', '0.00011e-15', {'meter': 1}),
    ('tau', 'tau_Compton_wavelength_over_2_pi', ('tau_Compton_wavelength_over_2_pi',), 'tau Compton wavelength over 2 pi', '0.111046e-15', '0.000018e-15', {'meter': 1}),
    ('tau', 'tau_mass_energy_equivalent', ('tau_mass_energy_equivalent',), 'tau mass energy equivalent', '2.84705e-10', '0.00046e-10', {'joule': 1}),
    ('tau', 'tau_mass_energy_equivalent_in_MeV', ('tau_mass_energy_equivalent_in_MeV',), 'tau mass energy equivalent in MeV', '1776.99', '0.29', {'MeV': 1}),
    ('tau', 'tau_mass_in_u', ('tau_mass_in_u',), 'tau mass in u', '1.90768', '0.00031', {'atomic_mass_unit': 1}),
    ('tau', 'tau_molar_mass', ('tau_molar_mass',), 'tau molar mass', '1.90768e-3', '0.00031e-3', {'kilogram': 1, 'mole': -1}),
    ('tau', 'tau_electron_mass_ratio', ('tau_electron_mass_ratio',), 'tau-electron mass ratio', '3477.48', '0.57', {}),
    ('tau', 'tau_muon_mass_ratio', ('tau_muon_mass_ratio',), 'tau-muon mass ratio', '16.8183', '0.0027', {}),
    ('tau', 'tau_neutron_mass_ratio', ('tau_neutron_mass_ratio',), 'tau-neutron mass ratio', '1.89129', '0.00031', {}),
    ('tau', 'tau_proton_mass_ratio', ('tau_proton_mass_ratio',), 'tau-proton mass ratio', '1.89390', '0.00031', {}),
    ('triton', 'triton_mass', ('m_t', 'triton_mass'), 'triton mass', '5.00735588e-27', '0.00000025e-27', {'kilogram': 1}),
    ('triton', 'triton_g_factor', ('g_t', 'triton_g_factor'), 'triton g factor', '5.957924896', '0.000000076', {}),
    ('triton', 'triton_magnetic_moment', ('mu_t', 'triton_magnetic_moment'), 'triton magnetic moment', '1.504609361e-26', '0.000000042e-26', {'joule': 1, 'tesla': -1}),
    ('triton', 'triton_mass_energy_equivalent', ('triton_mass_energy_equivalent',), 'triton mass energy equivalent', '4.50038703e-10', '0.00000022e-10', {'joule': 1}),
    ('triton', 'triton_mass_energy_equivalent_in_MeV', ('triton_mass_energy_equivalent_in_MeV',), 'triton mass energy equivalent in MeV', '2808.920906', '0.000070', {'MeV': 1}),
    ('triton', 'triton_mass_in_u', ('triton_mass_in_u',), 'triton mass in u', '3.0155007134', '0.0000000025', {'atomic_mass_unit': 1}),
    ('triton', 'triton_molar_mass', ('triton_molar_mass',), 'triton molar mass', '3.0155007134e-3', '0.0000000025e-3', {'kilogram': 1, 'mole': -1}),
    ('triton', 'triton_electron_mass_ratio', ('triton_electron_mass_ratio',), 'triton-electron mass ratio', '5496.9215269', '0.0000051', {}),
    ('triton', 'triton_proton_mass_ratio', ('triton_proton_mass_ratio',), 'triton-proton mass ratio', '2.9937170309', '0.0000000025', {}),
    ('triton', 'triton_electron_magnetic_moment_ratio', ('triton_electron_magnetic_moment_ratio',), 'triton-electron magnetic moment ratio', '-1.620514423e-3', '0.000000021e-3', {}),
    ('triton', 'triton_magnetic_moment_to_Bohr_magneton_ratio', ('triton_magnetic_moment_to_Bohr_magneton_ratio',), 'triton magnetic moment to Bohr magneton ratio', '1.622393657e-3', '0.000000021e-3', {}),
    ('triton', 'triton_magnetic_moment_to_nuclear_magneton_ratio', ('triton_magnetic_moment_to_nuclear_magneton_ratio',), 'triton magnetic moment to nuclear magneton ratio', '2.978962448', '0.000000038', {}),
    ('triton', 'triton_neutron_magnetic_moment_ratio', ('triton_neutron_magnetic_moment_ratio',), 'triton-neutron magnetic moment ratio', '-1.55718553', '0.00000037', {}),
    ('triton', 'triton_proton_magnetic_moment_ratio', ('triton_proton_magnetic_moment_ratio',), 'triton-proton magnetic moment ratio', '1.066639908', '0.000000010', {}),
    ('weak', 'weak_mixing_angle', ('weak_mixing_angle',), 'weak mixing angle', '0.22255', '0.00056', {}),
    ('xray', 'Angstrom_star', ('Angstrom_star',), 'Angstrom star', '1.00001498e-10', '0.00000090e-10', {'meter': 1}),
    ('xray', 'silicon_220_lattice_spacing', ('d_220', 'a_Si_220', 'silicon_220_lattice_spacing'), '{220} lattice spacing of silicon', '192.0155762e-12', '0.0000050e-12', {'meter': 1}),
    ('xray', 'Cu_x_unit', ('Cu_x_unit',), 'Cu x unit', '1.00207699e-13', '0.00000028e-13', {'meter': 1}),
    ('xray', 'lattice_parameter_of_silicon', ('a', 'a_Si_100', 'lattice_parameter_of_silicon'), 'lattice parameter of silicon', '543.102064e-12', '0.000014e-12', {'meter': 1}),
    ('xray', 'Mo_x_unit', ('Mo_x_unit',), 'Mo x unit', '1.00209955e-13', '0.00000053e-13', {'meter': 1}),
]
