"""An independent table of units: what each name denotes.

(name, class, symbol, unicode symbol, aliases, variables, SI value, SI dimension, relative tolerance, module)
The SI values are written from the published definitions (SI brochure, NIST SP 811, UDUNITS); the tolerance is wider
where the definition is a measured or a rounded one.
"""
import math

pi = math.pi
UNITS = [
    ('standard_gravity', 'UnitQuantity', 'g_0', 'g₀', (), ('g_0', 'g_n', 'gravity', 'standard_gravity', 'gee', 'force', 'free_fall', 'standard_free_fall', 'gp', 'dynamic', 'geopotential'),
     (9.80665,), 'm/s**2', 1e-12, 'acceleration'),
    ('dimensionless', 'Dimensionless', None, None, (), ('dimensionless',),
     (1,), '', 1e-12, 'angle'),
    ('radian', 'UnitQuantity', 'rad', None, ('radians',), ('rad', 'radian', 'radians'),
     (1,), '', 1e-12, 'angle'),
    ('milliradian', 'UnitQuantity', 'mrad', None, ('milliradians',), ('mrad', 'milliradian'),
     (1e-3,), '', 1e-12, 'angle'),
    ('microradian', 'UnitQuantity', 'urad', 'µrad', ('microradians',), ('urad', 'microradian'),
     (1e-6,), '', 1e-12, 'angle'),
    ('turn', 'UnitQuantity', None, None, ('turns', 'revolutions', 'circles', 'cycles'), ('turn', 'revolution', 'cycle', 'turns', 'circle', 'circles'),
     (2*pi,), '', 1e-12, 'angle'),
    ('arcdegree', 'UnitQuantity', 'deg', '°', ('degree', 'degrees', 'arc_degree', 'arc_degrees', 'angular_degree', 'angular_degrees', 'arcdegrees', 'arcdeg'), ('deg', 'degree', 'degrees', 'arcdeg', 'arcdegree', 'angular_degree'),
     (pi/180,), '', 1e-12, 'angle'),
    ('arcminute', 'UnitQuantity', 'arcmin', '′', ('arcmins', 'arcminutes', 'arc_minute', 'arc_minutes', 'angular_minute', 'angular_minutes'), ('arcminute', 'arcmin', 'arc_minute', 'angular_minute'),
     (pi/10800,), '', 1e-12, 'angle'),
    ('arcsecond', 'UnitQuantity', 'arcsec', '″', ('arcsecs', 'arcseconds', 'arc_second', 'arc_seconds', 'angular_second', 'angular_seconds'), ('arcsecond', 'arcsec', 'arc_second', 'angular_second'),
     (pi/648000,), '', 1e-12, 'angle'),
    ('grad', 'UnitQuantity', None, None, ('grads', 'grade', 'grades', 'gron', 'grons', 'gradian', 'gradians'), ('grad', 'grade'),
     (pi/200,), '', 1e-12, 'angle'),
    ('degrees_north', 'UnitQuantity', 'degN', '°N', ('degrees_N',), ('degrees_north', 'degrees_N'),
     (pi/180,), '', 1e-12, 'angle'),
    ('degrees_east', 'UnitQuantity', 'degE', '°E', ('degrees_E',), ('degrees_east', 'degrees_E'),
     (pi/180,), '', 1e-12, 'angle'),
    ('degrees_west', 'UnitQuantity', 'degW', '°W', ('degrees_W',), ('degrees_west', 'degrees_W'),
     (pi/180,), '', 1e-12, 'angle'),
    ('degrees_true', 'UnitQuantity', 'degT', '°T', ('degrees_T',), ('degrees_true', 'degrees_T'),
     (pi/180,), '', 1e-12, 'angle'),
    ('steradian', 'UnitQuantity', 'sr', None, ('steradians',), ('sr', 'steradian'),
     (1,), '', 1e-12, 'angle'),
    ('are', 'UnitQuantity', None, None, ('ares',), ('are', 'ares'),
     (100,), 'm**2', 1e-12, 'area'),
    ('barn', 'UnitQuantity', 'b', None, ('barnes',), ('b', 'barn'),
     (1e-28,), 'm**2', 1e-12, 'area'),
    ('circular_mil', 'UnitQuantity', 'cmil', None, ('circular_mils',), ('cmil', 'circular_mil'),
     (pi/4*(0.0254/1000)**2,), 'm**2', 5.4e-08, 'area'),
    ('darcy', 'UnitQuantity', 'D', None, (), ('D', 'darcy'),
     (1e-10/101.325,), 'm**2', 4.4e-08, 'area'),
    ('millidarcy', 'UnitQuantity', 'mD', None, (), ('mD', 'millidarcy'),
     (1e-13/101.325,), 'm**2', 4.4e-08, 'area'),
    ('hectare', 'UnitQuantity', 'ha', None, ('hectares',), ('ha', 'hectare'),
     (10000,), 'm**2', 1e-12, 'area'),
    ('acre', 'UnitQuantity', None, None, ('acres', 'international_acre', 'international_acres'), ('acre', 'international_acre'),
     (4840*0.9144**2,), 'm**2', 1e-12, 'area'),
    ('US_survey_acre', 'UnitQuantity', None, None, ('US_survey_acres',), ('US_survey_acre',),
     (43560*(1200/3937)**2,), 'm**2', 1e-12, 'area'),
    ('(pc/cm**3)', 'CompoundUnit', None, None, (), ('pc_per_cc',),
     (648000/pi*149597870700*1e6,), 'm**-2', 1.1e-06, 'compound'),
    ('mole', 'UnitSubstance', 'mol', None, (), ('mol',),
     (1,), 'mol', 1e-12, 'concentration'),
    ('liter', 'UnitQuantity', 'L', None, ('l', 'liters', 'litre', 'litres'), ('L',),
     (1e-3,), 'm**3', 1e-12, 'concentration'),
    ('molar', 'UnitQuantity', 'M', None, ('Molar',), ('M', 'molar'),
     (1e3,), 'mol/m**3', 1e-12, 'concentration'),
    ('millimolar', 'UnitQuantity', 'mM', None, (), ('mM', 'millimolar'),
     (1,), 'mol/m**3', 1e-12, 'concentration'),
    ('micromolar', 'UnitQuantity', 'uM', 'µM', (), ('uM', 'micromolar'),
     (1e-3,), 'mol/m**3', 1e-12, 'concentration'),
    ('percent', 'UnitQuantity', '%', None, (), ('percent',),
     (0.01,), '', 1e-12, 'dimensionless'),
    ('count', 'UnitQuantity', 'ct', None, ('cts', 'counts'), ('count', 'counts'),
     (1,), '', 1e-12, 'dimensionless'),
    ('least_significant_bit', 'UnitQuantity', 'lsb', None, ('lsbs',), ('lsb',),
     (1,), '', 1e-12, 'dimensionless'),
    ('centimeter', 'UnitLength', 'cm', None, ('centimeters', 'centimetre', 'centimetres'), ('cm',),
     (0.01,), 'm', 1e-12, 'electromagnetism'),
    ('erg', 'UnitQuantity', None, None, (), ('erg',),
     (1e-7,), 'kg*m**2/s**2', 1e-12, 'electromagnetism'),
    ('newton', 'UnitQuantity', 'N', None, ('newtons',), ('N',),
     (1,), 'kg*m/s**2', 1e-12, 'electromagnetism'),
    ('ampere', 'UnitCurrent', 'A', None, ('amp', 'amps', 'amperes'), ('A', 'amp', 'amps', 'ampere', 'amperes'),
     (1,), 'A', 1e-12, 'electromagnetism'),
    ('milliampere', 'UnitCurrent', 'mA', None, ('milliamp', 'milliamps', 'milliamperes'), ('mA', 'milliamp', 'milliampere'),
     (1e-3,), 'A', 1e-12, 'electromagnetism'),
    ('microampere', 'UnitCurrent', 'uA', 'µA', ('microamp', 'microamps', 'microamperes'), ('uA', 'microampere'),
     (1e-6,), 'A', 1e-12, 'electromagnetism'),
    ('nanoampere', 'UnitCurrent', 'nA', None, ('nanoamp', 'nanoamps', 'nanoamperes'), ('nA', 'nanoamp', 'nanoampere'),
     (1e-9,), 'A', 1e-12, 'electromagnetism'),
    ('picoampere', 'UnitCurrent', 'pA', None, ('picoamp', 'picoamps', 'picoamperes'), ('pA', 'picoamp', 'picoampere'),
     (1e-12,), 'A', 1e-12, 'electromagnetism'),
    ('abampere', 'UnitCurrent', 'aA', None, ('abamperes', 'biot', 'biots'), ('aA', 'abampere', 'biot'),
     (10,), 'A', 1e-12, 'electromagnetism'),
    ('statcoulomb', 'UnitQuantity', 'esu', None, ('statcoulombs', 'statC', 'franklin', 'franklins', 'Fr'), ('esu', 'statcoulomb', 'statC', 'franklin', 'Fr'),
     (1e-9**0.5,), 'kg**0.5*m**1.5/s', 1e-12, 'electromagnetism'),
    ('statampere', 'UnitQuantity', '(esu/s)', None, ('statamperes',), ('esu_per_second', 'statampere'),
     (1e-9**0.5,), 'kg**0.5*m**1.5/s**2', 1e-12, 'electromagnetism'),
    ('ampere_turn', 'UnitQuantity', None, None, (), ('ampere_turn',),
     (1,), 'A', 1e-12, 'electromagnetism'),
    ('gilbert', 'UnitQuantity', 'Gi', None, (), ('Gi', 'gilbert'),
     (10/(4*pi),), 'A', 1e-12, 'electromagnetism'),
    ('coulomb', 'UnitQuantity', 'C', None, (), ('C', 'coulomb'),
     (1,), 's*A', 1e-12, 'electromagnetism'),
    ('millicoulomb', 'UnitQuantity', 'mC', None, (), ('mC', 'millicoulomb'),
     (1e-3,), 's*A', 1e-12, 'electromagnetism'),
    ('microcoulomb', 'UnitQuantity', 'uC', 'μC', (), ('uC', 'microcoulomb'),
     (1e-6,), 's*A', 1e-12, 'electromagnetism'),
    ('volt', 'UnitQuantity', 'V', None, ('volts',), ('V', 'volt'),
     (1,), 'kg*m**2/s**3/A', 1e-12, 'electromagnetism'),
    ('kilovolt', 'UnitQuantity', 'kV', None, ('kilovolts',), ('kV', 'kilovolt'),
     (1e3,), 'kg*m**2/s**3/A', 1e-12, 'electromagnetism'),
    ('millivolt', 'UnitQuantity', 'mV', None, ('millivolts',), ('mV', 'millivolt'),
     (1e-3,), 'kg*m**2/s**3/A', 1e-12, 'electromagnetism'),
    ('microvolt', 'UnitQuantity', 'uV', 'μV', ('microvolts',), ('uV', 'microvolt'),
     (1e-6,), 'kg*m**2/s**3/A', 1e-12, 'electromagnetism'),
    ('farad', 'UnitQuantity', 'F', None, ('farads',), ('F', 'farad'),
     (1,), 's**4*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('millifarad', 'UnitQuantity', 'mF', None, (), ('mF',),
     (1e-3,), 's**4*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('microfarad', 'UnitQuantity', 'uF', 'μF', (), ('uF',),
     (1e-6,), 's**4*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('nanofarad', 'UnitQuantity', 'nF', None, (), ('nF',),
     (1e-9,), 's**4*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('picofarad', 'UnitQuantity', 'pF', None, (), ('pF',),
     (1e-12,), 's**4*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('femtofarad', 'UnitQuantity', 'fF', None, (), ('fF',),
     (1e-15,), 's**4*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('ohm', 'UnitQuantity', None, 'Ω', ('ohms', 'Ohm'), ('ohm', 'Ohm'),
     (1,), 'kg*m**2/s**3/A**2', 1e-12, 'electromagnetism'),
    ('kiloohm', 'UnitQuantity', None, 'kΩ', ('kOhm', 'kohm', 'kiloohms'), ('kOhm',),
     (1e3,), 'kg*m**2/s**3/A**2', 1e-12, 'electromagnetism'),
    ('megaohm', 'UnitQuantity', None, 'MΩ', ('MOhm', 'Mohm', 'megaohms'), ('MOhm',),
     (1e6,), 'kg*m**2/s**3/A**2', 1e-12, 'electromagnetism'),
    ('siemens', 'UnitQuantity', 'S', None, (), ('S', 'siemens'),
     (1,), 's**3*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('millisiemens', 'UnitQuantity', 'mS', None, (), ('mS', 'millisiemens'),
     (1e-3,), 's**3*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('microsiemens', 'UnitQuantity', 'uS', 'μS', (), ('uS', 'microsiemens'),
     (1e-6,), 's**3*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('nanosiemens', 'UnitQuantity', 'nS', None, (), ('nS', 'nanosiemens'),
     (1e-9,), 's**3*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('picosiemens', 'UnitQuantity', 'pS', None, (), ('pS', 'picosiemens'),
     (1e-12,), 's**3*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('weber', 'UnitQuantity', 'Wb', None, ('webers',), ('Wb', 'weber'),
     (1,), 'kg*m**2/s**2/A', 1e-12, 'electromagnetism'),
    ('tesla', 'UnitQuantity', 'T', None, ('teslas',), ('T', 'tesla'),
     (1,), 'kg/s**2/A', 1e-12, 'electromagnetism'),
    ('henry', 'UnitQuantity', 'H', None, (), ('H', 'henry'),
     (1,), 'kg*m**2/s**2/A**2', 1e-12, 'electromagnetism'),
    ('abfarad', 'UnitQuantity', None, None, ('abfarads',), ('abfarad',),
     (1e9,), 's**4*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('abhenry', 'UnitQuantity', None, None, (), ('abhenry',),
     (1e-9,), 'kg*m**2/s**2/A**2', 1e-12, 'electromagnetism'),
    ('abmho', 'UnitQuantity', None, None, (), ('abmho',),
     (1e9,), 's**3*A**2/kg/m**2', 1e-12, 'electromagnetism'),
    ('abohm', 'UnitQuantity', None, None, (), ('abohm',),
     (1e-9,), 'kg*m**2/s**3/A**2', 1e-12, 'electromagnetism'),
    ('abvolt', 'UnitQuantity', None, None, ('abvolts',), ('abvolt',),
     (1e-8,), 'kg*m**2/s**3/A', 1e-12, 'electromagnetism'),
    ('elementary_charge', 'UnitQuantity', 'e', None, (), ('e', 'elementary_charge'),
     (1.602176487e-19,), 's*A', 1e-12, 'electromagnetism'),
    ('chemical_faraday', 'UnitQuantity', None, None, (), ('chemical_faraday',),
     (96495.7,), 's*A', 1e-12, 'electromagnetism'),
    ('physical_faraday', 'UnitQuantity', None, None, (), ('physical_faraday',),
     (96521.9,), 's*A', 1e-12, 'electromagnetism'),
    ('faraday', 'UnitQuantity', None, None, ('faradays',), ('faraday', 'C12_faraday'),
     (96485.3399,), 's*A', 1e-12, 'electromagnetism'),
    ('gamma', 'UnitQuantity', None, None, (), ('gamma',),
     (1e-9,), 'kg/s**2/A', 1e-12, 'electromagnetism'),
    ('gauss', 'UnitQuantity', 'G', None, (), ('gauss',),
     (1e-4,), 'kg/s**2/A', 1e-12, 'electromagnetism'),
    ('maxwell', 'UnitQuantity', 'Mx', None, ('maxwells',), ('maxwell',),
     (1e-8,), 'kg*m**2/s**2/A', 1e-12, 'electromagnetism'),
    ('oersted', 'UnitQuantity', 'Oe', None, ('oersteds',), ('Oe', 'oersted'),
     (1000/(4*pi),), 'A/m', 1e-12, 'electromagnetism'),
    ('statfarad', 'UnitQuantity', 'stF', None, ('statfarads', 'statF'), ('statfarad', 'statF', 'stF'),
     (1e5/299792458**2,), 's**4*A**2/kg/m**2', 6.5e-08, 'electromagnetism'),
    ('stathenry', 'UnitQuantity', 'stH', None, ('statH',), ('stathenry', 'statH', 'stH'),
     (299792458**2*1e-5,), 'kg*m**2/s**2/A**2', 3.2e-07, 'electromagnetism'),
    ('statmho', 'UnitQuantity', 'stS', None, (), ('statmho', 'statS', 'stS'),
     (1e5/299792458**2,), 's**3*A**2/kg/m**2', 6.5e-08, 'electromagnetism'),
    ('statohm', 'UnitQuantity', None, 'stΩ', ('statohms',), ('statohm',),
     (299792458**2*1e-5,), 'kg*m**2/s**3/A**2', 3.2e-07, 'electromagnetism'),
    ('statvolt', 'UnitQuantity', 'stV', None, ('statvolts', 'statV'), ('statvolt', 'statV', 'stV'),
     (299.792458,), 'kg*m**2/s**3/A', 1.8e-07, 'electromagnetism'),
    ('unit_pole', 'UnitQuantity', None, None, (), ('unit_pole',),
     (4*pi*1e-8,), 'kg*m**2/s**2/A', 6.4e-08, 'electromagnetism'),
    ('magnetic_constant', 'UnitQuantity', 'mu_0', 'μ₀', ('vacuum_permeability',), ('vacuum_permeability', 'mu_0', 'magnetic_constant'),
     (4*pi*1e-7,), 'kg*m/s**2/A**2', 1e-12, 'electromagnetism'),
    ('electric_constant', 'UnitQuantity', 'epsilon_0', 'ε₀', ('vacuum_permittivity',), ('vacuum_permittivity', 'epsilon_0', 'electric_constant'),
     (1/(4*pi*1e-7*299792458**2),), 's**4*A**2/kg/m**3', 1e-12, 'electromagnetism'),
    ('characteristic_impedance_of_vacuum', 'UnitQuantity', 'Z_0', 'Z₀', ('impedence_of_free_space',), ('Z_0', 'impedence_of_free_space', 'characteristic_impedance_of_vacuum'),
     (4*pi*1e-7*299792458,), 'kg*m**2/s**3/A**2', 1e-12, 'electromagnetism'),
    ('candela', 'UnitLuminousIntensity', 'cd', None, ('candle', 'candles', 'candelas'), ('cd', 'candle', 'candela'),
     (1,), 'cd', 1e-12, 'electromagnetism'),
    ('joule', 'UnitQuantity', 'J', None, ('joules',), ('J', 'joule'),
     (1,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('British_thermal_unit', 'UnitQuantity', 'BTU', None, (), ('btu', 'Btu', 'BTU', 'british_thermal_unit'),
     (1055.05585262,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('electron_volt', 'UnitQuantity', 'eV', None, ('electron_volts',), ('eV', 'electron_volt'),
     (1.602176487e-19,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('meV', 'UnitQuantity', None, None, (), ('meV',),
     (1.602176487e-22,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('keV', 'UnitQuantity', None, None, (), ('keV',),
     (1.602176487e-16,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('MeV', 'UnitQuantity', None, None, (), ('MeV',),
     (1.602176487e-13,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('GeV', 'UnitQuantity', None, None, (), ('bev', 'GeV'),
     (1.602176487e-10,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('EC_therm', 'UnitQuantity', 'thm', None, (), ('thm', 'therm', 'EC_therm'),
     (100000*1055.05585262,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('thermochemical_calorie', 'UnitQuantity', 'cal', None, ('calorie', 'calories', 'thermochemical_calories'), ('cal', 'calorie', 'thermochemical_calorie'),
     (4.184,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('international_steam_table_calorie', 'UnitQuantity', 'cal_IT', None, ('international_steam_table_calories',), ('international_steam_table_calorie',),
     (4.1868,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('ton_TNT', 'UnitQuantity', 'tTNT', None, (), ('ton_TNT',),
     (4.184e9,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('US_therm', 'UnitQuantity', None, None, ('US_therms',), ('US_therm',),
     (1.054804e8,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('watt_hour', 'UnitQuantity', 'Wh', None, ('watthour', 'watthours', 'watt_hours'), ('Wh', 'watthour', 'watt_hour'),
     (3600,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('kilowatt_hour', 'UnitQuantity', 'kWh', None, ('kilowatthour', 'kilowatthours', 'kilowatt_hours'), ('kWh', 'kilowatthour', 'kilowatt_hour'),
     (3.6e6,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('megawatt_hour', 'UnitQuantity', 'MWh', None, ('megawatthour', 'megawatthours', 'megawatt_hours'), ('MWh', 'megawatthour', 'megawatt_hour'),
     (3.6e9,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('gigawatt_hour', 'UnitQuantity', 'GWh', None, ('gigawatthour', 'gigawatthours', 'gigawatt_hours'), ('GWh', 'gigawatthour', 'gigawatt_hour'),
     (3.6e12,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('hartree', 'UnitQuantity', 'E_h', None, ('hartrees', 'hartree_energy', 'Hartree_energy'), ('E_h', 'hartree', 'hartree_energy'),
     (4.35974394e-18,), 'kg*m**2/s**2', 1e-12, 'energy'),
    ('ounce', 'UnitMass', 'oz', None, ('ounces', 'avoirdupois_ounce', 'avoirdupois_ounces'), ('ounce',),
     (0.45359237/16,), 'kg', 1e-12, 'force'),
    ('pound', 'UnitMass', 'lb', None, ('pounds', 'avoirdupois_pound', 'avoirdupois_pounds'), ('lb',),
     (0.45359237,), 'kg', 1e-12, 'force'),
    ('foot', 'UnitLength', 'ft', None, ('feet', 'international_foot', 'international_feet'), ('ft',),
     (0.3048,), 'm', 1e-12, 'force'),
    ('kilonewton', 'UnitQuantity', 'kN', None, ('kilonewtons',), ('kN', 'kilonewton'),
     (1000,), 'kg*m/s**2', 1e-12, 'force'),
    ('dyne', 'UnitQuantity', 'dyn', None, ('dynes',), ('dyne',),
     (1e-5,), 'kg*m/s**2', 1e-12, 'force'),
    ('pond', 'UnitQuantity', 'p', None, ('ponds',), ('pond',),
     (9.80665e-3,), 'kg*m/s**2', 1e-12, 'force'),
    ('kilogram_force', 'UnitQuantity', 'kgf', None, ('force_kilogram',), ('kgf', 'force_kilogram', 'kilogram_force'),
     (9.80665,), 'kg*m/s**2', 1e-12, 'force'),
    ('ounce_force', 'UnitQuantity', 'ozf', None, ('force_ounce',), ('ozf', 'force_ounce', 'ounce_force'),
     (0.45359237/16*9.80665,), 'kg*m/s**2', 1e-12, 'force'),
    ('pound_force', 'UnitQuantity', 'lbf', None, ('force_pound',), ('lbf', 'force_pound', 'pound_force'),
     (0.45359237*9.80665,), 'kg*m/s**2', 1e-12, 'force'),
    ('poundal', 'UnitQuantity', 'pdl', None, ('poundals',), ('poundal',),
     (0.45359237*0.3048,), 'kg*m/s**2', 1e-12, 'force'),
    ('gram_force', 'UnitQuantity', 'gf', None, ('force_gram',), ('gf', 'gram_force', 'force_gram'),
     (9.80665e-3,), 'kg*m/s**2', 1e-12, 'force'),
    ('ton_force', 'UnitQuantity', None, None, ('force_ton',), ('force_ton', 'ton_force'),
     (2000*0.45359237*9.80665,), 'kg*m/s**2', 1e-12, 'force'),
    ('kip', 'UnitQuantity', None, None, (), ('kip',),
     (1000*0.45359237*9.80665,), 'kg*m/s**2', 1e-12, 'force'),
    ('hertz', 'UnitQuantity', 'Hz', None, (), ('Hz', 'hertz', 'rps'),
     (1,), '1/s', 1e-12, 'frequency'),
    ('kilohertz', 'UnitQuantity', 'kHz', None, (), ('kHz', 'kilohertz'),
     (1e3,), '1/s', 1e-12, 'frequency'),
    ('megahertz', 'UnitQuantity', 'MHz', None, (), ('MHz', 'megahertz'),
     (1e6,), '1/s', 1e-12, 'frequency'),
    ('gigahertz', 'UnitQuantity', 'GHz', None, (), ('GHz', 'gigahertz'),
     (1e9,), '1/s', 1e-12, 'frequency'),
    ('revolutions_per_minute', 'UnitQuantity', 'rpm', None, (), ('rpm', 'revolutions_per_minute'),
     (2*pi/60,), '1/s', 1e-12, 'frequency'),
    ('counts_per_second', 'UnitQuantity', None, None, (), ('cps',),
     (1,), '1/s', 1e-12, 'frequency'),
    ('RSI', 'UnitQuantity', None, None, (), ('RSI',),
     (1,), 's**3*K/kg', 1e-12, 'heat'),
    ('clo', 'UnitQuantity', None, None, ('clos',), ('clo', 'clos'),
     (0.155,), 's**3*K/kg', 1e-12, 'heat'),
    ('R_value', 'UnitQuantity', None, None, (), ('R_value',),
     (0.3048**2*5/9*3600/1055.05585262,), 's**3*K/kg', 1e-12, 'heat'),
    ('bit', 'UnitInformation', None, None, ('bits',), ('bit',),
     (1,), 'bit', 1e-12, 'information'),
    ('byte', 'UnitInformation', 'B', None, ('bytes', 'o', 'octet', 'octets'), ('B', 'byte', 'o', 'octet'),
     (8,), 'bit', 1e-12, 'information'),
    ('kilobyte', 'UnitInformation', 'kB', None, ('kilobytes', 'kilooctet', 'kilooctets'), ('kB', 'kilobyte', 'ko'),
     (8*1000**1,), 'bit', 1e-12, 'information'),
    ('megabyte', 'UnitInformation', 'MB', None, ('megabytes', 'megaoctet', 'megaoctets'), ('MB', 'megabyte', 'Mo'),
     (8*1000**2,), 'bit', 1e-12, 'information'),
    ('gigabyte', 'UnitInformation', 'GB', None, ('gigabytes', 'gigaoctet', 'gigaoctets'), ('GB', 'gigabyte', 'Go'),
     (8*1000**3,), 'bit', 1e-12, 'information'),
    ('terabyte', 'UnitInformation', 'TB', None, ('terabytes', 'teraoctet', 'teraoctets'), ('TB', 'terabyte', 'To'),
     (8*1000**4,), 'bit', 1e-12, 'information'),
    ('petabyte', 'UnitInformation', 'PB', None, ('petabytes', 'petaoctet', 'petaoctets'), ('PB', 'petabyte', 'Po'),
     (8*1000**5,), 'bit', 1e-12, 'information'),
    ('exabyte', 'UnitInformation', 'EB', None, ('exabytes', 'exaoctet', 'exaoctets'), ('EB', 'exabyte', 'Eo'),
     (8*1000**6,), 'bit', 1e-12, 'information'),
    ('zettabyte', 'UnitInformation', 'ZB', None, ('zettabytes', 'zettaoctet', 'zettaoctets'), ('ZB', 'zettabyte', 'Zo'),
     (8*1000**7,), 'bit', 1e-12, 'information'),
    ('yottabyte', 'UnitInformation', 'YB', None, ('yottabytes', 'yottaoctet', 'yottaoctets'), ('YB', 'yottabyte', 'Yo'),
     (8*1000**8,), 'bit', 1e-12, 'information'),
    ('baud', 'UnitQuantity', 'Bd', None, (), ('Bd', 'baud', 'bps'),
     (1,), 'bit/s', 1e-12, 'information'),
    ('kibibyte', 'UnitInformation', 'KiB', None, ('kibibytes', 'kibioctet', 'kibioctets'), ('KiB', 'kibibyte', 'Kio'),
     (8*1024**1,), 'bit', 1e-12, 'information'),
    ('mebibyte', 'UnitInformation', 'MiB', None, ('mebibytes', 'mebioctet', 'mebioctets'), ('MiB', 'mebibyte', 'Mio'),
     (8*1024**2,), 'bit', 1e-12, 'information'),
    ('gibibyte', 'UnitInformation', 'GiB', None, ('gibibytes', 'gibioctet', 'gibioctets'), ('GiB', 'gibibyte', 'Gio'),
     (8*1024**3,), 'bit', 1e-12, 'information'),
    ('tebibyte', 'UnitInformation', 'TiB', None, ('tebibytes', 'tebioctet', 'tebioctets'), ('TiB', 'tebibyte', 'Tio'),
     (8*1024**4,), 'bit', 1e-12, 'information'),
    ('pebibyte', 'UnitInformation', 'PiB', None, ('pebibytes', 'pebioctet', 'pebioctets'), ('PiB', 'pebibyte', 'Pio'),
     (8*1024**5,), 'bit', 1e-12, 'information'),
    ('exbibyte', 'UnitInformation', 'EiB', None, ('exbibytes', 'exbioctet', 'exbioctets'), ('EiB', 'exbibyte', 'Eio'),
     (8*1024**6,), 'bit', 1e-12, 'information'),
    ('zebibyte', 'UnitInformation', 'ZiB', None, ('zebibytes', 'zebioctet', 'zebioctets'), ('ZiB', 'zebibyte', 'Zio'),
     (8*1024**7,), 'bit', 1e-12, 'information'),
    ('yobibyte', 'UnitInformation', 'YiB', None, ('yobibytes', 'yobioctet', 'yobioctets'), ('YiB', 'yobibyte', 'Yio'),
     (8*1024**8,), 'bit', 1e-12, 'information'),
    ('meter', 'UnitLength', 'm', None, ('meters', 'metre', 'metres'), ('m', 'meter', 'metre'),
     (1,), 'm', 1e-12, 'length'),
    ('kilometer', 'UnitLength', 'km', None, ('kilometers', 'kilometre', 'kilometres'), ('km', 'kilometer', 'kilometre'),
     (1000,), 'm', 1e-12, 'length'),
    ('decimeter', 'UnitLength', 'dm', None, ('decimeters', 'decimetre', 'decimetres'), ('dm', 'decimeter', 'decimetre'),
     (0.1,), 'm', 1e-12, 'length'),
    ('millimeter', 'UnitLength', 'mm', None, ('millimeters', 'millimetre', 'millimetres'), ('mm', 'millimeter', 'millimetre'),
     (1e-3,), 'm', 1e-12, 'length'),
    ('micrometer', 'UnitLength', 'um', 'µm', ('micron', 'microns', 'micrometers', 'micrometre', 'micrometres'), ('um', 'micrometer', 'micrometre', 'micron'),
     (1e-6,), 'm', 1e-12, 'length'),
    ('nanometer', 'UnitLength', 'nm', None, ('nanometers', 'nanometre', 'nanometres'), ('nm', 'nanometer', 'nanometre'),
     (1e-9,), 'm', 1e-12, 'length'),
    ('picometer', 'UnitLength', 'pm', None, ('picometers', 'picometre', 'picometres'), ('pm', 'picometer', 'picometre'),
     (1e-12,), 'm', 1e-12, 'length'),
    ('angstrom', 'UnitLength', None, 'Å', ('angstroms',), ('angstrom',),
     (1e-10,), 'm', 1e-12, 'length'),
    ('femtometer', 'UnitLength', 'fm', None, ('femtometers', 'femtometre', 'femtometres', 'fermi', 'fermis'), ('fm', 'femtometer', 'femtometre', 'fermi'),
     (1e-15,), 'm', 1e-12, 'length'),
    ('inch', 'UnitLength', 'in', None, ('inches', 'international_inch', 'international_inches'), ('inch', 'international_inch'),
     (0.0254,), 'm', 1e-12, 'length'),
    ('mile', 'UnitLength', 'mi', None, ('miles', 'international_mile', 'international_miles'), ('mi', 'mile', 'international_mile'),
     (1609.344,), 'm', 1e-12, 'length'),
    ('yard', 'UnitLength', 'yd', None, ('yards', 'international_yard', 'international_yards'), ('yd', 'yard', 'international_yard'),
     (0.9144,), 'm', 1e-12, 'length'),
    ('mil', 'UnitLength', None, None, ('mils', 'thou', 'thous'), ('mil', 'thou'),
     (2.54e-5,), 'm', 1e-12, 'length'),
    ('parsec', 'UnitLength', 'pc', None, ('parsecs',), ('pc', 'parsec'),
     (648000/pi*149597870700,), 'm', 1.1e-06, 'length'),
    ('light_year', 'UnitLength', 'ly', None, ('light_years',), ('ly', 'light_year'),
     (299792458*365.25*86400,), 'm', 1e-12, 'length'),
    ('astronomical_unit', 'UnitLength', 'au', None, ('astronomical_units',), ('au', 'astronomical_unit'),
     (149597870700,), 'm', 7.8e-11, 'length'),
    ('nautical_mile', 'UnitLength', 'nmi', None, ('nmile', 'nmiles', 'nautical_miles'), ('nmi', 'nautical_mile'),
     (1852,), 'm', 1e-12, 'length'),
    ('printers_point', 'UnitLength', 'point', None, ('printers_points', 'points'), ('pt', 'printers_point', 'point'),
     (0.0254/72,), 'm', 1e-12, 'length'),
    ('pica', 'UnitLength', None, None, ('picas', 'printers_pica', 'printers_picas'), ('pica',),
     (0.0254/6,), 'm', 1e-12, 'length'),
    ('US_survey_foot', 'UnitLength', None, None, ('US_survey_feet',), ('US_survey_foot',),
     (1200/3937,), 'm', 1e-12, 'length'),
    ('US_survey_yard', 'UnitLength', None, None, ('US_survey_yards',), ('US_survey_yard',),
     (3600/3937,), 'm', 1e-12, 'length'),
    ('US_survey_mile', 'UnitLength', None, None, ('US_survey_miles', 'US_statute_mile', 'US_statute_miles'), ('US_survey_mile', 'US_statute_mile'),
     (5280*1200/3937,), 'm', 1e-12, 'length'),
    ('rod', 'UnitLength', None, None, ('rods', 'pole', 'poles', 'perch', 'perches'), ('rod', 'pole', 'perch'),
     (16.5*1200/3937,), 'm', 1e-12, 'length'),
    ('furlong', 'UnitLength', None, None, ('furlongs',), ('furlong',),
     (660*1200/3937,), 'm', 1e-12, 'length'),
    ('fathom', 'UnitLength', None, None, ('fathoms',), ('fathom',),
     (6*1200/3937,), 'm', 1e-12, 'length'),
    ('chain', 'UnitLength', None, None, ('chains',), ('chain',),
     (66*1200/3937,), 'm', 1e-12, 'length'),
    ('barleycorn', 'UnitLength', None, None, ('barleycorns',), ('barleycorn',),
     (0.0254/3,), 'm', 1e-12, 'length'),
    ('arpentlin', 'UnitLength', None, None, (), ('arpentlin',),
     (191.835*0.3048,), 'm', 1e-12, 'length'),
    ('kayser', 'UnitQuantity', None, None, ('kaysers', 'wavenumber', 'wavenumbers'), ('kayser', 'wavenumber'),
     (100,), '1/m', 1e-12, 'length'),
    ('kilogram', 'UnitMass', 'kg', None, ('kilograms',), ('kg', 'kilogram'),
     (1,), 'kg', 1e-12, 'mass'),
    ('gram', 'UnitMass', 'g', None, ('grams',), ('g', 'gram'),
     (1e-3,), 'kg', 1e-12, 'mass'),
    ('milligram', 'UnitMass', 'mg', None, ('milligrams',), ('mg', 'milligram'),
     (1e-6,), 'kg', 1e-12, 'mass'),
    ('stone', 'UnitMass', 'st', None, (), ('st', 'stone'),
     (14*0.45359237,), 'kg', 1e-12, 'mass'),
    ('carat', 'UnitMass', None, None, ('carats',), ('carat',),
     (2e-4,), 'kg', 1e-12, 'mass'),
    ('grain', 'UnitMass', 'gr', None, ('grains',), ('gr', 'grain'),
     (0.00006479891,), 'kg', 1e-12, 'mass'),
    ('long_hundredweight', 'UnitMass', None, None, ('long_hundredweights',), ('long_hundredweight',),
     (112*0.45359237,), 'kg', 1e-12, 'mass'),
    ('short_hundredweight', 'UnitMass', None, None, ('short_hundredweights',), ('short_hundredweight',),
     (100*0.45359237,), 'kg', 1e-12, 'mass'),
    ('tonne', 'UnitMass', 't', None, ('tonnes',), ('t', 'metric_ton', 'tonne'),
     (1000,), 'kg', 1e-12, 'mass'),
    ('pennyweight', 'UnitMass', 'dwt', None, ('pennyweights',), ('dwt', 'pennyweight'),
     (24*0.00006479891,), 'kg', 1e-12, 'mass'),
    ('slug', 'UnitMass', None, None, ('slugs',), ('slug', 'slugs'),
     (0.45359237*9.80665/0.3048,), 'kg', 2.6e-07, 'mass'),
    ('troy_ounce', 'UnitMass', 'toz', '℥', ('apounce', 'apounces', 'apothecary_ounce', 'apothecary_ounces', 'troy_ounces'), ('toz', 'troy_ounce', 'apounce', 'apothecary_ounce'),
     (480*0.00006479891,), 'kg', 1e-12, 'mass'),
    ('troy_pound', 'UnitMass', 'tlb', '℔', ('troy_pounds', 'appound', 'appounds', 'apothecary_pound', 'apothecary_pounds'), ('troy_pound', 'appound', 'apothecary_pound'),
     (5760*0.00006479891,), 'kg', 1e-12, 'mass'),
    ('atomic_mass_unit', 'UnitMass', 'u', None, ('amu', 'Da', 'dalton'), ('u', 'amu', 'atomic_mass_unit', 'dalton', 'Da'),
     (1.660538782e-27,), 'kg', 1e-12, 'mass'),
    ('scruple', 'UnitMass', None, '℈', ('scruples',), ('scruple',),
     (20*0.00006479891,), 'kg', 1e-12, 'mass'),
    ('dram', 'UnitMass', 'dr', None, ('drams',), ('dr', 'dram'),
     (0.45359237/256,), 'kg', 1e-12, 'mass'),
    ('drachm', 'UnitMass', None, 'ʒ', ('drachms', 'apdram', 'apdrams'), ('drachm', 'apdram'),
     (60*0.00006479891,), 'kg', 1e-12, 'mass'),
    ('bag', 'UnitMass', None, None, ('bags',), ('bag',),
     (94*0.45359237,), 'kg', 1e-12, 'mass'),
    ('short_ton', 'UnitMass', None, None, ('short_tons',), ('ton', 'short_ton'),
     (2000*0.45359237,), 'kg', 1e-12, 'mass'),
    ('long_ton', 'UnitMass', None, None, ('long_tons',), ('long_ton',),
     (2240*0.45359237,), 'kg', 1e-12, 'mass'),
    ('denier', 'UnitQuantity', None, None, ('deniers',), ('denier',),
     (1/9e6,), 'kg/m', 1e-12, 'mass'),
    ('tex', 'UnitQuantity', None, None, ('texs',), ('tex',),
     (1e-6,), 'kg/m', 1e-12, 'mass'),
    ('dtex', 'UnitQuantity', None, None, ('dtexs',), ('dtex',),
     (1e-7,), 'kg/m', 1e-12, 'mass'),
    ('minute', 'UnitTime', 'min', None, ('minutes',), ('min',),
     (60,), 's', 1e-12, 'power'),
    ('watt', 'UnitQuantity', 'W', None, ('watts', 'volt_ampere', 'volt_amperes', 'VA'), ('W', 'watt', 'volt_ampere'),
     (1,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('milliwatt', 'UnitQuantity', 'mW', None, ('milliwatts',), ('mW', 'milliwatt'),
     (1e-3,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('kilowatt', 'UnitQuantity', 'kW', None, ('kilowatts',), ('kW', 'kilowatt'),
     (1e3,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('megawatt', 'UnitQuantity', 'MW', None, ('megawatts',), ('MW', 'megawatt'),
     (1e6,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('horsepower', 'UnitQuantity', 'hp', None, ('UK_horsepower', 'British_horsepower'), ('hp', 'horsepower', 'UK_horsepower', 'British_horsepower'),
     (550*0.3048*0.45359237*9.80665,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('boiler_horsepower', 'UnitQuantity', None, None, (), ('boiler_horsepower',),
     (9809.5, 33475*1055.05585262/3600, 9809.50,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('metric_horsepower', 'UnitQuantity', None, None, (), ('metric_horsepower',),
     (75*9.80665,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('electric_horsepower', 'UnitQuantity', None, None, (), ('electric_horsepower',),
     (746,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('water_horsepower', 'UnitQuantity', None, None, (), ('water_horsepower',),
     (746.043,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('refrigeration_ton', 'UnitQuantity', None, None, ('ton_of_refrigeration',), ('refrigeration_ton', 'ton_of_refrigeration'),
     (12000*1055.05585262/3600,), 'kg*m**2/s**3', 1e-12, 'power'),
    ('conventional_mercury', 'UnitQuantity', None, None, (), ('Hg', 'mercury', 'conventional_mercury'),
     (13595.1*9.80665,), 'kg/m**2/s**2', 1e-12, 'pressure'),
    ('mercury_60F', 'UnitQuantity', None, None, (), ('mercury_60F',),
     (13556.8*9.80665,), 'kg/m**2/s**2', 1e-12, 'pressure'),
    ('H2O', 'UnitQuantity', None, None, (), ('H2O', 'h2o', 'water', 'conventional_water'),
     (9806.65,), 'kg/m**2/s**2', 1e-12, 'pressure'),
    ('water_4C', 'UnitQuantity', None, None, (), ('water_4C', 'water_39F'),
     (999.972*9.80665,), 'kg/m**2/s**2', 1e-12, 'pressure'),
    ('water_60F', 'UnitQuantity', None, None, (), ('water_60F',),
     (999.001*9.80665,), 'kg/m**2/s**2', 1e-12, 'pressure'),
    ('pascal', 'UnitQuantity', 'Pa', None, ('pascals',), ('Pa', 'pascal'),
     (1,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('hectopascal', 'UnitQuantity', 'hPa', None, (), ('hPa', 'hectopascal'),
     (100,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('kilopascal', 'UnitQuantity', 'kPa', None, ('kilopascals',), ('kPa', 'kilopascal'),
     (1e3,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('megapascal', 'UnitQuantity', 'MPa', None, ('megapascals',), ('MPa', 'megapascal'),
     (1e6,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('gigapascal', 'UnitQuantity', 'GPa', None, ('gigapascals',), ('GPa', 'gigapascal'),
     (1e9,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('bar', 'UnitQuantity', None, None, ('bars',), ('bar',),
     (1e5,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('millibar', 'UnitQuantity', 'mbar', None, ('millibars',), ('mbar', 'millibar'),
     (100,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('kilobar', 'UnitQuantity', 'kbar', None, ('kilobars',), ('kbar', 'kilobar'),
     (1e8,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('megabar', 'UnitQuantity', 'Mbar', None, ('megabars',), ('Mbar', 'megabar'),
     (1e11,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('gigabar', 'UnitQuantity', 'Gbar', None, ('gigabars',), ('Gbar', 'gigabar'),
     (1e14,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('standard_atmosphere', 'UnitQuantity', 'atm', None, ('atmosphere', 'atmospheres', 'standard_atmospheres'), ('atm', 'atmosphere', 'standard_atmosphere'),
     (101325,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('technical_atmosphere', 'UnitQuantity', 'at', None, ('technical_atmospheres',), ('at', 'technical_atmosphere'),
     (98066.5,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('torr', 'UnitQuantity', None, None, (), ('torr',),
     (101325/760,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('pound_force_per_square_inch', 'UnitQuantity', 'psi', None, (), ('psi', 'pound_force_per_square_inch'),
     (0.45359237*9.80665/0.0254**2,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('kip_per_square_inch', 'UnitQuantity', 'ksi', None, (), ('ksi', 'kip_per_square_inch'),
     (453.59237*9.80665/0.0254**2,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('barye', 'UnitQuantity', 'Ba', None, ('barie', 'baries', 'baryes', 'barad', 'barads', 'barrie', 'baryd', 'baryed'), ('barye', 'barie', 'barad', 'barrie', 'baryd'),
     (0.1,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('millimeter_Hg', 'UnitQuantity', 'mmHg', None, ('mm_Hg', 'millimeter_Hg_0C'), ('mmHg', 'mm_Hg', 'millimeter_Hg', 'millimeter_Hg_0C'),
     (133.322387415,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('cmHg', 'UnitQuantity', None, None, ('cm_Hg', 'centimeter_Hg'), ('cmHg', 'cm_Hg', 'centimeter_Hg'),
     (1333.22387415,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('inHg', 'UnitQuantity', None, None, ('in_Hg', 'inch_Hg', 'inch_Hg_32F'), ('inHg', 'in_Hg', 'inch_Hg', 'inch_Hg_32F'),
     (3386.388640,), 'kg/m/s**2', 1.3e-10, 'pressure'),
    ('inch_Hg_60F', 'UnitQuantity', None, None, (), ('inch_Hg_60F',),
     (3376.85,), 'kg/m/s**2', 5.6e-07, 'pressure'),
    ('inch_H2O_39F', 'UnitQuantity', None, None, (), ('inch_H2O_39F',),
     (249.082,), 'kg/m/s**2', 3.4e-07, 'pressure'),
    ('inch_H2O_60F', 'UnitQuantity', None, None, (), ('inch_H2O_60F',),
     (248.84,), 'kg/m/s**2', 3.7e-07, 'pressure'),
    ('footH2O', 'UnitQuantity', None, None, (), ('footH2O',),
     (0.3048*9806.65,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('cmH2O', 'UnitQuantity', None, None, (), ('cmH2O',),
     (98.0665,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('foot_H2O', 'UnitQuantity', None, None, ('ftH2O',), ('foot_H2O', 'ftH2O'),
     (0.3048*9806.65,), 'kg/m/s**2', 1e-12, 'pressure'),
    ('becquerel', 'UnitQuantity', 'Bq', None, ('becquerels',), ('Bq', 'becquerel'),
     (1,), '1/s', 1e-12, 'radiation'),
    ('curie', 'UnitQuantity', 'Ci', None, ('curies',), ('Ci', 'curie'),
     (3.7e10,), '1/s', 1e-12, 'radiation'),
    ('rutherford', 'UnitQuantity', 'Rd', None, ('rutherfords',), ('rd', 'rutherford'),
     (1e6,), '1/s', 1e-12, 'radiation'),
    ('gray', 'UnitQuantity', 'Gy', None, ('grays', 'Sv', 'sievert', 'sieverts'), ('Gy', 'gray', 'Sv', 'sievert'),
     (1,), 'm**2/s**2', 1e-12, 'radiation'),
    ('rem', 'UnitQuantity', None, None, ('rems',), ('rem',),
     (0.01,), 'm**2/s**2', 1e-12, 'radiation'),
    ('rads', 'UnitQuantity', None, None, (), ('rads',),
     (0.01,), 'm**2/s**2', 1e-12, 'radiation'),
    ('roentgen', 'UnitQuantity', 'R', None, ('roentgens',), ('R', 'roentgen'),
     (2.58e-4,), 's*A/kg', 1e-12, 'radiation'),
    ('millimole', 'UnitSubstance', 'mmol', None, (), ('mmol',),
     (1e-3,), 'mol', 1e-12, 'substance'),
    ('micromole', 'UnitSubstance', 'umol', 'µmol', (), ('umol',),
     (1e-6,), 'mol', 1e-12, 'substance'),
    ('Kelvin', 'UnitTemperature', 'K', None, ('degK', 'kelvin'), ('K', 'degK', 'kelvin', 'Kelvin'),
     (1,), 'K', 1e-12, 'temperature'),
    ('yottakelvin', 'UnitTemperature', 'YK', None, (), ('YK',),
     (1e24,), 'K', 1e-12, 'temperature'),
    ('zettakelvin', 'UnitTemperature', 'ZK', None, (), ('ZK',),
     (1e21,), 'K', 1e-12, 'temperature'),
    ('exakelvin', 'UnitTemperature', 'EK', None, (), ('EK',),
     (1e18,), 'K', 1e-12, 'temperature'),
    ('petakelvin', 'UnitTemperature', 'PK', None, (), ('PK',),
     (1e15,), 'K', 1e-12, 'temperature'),
    ('terakelvin', 'UnitTemperature', 'TK', None, (), ('TK',),
     (1e12,), 'K', 1e-12, 'temperature'),
    ('gigakelvin', 'UnitTemperature', 'GK', None, (), ('GK',),
     (1e9,), 'K', 1e-12, 'temperature'),
    ('megakelvin', 'UnitTemperature', 'MK', None, (), ('MK',),
     (1e6,), 'K', 1e-12, 'temperature'),
    ('kilokelvin', 'UnitTemperature', 'kK', None, (), ('kK',),
     (1e3,), 'K', 1e-12, 'temperature'),
    ('hectokelvin', 'UnitTemperature', 'hK', None, (), ('hK',),
     (1e2,), 'K', 1e-12, 'temperature'),
    ('dekakelvin', 'UnitTemperature', 'daK', None, (), ('daK',),
     (1e1,), 'K', 1e-12, 'temperature'),
    ('decikelvin', 'UnitTemperature', 'dK', None, (), ('dK',),
     (1e-1,), 'K', 1e-12, 'temperature'),
    ('centikelvin', 'UnitTemperature', 'cK', None, (), ('cK',),
     (1e-2,), 'K', 1e-12, 'temperature'),
    ('millikelvin', 'UnitTemperature', 'mK', None, (), ('mK',),
     (1e-3,), 'K', 1e-12, 'temperature'),
    ('microkelvin', 'UnitTemperature', 'uK', None, (), ('uK',),
     (1e-6,), 'K', 1e-12, 'temperature'),
    ('nanokelvin', 'UnitTemperature', 'nK', None, (), ('nK',),
     (1e-9,), 'K', 1e-12, 'temperature'),
    ('picokelvin', 'UnitTemperature', 'pK', None, (), ('pK',),
     (1e-12,), 'K', 1e-12, 'temperature'),
    ('femtokelvin', 'UnitTemperature', 'fK', None, (), ('fK',),
     (1e-15,), 'K', 1e-12, 'temperature'),
    ('attokelvin', 'UnitTemperature', 'aK', None, (), ('aK',),
     (1e-18,), 'K', 1e-12, 'temperature'),
    ('zeptokelvin', 'UnitTemperature', 'zK', None, (), ('zK',),
     (1e-21,), 'K', 1e-12, 'temperature'),
    ('yoctokelvin', 'UnitTemperature', 'yK', None, (), ('yK',),
     (1e-24,), 'K', 1e-12, 'temperature'),
    ('Rankine', 'UnitTemperature', 'degR', '°R', ('rankine',), ('degR', 'rankine', 'Rankine'),
     (5/9,), 'K', 1e-12, 'temperature'),
    ('Celsius', 'UnitTemperature', 'degC', '°C', ('celsius',), ('degC', 'celsius', 'Celsius'),
     (1,), 'K', 1e-12, 'temperature'),
    ('Fahrenheit', 'UnitTemperature', 'degF', '°F', ('fahrenheit',), ('degF', 'fahrenheit', 'Fahrenheit'),
     (5/9,), 'K', 1e-12, 'temperature'),
    ('second', 'UnitTime', 's', None, ('sec', 'seconds'), ('s', 'sec', 'second'),
     (1,), 's', 1e-12, 'time'),
    ('kilosecond', 'UnitTime', 'ks', None, ('kiloseconds',), ('ks', 'kilosecond'),
     (1e3,), 's', 1e-12, 'time'),
    ('megasecond', 'UnitTime', 'Ms', None, ('megaseconds',), ('Ms', 'megasecond'),
     (1e6,), 's', 1e-12, 'time'),
    ('millisecond', 'UnitTime', 'ms', None, ('milliseconds',), ('ms', 'millisecond'),
     (1e-3,), 's', 1e-12, 'time'),
    ('microsecond', 'UnitTime', 'us', 'µs', ('microseconds',), ('us', 'microsecond'),
     (1e-6,), 's', 1e-12, 'time'),
    ('nanosecond', 'UnitTime', 'ns', None, ('nanoseconds',), ('ns', 'nanosecond'),
     (1e-9,), 's', 1e-12, 'time'),
    ('picosecond', 'UnitTime', 'ps', None, ('picoseconds',), ('ps', 'picosecond'),
     (1e-12,), 's', 1e-12, 'time'),
    ('femtosecond', 'UnitTime', 'fs', None, ('femtoseconds',), ('fs', 'femtosecond'),
     (1e-15,), 's', 1e-12, 'time'),
    ('attosecond', 'UnitTime', 'as', None, ('attoseconds',), ('attosecond',),
     (1e-18,), 's', 1e-12, 'time'),
    ('hour', 'UnitTime', 'h', None, ('hr', 'hours'), ('h', 'hr', 'hour'),
     (3600,), 's', 1e-12, 'time'),
    ('day', 'UnitTime', 'd', None, ('days',), ('d', 'day'),
     (86400,), 's', 1e-12, 'time'),
    ('week', 'UnitTime', None, None, ('weeks',), ('week',),
     (604800,), 's', 1e-12, 'time'),
    ('fortnight', 'UnitTime', None, None, ('fortnights',), ('fortnight',),
     (1209600,), 's', 1e-12, 'time'),
    ('year', 'UnitTime', 'yr', None, ('a', 'years', 'tropical_year', 'tropical_years'), ('yr', 'year', 'tropical_year', 'a'),
     (31556925.9747,), 's', 1e-12, 'time'),
    ('month', 'UnitTime', None, None, ('months',), ('month',),
     (31556925.9747/12,), 's', 1e-12, 'time'),
    ('shake', 'UnitTime', None, None, ('shakes',), ('shake',),
     (1e-8,), 's', 1e-12, 'time'),
    ('sidereal_day', 'UnitTime', None, None, ('sidereal_days',), ('sidereal_day',),
     (86400/1.00273790935079524,), 's', 1e-12, 'time'),
    ('sidereal_hour', 'UnitTime', None, None, ('sidereal_hours',), ('sidereal_hour',),
     (3600/1.00273790935079524,), 's', 1e-12, 'time'),
    ('sidereal_minute', 'UnitTime', None, None, ('sidereal_minutes',), ('sidereal_minute',),
     (60/1.00273790935079524,), 's', 1e-12, 'time'),
    ('sidereal_second', 'UnitTime', None, None, ('sidereal_seconds',), ('sidereal_second',),
     (1/1.00273790935079524,), 's', 1e-12, 'time'),
    ('sidereal_year', 'UnitTime', None, None, ('sidereal_years',), ('sidereal_year',),
     (365.256363*86400,), 's', 1.5e-07, 'time'),
    ('sidereal_month', 'UnitTime', None, None, ('sidereal_months',), ('sidereal_month',),
     (27.321661*86400,), 's', 1e-12, 'time'),
    ('tropical_month', 'UnitTime', None, None, ('tropical_months',), ('tropical_month',),
     (27.321582*86400,), 's', 1e-12, 'time'),
    ('synodic_month', 'UnitTime', None, None, ('synodic_months', 'lunar_month', 'lunar_months'), ('synodic_month', 'lunar_month'),
     (29.530589*86400,), 's', 1e-12, 'time'),
    ('common_year', 'UnitTime', None, None, ('common_years',), ('common_year',),
     (365*86400,), 's', 1e-12, 'time'),
    ('leap_year', 'UnitTime', None, None, ('leap_years',), ('leap_year',),
     (366*86400,), 's', 1e-12, 'time'),
    ('Julian_year', 'UnitTime', None, None, ('Julian_years',), ('Julian_year',),
     (365.25*86400,), 's', 1e-12, 'time'),
    ('Gregorian_year', 'UnitTime', None, None, ('Gregorian_years',), ('Gregorian_year',),
     (365.2425*86400,), 's', 1e-12, 'time'),
    ('millenium', 'UnitTime', None, None, ('millenia',), ('millenium',),
     (31556925974.7,), 's', 1e-12, 'time'),
    ('eon', 'UnitTime', None, None, ('eons',), ('eon',),
     (31556925.9747e9,), 's', 1e-12, 'time'),
    ('work_year', 'UnitQuantity', None, None, ('work_years',), ('work_year',),
     (2056*3600,), 's', 1e-12, 'time'),
    ('work_month', 'UnitQuantity', None, None, ('work_months',), ('work_month',),
     (2056*300,), 's', 1e-12, 'time'),
    ('speed_of_light', 'UnitQuantity', 'c', None, (), ('c', 'speed_of_light'),
     (299792458,), 'm/s', 1e-12, 'velocity'),
    ('nautical_miles_per_hour', 'UnitQuantity', 'kt', None, ('knot', 'knots', 'knot_international', 'international_knot'), ('kt', 'knot', 'knot_international', 'international_knot'),
     (1852/3600,), 'm/s', 1e-12, 'velocity'),
    ('poise', 'UnitQuantity', 'P', None, (), ('P', 'poise'),
     (0.1,), 'kg/m/s', 1e-12, 'viscosity'),
    ('centipoise', 'UnitQuantity', 'cP', None, (), ('cP', 'centipoise'),
     (1e-3,), 'kg/m/s', 1e-12, 'viscosity'),
    ('stokes', 'UnitQuantity', 'St', None, (), ('St', 'stokes'),
     (1e-4,), 'm**2/s', 1e-12, 'viscosity'),
    ('rhe', 'UnitQuantity', None, None, (), ('rhe',),
     (10,), 'm*s/kg', 1e-12, 'viscosity'),
    ('milliliter', 'UnitQuantity', 'mL', None, ('ml', 'milliliters', 'millilitre', 'millilitres'), ('mL', 'milliliter', 'millilitre'),
     (1e-6,), 'm**3', 1e-12, 'volume'),
    ('kiloliter', 'UnitQuantity', 'kL', None, ('kl', 'kiloliters', 'kilolitre', 'kilolitres'), ('kL', 'kiloliter', 'kilolitre'),
     (1,), 'm**3', 1e-12, 'volume'),
    ('megaliter', 'UnitQuantity', 'ML', None, ('Ml', 'megaliters', 'megalitre', 'megalitres'), ('ML', 'megaliter', 'megalitre'),
     (1e3,), 'm**3', 1e-12, 'volume'),
    ('gigaliter', 'UnitQuantity', 'GL', None, ('Gl', 'gigaliters', 'gigalitre', 'gigalitres'), ('GL', 'gigaliter', 'gigalitre'),
     (1e6,), 'm**3', 1e-12, 'volume'),
    ('cubic_centimeter', 'UnitQuantity', 'cc', None, ('cubic_centimeters',), ('cc', 'cubic_centimeter'),
     (1e-6,), 'm**3', 1e-12, 'volume'),
    ('stere', 'UnitQuantity', None, None, ('steres',), ('stere',),
     (1,), 'm**3', 1e-12, 'volume'),
    ('gross_register_ton', 'UnitQuantity', 'GRT', None, ('gross_register_tons', 'register_ton', 'register_tons'), ('gross_register_ton', 'register_ton'),
     (100*0.3048**3,), 'm**3', 1e-12, 'volume'),
    ('acre_foot', 'UnitQuantity', None, None, ('acre_feet',), ('acre_foot',),
     (4840*0.9144**2*0.3048, 43560*0.3048**3, 43560*(1200/3937)**3,), 'm**3', 1e-12, 'volume'),
    ('board_foot', 'UnitQuantity', 'FBM', None, ('board_feet',), ('board_foot',),
     (0.3048**2*0.0254,), 'm**3', 1e-12, 'volume'),
    ('US_bushel', 'UnitQuantity', 'bu', None, (), ('bu', 'bushel', 'US_bushel'),
     (2150.42*0.0254**3,), 'm**3', 1e-12, 'volume'),
    ('US_dry_gallon', 'UnitQuantity', None, None, (), ('US_dry_gallon',),
     (2150.42*0.0254**3/8,), 'm**3', 1e-12, 'volume'),
    ('US_liquid_gallon', 'UnitQuantity', None, None, ('gallon', 'gallons', 'liquid_gallon', 'liquid_gallons', 'US_liquid_gallons'), ('gallon', 'liquid_gallon', 'US_liquid_gallon'),
     (231*0.0254**3,), 'm**3', 1e-12, 'volume'),
    ('US_dry_quart', 'UnitQuantity', None, None, ('dry_quart', 'dry_quarts', 'US_dry_quarts'), ('dry_quart', 'US_dry_quart'),
     (2150.42*0.0254**3/32,), 'm**3', 1e-12, 'volume'),
    ('US_dry_pint', 'UnitQuantity', None, None, ('dry_pint', 'dry_pints', 'US_dry_pints'), ('dry_pint', 'US_dry_pint'),
     (2150.42*0.0254**3/64,), 'm**3', 1e-12, 'volume'),
    ('US_liquid_quart', 'UnitQuantity', 'quart', None, ('quarts', 'liquid_quart', 'liquid_quarts', 'US_liquid_quarts'), ('quart', 'liquid_quart', 'US_liquid_quart'),
     (231*0.0254**3/4,), 'm**3', 1e-12, 'volume'),
    ('US_liquid_pint', 'UnitQuantity', 'pt', None, ('pint', 'pints', 'liquid_pint', 'liquid_pints', 'US_liquid_pints'), ('pt', 'pint', 'liquid_pint', 'US_liquid_pint'),
     (231*0.0254**3/8,), 'm**3', 1e-12, 'volume'),
    ('cup', 'UnitQuantity', None, None, ('cups', 'US_liquid_cup', 'US_liquid_cups'), ('cup', 'US_liquid_cup'),
     (231*0.0254**3/16,), 'm**3', 1e-12, 'volume'),
    ('US_liquid_gill', 'UnitQuantity', 'gill', None, ('gills', 'US_liquid_gills'), ('gill', 'US_liquid_gill'),
     (231*0.0254**3/32,), 'm**3', 1e-12, 'volume'),
    ('US_fluid_ounce', 'UnitQuantity', 'fl_oz', None, ('fluid_ounce', 'fluid_ounces', 'US_fluid_ounces', 'US_liquid_ounce', 'US_liquid_ounces'), ('floz', 'fluid_ounce', 'US_fluid_ounce', 'US_liquid_ounce'),
     (231*0.0254**3/128,), 'm**3', 1e-12, 'volume'),
    ('Imperial_bushel', 'UnitQuantity', None, None, (), ('Imperial_bushel',),
     (8*4.54609e-3,), 'm**3', 1e-12, 'volume'),
    ('UK_liquid_gallon', 'UnitQuantity', None, None, ('UK_liquid_gallons', 'Canadian_liquid_gallon', 'Canadian_liquid_gallons'), ('UK_liquid_gallon', 'Canadian_liquid_gallon'),
     (4.54609e-3,), 'm**3', 1e-12, 'volume'),
    ('UK_liquid_quart', 'UnitQuantity', None, None, ('UK_liquid_quarts',), ('UK_liquid_quart',),
     (4.54609e-3/4,), 'm**3', 1e-12, 'volume'),
    ('UK_liquid_pint', 'UnitQuantity', None, None, ('UK_liquid_pints',), ('UK_liquid_pint',),
     (4.54609e-3/8,), 'm**3', 1e-12, 'volume'),
    ('UK_liquid_cup', 'UnitQuantity', None, None, ('UK_liquid_cups',), ('UK_liquid_cup',),
     (4.54609e-3/16,), 'm**3', 1e-12, 'volume'),
    ('UK_liquid_gill', 'UnitQuantity', None, None, ('UK_liquid_gills',), ('UK_liquid_gill',),
     (4.54609e-3/32,), 'm**3', 1e-12, 'volume'),
    ('UK_fluid_ounce', 'UnitQuantity', None, None, ('UK_fluid_ounces', 'UK_liquid_ounce', 'UK_liquid_ounces'), ('UK_fluid_ounce', 'UK_liquid_ounce'),
     (4.54609e-3/160,), 'm**3', 1e-12, 'volume'),
    ('barrel', 'UnitQuantity', 'bbl', None, (), ('bbl', 'barrel'),
     (42*231*0.0254**3,), 'm**3', 1e-12, 'volume'),
    ('tablespoon', 'UnitQuantity', 'tbsp', None, ('Tbsp', 'Tblsp', 'Tbl', 'tblsp', 'tbs', 'tablespoons'), ('tbsp', 'Tbsp', 'Tblsp', 'tblsp', 'tbs', 'Tbl', 'tablespoon'),
     (231*0.0254**3/256,), 'm**3', 1e-12, 'volume'),
    ('teaspoon', 'UnitQuantity', 'tsp', None, ('teaspoons',), ('tsp', 'teaspoon'),
     (231*0.0254**3/768,), 'm**3', 1e-12, 'volume'),
    ('peck', 'UnitQuantity', 'pk', None, ('pecks',), ('pk', 'peck'),
     (2150.42*0.0254**3/4,), 'm**3', 1e-12, 'volume'),
    ('fluid_dram', 'UnitQuantity', 'fldr', None, ('fluid_drams', 'fluidram', 'fluidrams'), ('fldr', 'fluid_dram', 'fluidram'),
     (231*0.0254**3/1024,), 'm**3', 1e-12, 'volume'),
    ('firkin', 'UnitQuantity', None, None, (), ('firkin',),
     (42*231*0.0254**3/4,), 'm**3', 1e-12, 'volume'),
]
BY_NAME = {u[0]: u for u in UNITS}
