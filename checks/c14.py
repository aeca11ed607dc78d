import math

from .common import *
from .units_ref import UNITS as REF, BY_NAME

TITLE = 'unit definitions agree with their standards'
LEVEL = 'other'
FLOOR = 300
EXPLAIN = ('the unit modules are interpreted abstractly and the definition of every exported unit is folded through the chain of units it '
           'refers to; the resulting factor and dimension are compared with an independent table of published definitions (346 units with '
           'their symbols), a symbolic magnitude is converted with each of them, and related units and prefixes are compared with each other')
BASE = {'m': 'meter', 'kg': 'kilogram', 's': 'second', 'A': 'ampere', 'K': 'Kelvin', 'mol': 'mole', 'cd': 'candela', 'bit': 'bit'}
PREFIXES = {'yotta': 24, 'zetta': 21, 'exa': 18, 'peta': 15, 'tera': 12, 'giga': 9, 'mega': 6, 'kilo': 3, 'hecto': 2, 'deka': 1, 'deci': -1, 'centi': -2, 'milli': -3, 'micro': -6,
            'nano': -9, 'pico': -12, 'femto': -15, 'atto': -18, 'zepto': -21, 'yocto': -24}
BINARY = ['kibi', 'mebi', 'gibi', 'tebi', 'pebi', 'exbi', 'zebi', 'yobi']
# exact relations between units: the first is as many of the second
RELATED = [
    ('foot', 12, 'inch'), ('yard', 3, 'foot'), ('mile', 1760, 'yard'), ('inch', 1000, 'mil'), ('inch', 72, 'printers_point'), ('pica', 12, 'printers_point'), ('chain', 4, 'rod'),
    ('furlong', 10, 'chain'), ('US_survey_mile', 8, 'furlong'), ('US_survey_yard', 3, 'US_survey_foot'), ('US_survey_mile', 5280, 'US_survey_foot'), ('fathom', 2, 'US_survey_yard'),
    ('inch', 3, 'barleycorn'), ('pound', 16, 'ounce'), ('stone', 14, 'pound'), ('long_hundredweight', 8, 'stone'), ('long_ton', 20, 'long_hundredweight'),
    ('short_ton', 20, 'short_hundredweight'), ('pound', 7000, 'grain'), ('ounce', 16, 'dram'), ('troy_pound', 12, 'troy_ounce'), ('troy_ounce', 20, 'pennyweight'),
    ('troy_ounce', 8, 'drachm'), ('drachm', 3, 'scruple'), ('scruple', 20, 'grain'), ('tonne', 1000, 'kilogram'), ('gram', 5, 'carat'), ('tex', 10, 'dtex'),
    ('tex', 9, 'denier'), ('bag', 94, 'pound'), ('day', 24, 'hour'), ('hour', 60, 'minute'), ('minute', 60, 'second'), ('week', 7, 'day'), ('fortnight', 2, 'week'), ('year', 12, 'month'),
    ('millenium', 1000, 'year'), ('eon', 1000000, 'millenium'), ('sidereal_day', 24, 'sidereal_hour'), ('sidereal_hour', 60, 'sidereal_minute'), ('sidereal_minute', 60, 'sidereal_second'),
    ('common_year', 365, 'day'), ('leap_year', 366, 'day'), ('work_year', 12, 'work_month'), ('microsecond', 100, 'shake'), ('US_liquid_gallon', 4, 'US_liquid_quart'),
    ('US_liquid_quart', 2, 'US_liquid_pint'), ('US_liquid_pint', 2, 'cup'), ('cup', 2, 'US_liquid_gill'), ('US_liquid_gill', 4, 'US_fluid_ounce'), ('US_fluid_ounce', 2, 'tablespoon'),
    ('tablespoon', 3, 'teaspoon'), ('US_fluid_ounce', 8, 'fluid_dram'), ('barrel', 42, 'US_liquid_gallon'), ('US_bushel', 4, 'peck'), ('US_bushel', 8, 'US_dry_gallon'),
    ('US_dry_gallon', 4, 'US_dry_quart'), ('US_dry_quart', 2, 'US_dry_pint'), ('Imperial_bushel', 8, 'UK_liquid_gallon'), ('UK_liquid_gallon', 4, 'UK_liquid_quart'),
    ('UK_liquid_quart', 2, 'UK_liquid_pint'), ('UK_liquid_pint', 2, 'UK_liquid_cup'), ('UK_liquid_cup', 2, 'UK_liquid_gill'), ('UK_liquid_gill', 5, 'UK_fluid_ounce'),
    ('liter', 1000, 'milliliter'), ('liter', 1000, 'cubic_centimeter'), ('kiloliter', 1, 'stere'), ('turn', 360, 'arcdegree'), ('arcdegree', 60, 'arcminute'), ('arcminute', 60, 'arcsecond'),
    ('turn', 400, 'grad'), ('arcdegree', 1, 'degrees_north'), ('hectare', 100, 'are'), ('darcy', 1000, 'millidarcy'), ('byte', 8, 'bit'), ('Rankine', 1, 'Fahrenheit'),
    ('Kelvin', 1, 'Celsius'), ('keV', 1000, 'electron_volt'), ('MeV', 1000, 'keV'), ('GeV', 1000, 'MeV'), ('electron_volt', 1000, 'meV'), ('kilowatt_hour', 1000, 'watt_hour'),
    ('megawatt_hour', 1000, 'kilowatt_hour'), ('gigawatt_hour', 1000, 'megawatt_hour'), ('EC_therm', 100000, 'British_thermal_unit'), ('ton_TNT', 10**9, 'thermochemical_calorie'),
    ('kip', 1000, 'pound_force'), ('ton_force', 2, 'kip'), ('pound_force', 16, 'ounce_force'), ('kilogram_force', 1000, 'gram_force'), ('gram_force', 1, 'pond'), ('newton', 10**5, 'dyne'),
    ('standard_atmosphere', 760, 'torr'), ('bar', 1000, 'millibar'), ('kilobar', 1000, 'bar'), ('megabar', 1000, 'kilobar'), ('gigabar', 1000, 'megabar'), ('bar', 10**6, 'barye'),
    ('kip_per_square_inch', 1000, 'pound_force_per_square_inch'), ('cmHg', 10, 'millimeter_Hg'), ('footH2O', 1, 'foot_H2O'), ('poise', 100, 'centipoise'), ('gray', 100, 'rem'),
    ('gray', 100, 'rads'), ('weber', 10**8, 'maxwell'), ('tesla', 10**4, 'gauss'), ('gauss', 10**5, 'gamma'), ('abfarad', 10**9, 'farad'), ('ohm', 10**9, 'abohm'), ('volt', 10**8, 'abvolt'),
    ('abampere', 10, 'ampere'), ('henry', 10**9, 'abhenry'), ('joule', 10**7, 'erg'), ('curie', 37000, 'rutherford'), ('rutherford', 10**6, 'becquerel'), ('molar', 1000, 'millimolar'),
    ('millimolar', 1000, 'micromolar'), ('mole', 1000, 'millimole'), ('clo', 0.155, 'RSI'), ('angstrom', 100, 'picometer'), ('statohm', 898755400000 * 10**9, 'abohm')]
SI_PREFIXED = {'meter': 'kilo deci centi milli micro nano pico femto', 'gram': 'kilo milli', 'second': 'kilo mega milli micro nano pico femto atto', 'ampere': 'milli micro nano pico',
               'liter': 'milli kilo mega giga', 'volt': 'kilo milli micro', 'farad': 'milli micro nano pico femto', 'siemens': 'milli micro nano pico', 'coulomb': 'milli micro',
               'hertz': 'kilo mega giga', 'watt': 'milli kilo mega', 'pascal': 'hecto kilo mega giga', 'newton': 'kilo', 'mole': 'milli micro', 'molar': 'milli micro', 'radian': 'milli micro',
               'kelvin': 'yotta zetta exa peta tera giga mega kilo hecto deka deci centi milli micro nano pico femto atto zepto yocto',
               'byte': 'kilo mega giga tera peta exa zetta yotta', 'darcy': 'milli'}


def base_dims(s):
    """{base unit: exponent} of 'kg*m**2/s'"""
    out = {}
    s = s.replace('**', '^')
    sign = 1
    tok = ''
    for c in s + '*':
        if c in '*/':
            if tok and tok != '1':
                n, _, e = tok.partition('^')
                out[BASE[n]] = sign * float(e or 1)
            sign, tok = (1 if c == '*' else -1), ''
        else:
            tok += c
    return {k: C(v) for k, v in out.items()}


def build(root, tier):
    S = Suite(root)
    W = S.W
    U = W.I.import_module('quantities.units')

    def unit(u):
        """the object exported under the first variable of the unit in its module"""
        m = W.I.import_module('quantities.units.' + u[9])
        for v in u[5]:
            try:
                return v, W.I.getattr(m, v)
            except spec.PyRaise:
                pass
        fail('quantities.units.%s' % u[9], 'does not export %s' % ', '.join(u[5]))

    def near(what, t, values, tol):
        for x in values:
            if paths.same(T.mul(t, C(T.Fraction(1) / T.Fraction(x))), ONE, tol) is True:
                done('value')
                return
        want_same(what, T.mul(t, C(T.Fraction(1) / T.Fraction(values[0]))), ONE, tol)

    def definition(u):
        name, cls, symbol, usymbol, aliases, variables, values, dims, tol, mod = u
        v, x = unit(u)
        what = 'quantities.units.%s.%s' % (mod, v)
        want(what, isinstance(x, AArr) and any(c.name == 'UnitQuantity' for c in x.cls.mro), 'is not a unit')
        want(what, W.I.getattr(x, 'name') == name, 'has the name %s instead of %s' % (W.I.getattr(x, 'name'), name))
        s = W.ev('x.simplified', what + '.simplified', x=x)
        want_dims(what + '.simplified: dimensions', W.dims(s), base_dims(dims))
        near(what + ' in SI units', W.mag(s), values, tol)
        # a magnitude of it
        q = W.ev('(a*x).simplified', '(a*%s).simplified' % v, a=W.vec('a'), x=x)
        want_dims('(a*%s).simplified' % v, W.dims(q), base_dims(dims))
        want_same('(a*%s).simplified' % v, W.mag(q), T.mul(T.sym('a'), W.mag(s)))
        if dims:
            r = W.ev('(a*x).rescale(d)', "(a*%s).rescale('%s')" % (v, dims), a=W.vec('a'), x=x, d=dims)
            want_same("(a*%s).rescale('%s')" % (v, dims), W.mag(r), T.mul(T.sym('a'), W.mag(s)))
            b = W.ev('pq.Quantity(a, d).rescale(x)', "pq.Quantity(a, '%s').rescale(%s)" % (dims, v), a=W.vec('a'), x=x, d=dims)
            want_same("pq.Quantity(a, '%s').rescale(%s)" % (dims, v), T.mul(W.mag(b), W.mag(s)), T.sym('a'))
        # the symbols
        want(what, W.I.getattr(x, 'symbol') == (symbol or name), 'has the symbol %s instead of %s' % (W.I.getattr(x, 'symbol'), symbol or name))
        want(what, W.I.getattr(x, 'u_symbol') == (usymbol or symbol or name),
             'has the unicode symbol %s instead of %s' % (W.I.getattr(x, 'u_symbol'), usymbol or symbol or name))
    for u in REF:
        S.add('definition of %s' % u[0], definition, u)

    def obj(n):
        if n == 'kelvin':
            n = 'Kelvin'
        return unit(BY_NAME[n])[1]

    def related(a, k, b):
        x, y = W.ev('x.simplified', x=obj(a)), W.ev('x.simplified', x=obj(b))
        what = '%s = %s %s' % (a, k, b)
        want_dims(what, W.dims(x), W.dims(y))
        want_same(what, T.mul(W.mag(x), T.inv(T.mul(C(T.Fraction(k)), W.mag(y)))), ONE, 1e-10 if a != 'statohm' else 1e-6)
        r = W.ev('(1.0*x).rescale(y)', x=obj(a), y=obj(b))
        want_same(what + ' by conversion', T.mul(W.mag(r), C(1 / T.Fraction(k))), ONE, 1e-10 if a != 'statohm' else 1e-6)
    for a, k, b in RELATED:
        S.add('%s = %s %s' % (a, k, b), related, a, k, b)
    for u, ps in SI_PREFIXED.items():
        for p in ps.split():
            if (p + u) in BY_NAME:
                k = T.Fraction(10) ** PREFIXES[p]
                S.add('%s%s = %g %s' % (p, u, float(k), u), related, p + u, k, u)
    for i, p in enumerate(BINARY, 1):
        S.add('%sbyte = 1024**%d byte' % (p, i), related, p + 'byte', 1024 ** i, 'byte')

    def prefix(p, k):
        m = W.I.import_module('quantities.units.prefixes')
        try:
            v = W.I.getattr(m, p)
        except spec.PyRaise:
            want('prefix ' + p, p == 'yocto', 'is missing')     # (yocto is not among the exported ones)
            return
        want_same('quantities.units.prefixes.' + p, T.mul(W.mag(v), C(1 / k)), ONE, 1e-14)
    for p, e in PREFIXES.items():
        S.add('prefix %s' % p, prefix, p, T.Fraction(10) ** e)
    for i, p in enumerate(BINARY, 1):
        S.add('prefix %s' % p, prefix, p, T.Fraction(1024) ** i)
    return S.items, {'units in the reference table': len(REF)}
