import itertools

from .common import *
from . import common
from .units_ref import UNITS as REF

TITLE = 'the default unit system governs simplification and never breaks conversion'
LEVEL = 'other'
FLOOR = 300
EXPLAIN = ('abstract evaluation of histories of set_default_units and set_default_unit: after every step the units and the value of simplified quantities are '
           'compared with a reference map of defaults, and conversions with the unit scales, which do not depend on the defaults')

#: keyword -> (class, base unit)
KINDS = {'length': ('UnitLength', 'meter'), 'mass': ('UnitMass', 'kilogram'), 'time': ('UnitTime', 'second'), 'current': ('UnitCurrent', 'ampere'),
         'luminous_intensity': ('UnitLuminousIntensity', 'candela'), 'substance': ('UnitSubstance', 'mole'), 'temperature': ('UnitTemperature', 'Kelvin'),
         'information': ('UnitInformation', 'bit'), 'currency': ('UnitCurrency', 'monA')}
SI = {'current': 'ampere', 'length': 'meter', 'mass': 'kilogram', 'luminous_intensity': 'candela', 'substance': 'mole', 'temperature': 'Kelvin', 'time': 'second'}
CGS = {'length': 'centimeter', 'mass': 'gram', 'luminous_intensity': 'candela', 'substance': 'mole', 'temperature': 'Kelvin', 'time': 'second'}

OWN = '''
curA = pq.UnitCurrent('curA', rC*pq.A)
temA = pq.UnitTemperature('temA', rE*pq.K)
subA = pq.UnitSubstance('subA', rS*pq.mol)
lumA = pq.UnitLuminousIntensity('lumA', rL*pq.cd)
infA = pq.UnitInformation('infA', rI*pq.bit)
monA = pq.UnitCurrency('monA')
monB = pq.UnitCurrency('monB', rN*monA)
vltA = pq.UnitQuantity('vltA', rV*masA*lenB**2/timA**3/curA)
flwA = pq.UnitQuantity('flwA', rW*subA*infA/timB*temA**-2*lumA*monB)
'''

#: what is chosen, the keyword, the unit it stands for
CHOICES = [("'mm'", 'length', 'millimeter'), ('pq.km', 'length', 'kilometer'), ('lenA', 'length', 'lenA'), ("'lenB'", 'length', 'lenB'), ('1*lenB', 'length', 'lenB'), ('pq.m', 'length', 'meter'), ("'meters'", 'length', 'meter'),
           ('lenA.units', 'length', 'lenA'), ('lenA*lenB/lenB', 'length', 'lenA'), ('masA', 'mass', 'masA'), ("'g'", 'mass', 'gram'), ("'kg'", 'mass', 'kilogram'), ('pq.g', 'mass', 'gram'), ('timA', 'time', 'timA'), ("'hour'", 'time', 'hour'),
           ('pq.minute', 'time', 'minute'), ("'s'", 'time', 'second'), ('curA', 'current', 'curA'), ("'A'", 'current', 'ampere'), ('temA', 'temperature', 'temA'), ("'degK'", 'temperature', 'Kelvin'), ('subA', 'substance', 'subA'),
           ("'mol'", 'substance', 'mole'), ('lumA', 'luminous_intensity', 'lumA'), ("'cd'", 'luminous_intensity', 'candela'), ('infA', 'information', 'infA'), ("'bit'", 'information', 'bit'), ("'byte'", 'information', 'byte'),
           ('monB', 'currency', 'monB'), ("'monA'", 'currency', 'monA')]
PQU = {'meter': 'pq.m', 'millimeter': 'pq.mm', 'kilometer': 'pq.km', 'centimeter': 'pq.cm', 'kilogram': 'pq.kg', 'gram': 'pq.g', 'second': 'pq.s', 'hour': 'pq.hour', 'minute': 'pq.minute', 'ampere': 'pq.A', 'Kelvin': 'pq.K',
       'mole': 'pq.mol', 'candela': 'pq.cd', 'bit': 'pq.bit', 'byte': 'pq.byte'}


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    r = {k: T.sym('r' + k, True, True) for k in 'CESLINVW'}
    ns = W.run(OWN, **{'r' + k: SNum(v, 'float') for k, v in r.items()})
    for k in ('curA', 'temA', 'subA', 'lumA', 'infA', 'monA', 'monB', 'vltA', 'flwA'):
        W.ns[k] = ns[k]
        common.UNITS[k] = {k: 1}
    o = W.r
    W.units.update({
        'curA': (r['C'], {'ampere': ONE}), 'temA': (r['E'], {'Kelvin': ONE}), 'subA': (r['S'], {'mole': ONE}), 'lumA': (r['L'], {'candela': ONE}), 'infA': (r['I'], {'bit': ONE}),
        'monA': (ONE, {'monA': ONE}), 'monB': (r['N'], {'monA': ONE}), 'byte': (C(8), {'bit': ONE}), 'newton': (ONE, {'kilogram': ONE, 'meter': ONE, 'second': C(-2)}),
        'joule': (ONE, {'kilogram': ONE, 'meter': C(2), 'second': C(-2)}), 'volt': (ONE, {'kilogram': ONE, 'meter': C(2), 'second': C(-3), 'ampere': C(-1)}),
        'coulomb': (ONE, {'second': ONE, 'ampere': ONE}), 'hertz': (ONE, {'second': C(-1)}),
        'vltA': (T.mul(r['V'], o['M'], o['B'], o['B'], T.power(o['T'], C(-3)), T.inv(r['C'])), {'kilogram': ONE, 'meter': C(2), 'second': C(-3), 'ampere': C(-1)}),
        'flwA': (T.mul(r['W'], r['S'], r['I'], T.inv(o['U']), T.power(r['E'], C(-2)), r['L'], r['N']),
                 {'mole': ONE, 'bit': ONE, 'second': C(-1), 'Kelvin': C(-2), 'candela': ONE, 'monA': ONE})})
    n = W.dim('n')
    BASE = {b: k for k, (_, b) in KINDS.items()}

    def initial():
        return {k: b for k, (_, b) in KINDS.items()}

    def system(m, s):
        m.update({'si': SI, 'cgs': CGS}[s.lower()])

    # ------------------------------------------------------- what is observed
    UNITS = ['lenA', 'lenB', 'pq.m', 'pq.km', 'masA', 'pq.kg', 'timA', 'pq.s', 'frcA', 'velA', 'ratA', 'pq.dimensionless', 'curA', 'temA', 'subA', 'lumA', 'infA', 'monA', 'monB', 'vltA', 'flwA', 'pq.percent',
             'lenA**2', 'lenB**0.5', 'lenA/timB', 'frcA*lenB**-1', 'velA**2', 'lenA**-1', 'lenA/lenB', 'masA*velA/frcA']
    common.UNITS.update({'pq.N': {'newton': 1}, 'pq.J': {'joule': 1}, 'pq.V': {'volt': 1}, 'pq.C': {'coulomb': 1}, 'pq.Hz': {'hertz': 1}, 'pq.bit': {'bit': 1}})
    UNITS += ['pq.N', 'pq.J', 'pq.V', 'pq.C', 'pq.Hz']
    FEW = ['lenA', 'pq.kg', 'timA', 'frcA', 'vltA', 'flwA', 'pq.J', 'lenB**0.5', 'ratA']

    def in_defaults(m, base):
        """{unit: exponent} in the chosen units"""
        return {m[BASE[b]]: e for b, e in base.items()}

    def observe(what, m, units, full=True):
        for u in units:
            sc, base = W.factor(dims_of(u))
            dims = in_defaults(m, base)
            a = W.vec('a')
            w = '%s: (a*%s).simplified' % (what, u)
            x = W.q(W.arr('a', (n,)), u)
            s0 = W.snap(x)
            s = W.ev('x.simplified', w, x=x)
            W.want_q(w, s)
            W.want_units(w, s, dims)
            want_same(w, T.mul(W.mag(s), W.factor(dims)[0]), T.mul(N.val(a), sc))
            W.unchanged(w, s0, x)
            if not full:
                continue
            # the unit itself, its dimensionality, twice, uncertain
            if '*' not in u and '/' not in u:
                z = W.ev(u + '.simplified', what)
                W.want_units('%s: %s.simplified' % (what, u), z, dims)
                want_same('%s: %s.simplified' % (what, u), T.mul(W.mag(z), W.factor(dims)[0]), sc)
            z = W.ev('x.dimensionality.simplified', what, x=x)
            want_dims('%s: (a*%s).dimensionality.simplified' % (what, u), W.dims(z), dims)
            z = W.ev('x.simplified.simplified', what, x=x)
            W.want_units(w + '.simplified', z, dims)
            want_same(w + '.simplified', W.mag(z), W.mag(s))
            z = W.ev('pq.UncertainQuantity(x, uncertainty=e).simplified', what, x=x, e=W.arr('e', (n,), positive=True))
            W.want_units(w + ', uncertain', z, dims)
            W.want_units(w + ', uncertainty', W.unc(z), dims)
            want_same(w + ', uncertainty', T.mul(W.mag(W.unc(z)), W.factor(dims)[0]), T.mul(N.val(W.arr('e', (n,), positive=True)), sc))

    CONV = [('lenA', 'lenB'), ('pq.km', 'lenA'), ('frcA', 'masA*lenB/timB**2'), ('masA*lenB/timB**2', 'pq.N'), ('velA', 'pq.m/pq.s'), ('ratA', 'pq.dimensionless'), ('monB', 'monA'), ('infA', 'pq.bit'),
            ('vltA', 'pq.V'), ('lenA**0.5', 'lenB**0.5'), ('pq.J', 'pq.N*pq.km')]

    def conversions(what, m, conv):
        for u, v in conv:
            fu, fv = W.factor(dims_of(u))[0], W.factor(dims_of(v))[0]
            for src in ('x.rescale(%s)' % v, 'pq.Quantity(x, %s)' % v):
                w = '%s: %s of %s' % (what, src, u)
                z = W.ev(src, w, x=W.q(W.arr('a', (n,)), u))
                W.want_units(w, z, dims_of(v))
                want_same(w, T.mul(W.mag(z), fv), T.mul(N.val(W.arr('a', (n,))), fu))
            w = '%s: sum of %s and %s' % (what, u, v)
            z = W.ev('x + y', w, x=W.q(W.arr('a', (n,)), u), y=W.q(W.arr('b', (n,)), v))
            W.want_value(w, z, T.add(T.mul(N.val(W.arr('a', (n,))), fu), T.mul(N.val(W.arr('b', (n,))), fv)), W.factor(dims_of(u))[1])
            w = '%s: %s of its simplified' % (what, u)
            z = W.ev('x.simplified.rescale(%s)' % u, w, x=W.q(W.arr('a', (n,)), u))
            want_same(w, W.mag(z), N.val(W.arr('a', (n,))))
        W.refuse('_r = (2*lenA).rescale(timA)', ('ValueError',), what + ': (2*lenA).rescale(timA)')
        W.refuse('_r = 2*lenA + 3*masA', ('ValueError',), what + ': 2*lenA + 3*masA')

    def defaults_are(what, m):
        for k, (cls, b) in KINDS.items():
            g = W.ev('pq.unitquantity.%s.get_default_unit()' % cls, what)
            W.want_units('%s: the default %s unit' % (what, k), g, {m[k]: ONE})
            W.want_mag('%s: the default %s unit' % (what, k), g, ONE)

    # -------------------------------------------------------------- histories
    def apply(m, step):
        src, eff = step[0], step[1]
        if eff is None:
            names = ('Exception',)
            W.refuse(src, names, src)
        else:
            W.do(src, src)
            for e in eff:
                if isinstance(e, str):
                    system(m, e)
                else:
                    m[e[0]] = e[1]

    def history(steps, units, conv=CONV[:4], each=False):
        m = initial()
        what = '; '.join(s[0] for s in steps)
        defaults_are('at first', m) if each else None
        for s in steps:
            # (what has been simplified before may be remembered)
            if s[1] is not None:
                observe('before ' + s[0], m, units, False)
            apply(m, s)
        defaults_are(what, m)
        observe(what, m, units, each)
        conversions(what, m, conv)

    SYS = [("pq.set_default_units('SI')", ('si',)), ("pq.set_default_units('cgs')", ('cgs',)), ("pq.set_default_units('si')", ('si',)), ("pq.set_default_units('CGS')", ('cgs',)), ("pq.set_default_units(system='Cgs')", ('cgs',)),
           ('pq.set_default_units()', ()), ('pq.set_default_units(None)', ()), ('pq.set_default_units(length=None, mass=None)', ())]
    ONE_ = []
    for src, k, u in CHOICES:
        ONE_.append(('pq.set_default_units(%s=%s)' % (k, src), ((k, u),)))
        ONE_.append(('pq.unitquantity.%s.set_default_unit(%s)' % (KINDS[k][0], src), ((k, u),)))
    MIX = [("pq.set_default_units('cgs', length='mm')", ('cgs', ('length', 'millimeter'))), ("pq.set_default_units('SI', mass='g', time=timA)", ('si', ('mass', 'gram'), ('time', 'timA'))),
           ('pq.set_default_units(length=lenA, mass=masA, time=timA)', (('length', 'lenA'), ('mass', 'masA'), ('time', 'timA'))),
           ("pq.set_default_units('cgs', current=curA, temperature=temA)", ('cgs', ('current', 'curA'), ('temperature', 'temA'))),
           ('pq.set_default_units(None, monB, curA, infA, lenA, lumA, masA, subA, temA, timA)', tuple((k, u) for k, u in (
               ('currency', 'monB'), ('current', 'curA'), ('information', 'infA'), ('length', 'lenA'), ('luminous_intensity', 'lumA'), ('mass', 'masA'), ('substance', 'subA'), ('temperature', 'temA'), ('time', 'timA')))),
           ("pq.set_default_units(currency=monB, current=curA, information=infA, length=lenA, luminous_intensity=lumA, mass=masA, substance=subA, temperature=temA, time=timA)", tuple((k, u) for k, u in (
               ('currency', 'monB'), ('current', 'curA'), ('information', 'infA'), ('length', 'lenA'), ('luminous_intensity', 'lumA'), ('mass', 'masA'), ('substance', 'subA'), ('temperature', 'temA'), ('time', 'timA')))),
           ("pq.set_default_units('SI', length=lenB, information='byte')", ('si', ('length', 'lenB'), ('information', 'byte'))),
           ('pq.unitquantity.UnitLength.set_default_unit(None)', ())]
    WRONG = {'length': ['timA', "'kg'", 'lenA**2', 'pq.dimensionless', 'ratA', "'N'", 'frcA', '2*lenA', '[1, 2]*lenA', '5', "'5*m'", "'nosuchunit'", "'m**2'", 'masA', '1/lenA', '1*timA', 'pq.m/pq.km', '2.0'],
             'mass': ['lenA', "'s'", 'frcA', "'nosuchunit'", '3*masA', 'masA**2'], 'time': ["'m'", "'Hz'", 'velA', 'masA', '1/timA', '0.5*timB'], 'current': ["'C'", 'vltA', "'V'", 'lenA'], 'temperature': ["'m'", 'pq.J', 'temA**2'],
             'substance': ["'cd'", 'pq.kg', 'pq.dimensionless'], 'luminous_intensity': ["'lm/m**2'", 'subA', "'mol'"], 'information': ["'mol'", 'infA/timA', 'pq.dimensionless'], 'currency': ["'m'", 'infA', 'pq.dimensionless']}
    REF_ = []
    for k, l in WRONG.items():
        for w in l:
            REF_.append(('pq.set_default_units(%s=%s)' % (k, w), None))
            REF_.append(('pq.unitquantity.%s.set_default_unit(%s)' % (KINDS[k][0], w), None))
    REF_ += [("pq.set_default_units(%s)" % s, None) for s in (
        "'foo'", "''", "'mks'", "'SIX'", "'c.g.s.'", "system='imperial'", '5', "'cgs '", "'si', length='kg'", "'cgs', length='s'", "'cgs', time='m'", "'cgs', information='m'", "length='mm', time='kg'", "time='mm', length='mm'",
        "'foo', length='mm'", "length=lenA, mass=masA, time=lenA", "currency=monB, time=masA", "mass='g', current='V'", "'SI', length=lenB, mass=masA, temperature='mol'", "length='mm', mass='nosuchunit'", "substance=lumA, length=lenB",
        "luminous_intensity=subA, current=curA", "length=2*lenA, mass='g'", "'cgs', currency=lenA", "'cgs', nosuch='m'")]

    for i, s in enumerate(SYS + ONE_ + MIX):
        if thorough:
            S.add(s[0], history, [s], UNITS, CONV, True)
        else:      # (each unit with every fourth)
            S.add(s[0], history, [s], [u for j, u in enumerate(UNITS) if (i + j) % 12 == 0 or u in ('vltA', 'flwA')], [c for j, c in enumerate(CONV) if (i + j) % 4 == 0], True)
    START = [("pq.set_default_units('cgs', length=lenB)", ('cgs', ('length', 'lenB'))), ('pq.set_default_units(time=timB, current=curA, information=infA)', (('time', 'timB'), ('current', 'curA'), ('information', 'infA')))]
    for i, s in enumerate(REF_):
        for j, st in enumerate([None] + START):
            if thorough or i % 3 == j:
                S.add('%s; refused: %s' % (st[0], s[0]) if st else 'refused: ' + s[0], history, [st, s] if st else [s], FEW if thorough else [['velA', 'masA'], ['vltA', 'subA'], ['flwA']][i % 3], CONV[:3] if thorough else CONV[2:3])
    # one after another
    core = SYS[:2] + [ONE_[i] for i in range(0, len(ONE_), 2) if CHOICES[i//2][0] in ("'mm'", 'lenA', '1*lenB', 'masA', 'timA', "'hour'", 'curA', "'byte'", 'monB', 'temA')] + MIX[:3]
    core += [("pq.set_default_units('cgs', length='kg')", None), ("pq.set_default_units('foo')", None), ('pq.unitquantity.UnitTime.set_default_unit(lenA)', None)]
    for i, q in enumerate(itertools.product(core, repeat=2)):
        if not thorough and (i + i//len(core)) % 4:
            continue
        S.add('; '.join(s[0] for s in q), history, list(q), FEW if thorough else ['vltA', 'flwA'], CONV[:2] if thorough else [])
    if thorough:
        few = [s for s in core if s[1] is None or s[0] in ("pq.set_default_units('SI')", "pq.set_default_units('cgs')", 'pq.set_default_units(length=lenA)', "pq.set_default_units(length='mm')", 'pq.set_default_units(mass=masA)',
                                                           'pq.set_default_units(time=timA)', "pq.set_default_units('cgs', length='mm')")]
        for q in itertools.product(few, repeat=3):
            S.add('; '.join(s[0] for s in q), history, list(q), FEW, CONV[:2])

    # a unit defined afterwards, a quantity made before, a quantity that is then changed
    @S.rule('units defined after the choice')
    def later():
        W.do("pq.set_default_units('cgs', length=lenA)")
        q = W.do("lenZ = pq.UnitLength('lenZ', 7*pq.m); accZ = pq.UnitQuantity('accZ', 3*lenZ/pq.s**2); x = (2*lenZ).simplified; y = (2*accZ).simplified")
        W.want_q_like('(2*lenZ).simplified', q['x'], C(14), {'lenA': ONE})
        W.want_q_like('(2*accZ).simplified', q['y'], C(42), {'lenA': ONE, 'second': C(-2)})
        d = W.do("z = pq.unitquantity.UnitLength.get_default_unit()")['z']
        W.want_units('the default length', d, {'lenA': ONE})

    @S.rule('quantities made before the choice')
    def earlier():
        q = W.do("x = a*frcA; s = x.simplified; pq.set_default_units('cgs'); t = x.simplified; u = s.simplified; v = s.rescale(frcA); w = s + t", a=W.vec('a'))
        f = T.mul(T.sym('a'), W.units['frcA'][0])
        base = {'kilogram': ONE, 'meter': ONE, 'second': C(-2)}
        cgs = {'gram': ONE, 'centimeter': ONE, 'second': C(-2)}
        W.want_q_like('simplified before', q['s'], f, base)
        W.want_q_like('simplified after', q['t'], f, cgs)
        W.want_q_like('simplified again', q['u'], f, cgs)
        W.want_q_like('converted back', q['v'], f, {'frcA': ONE})
        W.want_value('the sum', q['w'], T.mul(C(2), f))

    def changed(src, change, dims):
        q = W.do('x = %s; pq.set_default_units(length=x)\n%s\nr = (a*pq.m).simplified\nt = (a*pq.J).simplified' % (src, change), a=W.vec('a'))
        what = 'length=x with x = %s, then %s' % (src, change)
        W.want_q_like(what + ': (a*m).simplified', q['r'], T.sym('a'), dims)
        W.want_q_like(what + ': (a*J).simplified', q['t'], T.sym('a'), dict({k: C(2) for k in dims}, kilogram=ONE, second=C(-2)))
    for src, change in (('1*lenA', 'x *= 2'), ('1*lenA', 'x.units = lenB'), ('1.0*lenA', 'x += x'), ('1*lenA', 'x /= pq.s'), ('1*lenA', 'x **= 2'), ('1*lenA', 'x.magnitude[()] = 5'), ('1*lenA', 'x.fill(3)'),
                        ('1*lenA', 'y = x[...]; y *= 3'), ('(1.0*lenA).units', 'x *= 3'), ('(3*lenA).units', 'x *= pq.kg')):
        S.add('x = %s chosen; %s' % (src, change), changed, src, change, {'lenA': ONE})

    @S.rule('kinds of units defined by users')
    def own():
        cls = 'class UnitFoo(pq.unitquantity.IrreducibleUnit):\n    pass\nclass UnitQux(pq.unitquantity.IrreducibleUnit):\n    pass\n'
        q = W.do(cls + 'foo = UnitFoo("foo"); fu = UnitFoo("fu", 3*foo)\npq.set_default_units("cgs", time=timA)\nquxA = UnitQux("quxA"); quxB = UnitQux("quxB", 5*quxA)\n'
                 'x = (a*fu).simplified; y = (a*quxB*fu*pq.m).simplified; UnitFoo.set_default_unit(fu); z = (a*quxB*foo).simplified; t = (a*pq.s).simplified; d = UnitQux.get_default_unit()', a=W.vec('a'))
        W.units.update({'foo': (ONE, {'foo': ONE}), 'fu': (C(3), {'foo': ONE}), 'quxA': (ONE, {'quxA': ONE}), 'quxB': (C(5), {'quxA': ONE})})
        a = T.sym('a')
        W.want_q_like('(a*fu).simplified', q['x'], T.mul(C(3), a), {'foo': ONE})
        W.want_q_like('(a*quxB*fu*m).simplified', q['y'], T.mul(C(15), a), {'foo': ONE, 'quxA': ONE, 'centimeter': ONE})
        W.want_q_like('(a*quxB*foo).simplified', q['z'], T.mul(C(5), a), {'fu': ONE, 'quxA': ONE})
        W.want_q_like('(a*s).simplified', q['t'], a, {'timA': ONE})
        W.want_units('the default', q['d'], {'quxA': ONE})
        for k in ('length', 'mass', 'currency'):
            W.refuse('%spq.set_default_units(%s=foo)' % (cls, k), ('Exception',), '%s=foo' % k, foo=q['foo'])

    # a compound unit as the default keeps its form
    @S.rule('a compound default')
    def compound():
        q = W.do("pq.set_default_units(length=pq.CompoundUnit('km')); x = (a*pq.m).simplified; y = (a*pq.J).simplified", a=W.vec('a'))
        want_same('x', W.mag(q['x']), T.mul(T.sym('a'), C('1/1000')))
        want_same('y', W.mag(q['y']), T.mul(T.sym('a'), C('1/1000000')))

    @S.rule('compound units are simplified in the defaults')
    def compound2():
        q = W.do("c = pq.CompoundUnit('km/hour'); pq.set_default_units(length=lenA, time=timA); x = (a*c).simplified; y = c.simplified", a=W.vec('a'))
        W.want_q_like('(a*c).simplified', q['x'], T.mul(T.sym('a'), C('5/18')), {'lenA': ONE, 'timA': C(-1)})
        W.want_q_like('c.simplified', q['y'], C('5/18'), {'lenA': ONE, 'timA': C(-1)})

    # every unit of the package
    def everywhere(mod, conf, eff):
        m = initial()
        m2 = W.I.import_module('quantities.units.' + mod)
        before = []
        for u in REF:
            if u[9] == mod:
                try:
                    x = W.I.getattr(m2, u[5][0])
                except spec.PyRaise:
                    continue
                before.append((u[0], x, W.ev('x.simplified', u[0], x=x)))
        W.do(conf)
        for e in eff:
            system(m, e) if isinstance(e, str) else m.__setitem__(*e)
        for name, x, s in before:
            base = W.dims(s)
            if any(b not in BASE for b in base):
                continue
            dims = in_defaults(m, base)
            what = '%s: %s.simplified' % (conf, name)
            z = W.ev('x.simplified', what, x=x)
            W.want_units(what, z, dims)
            want_same(what, T.mul(W.mag(z), W.factor(dims)[0]), W.mag(s))
            z = W.ev('(2.0*x).rescale(s)', what, x=x, s=W.ev('s.units', s=s))
            want_same('%s: conversion of %s' % (conf, name), W.mag(z), T.mul(C(2), W.mag(s)))
    for mod in sorted({u[9] for u in REF}):
        for conf, eff in (("pq.set_default_units('cgs')", ('cgs',)), MIX[5]):
            S.add('units.%s after %s' % (mod, conf[:60]), everywhere, mod, conf, eff)

    # constants
    def constants(conf, eff):
        m = initial()
        cs = {}
        K = W.I.import_module('quantities.constants')
        for nm in ('c', 'G', 'h', 'hbar', 'e', 'k', 'N_A', 'm_e', 'R', 'sigma', 'mu_0', 'epsilon_0', 'F', 'R_inf'):
            try:
                x = W.I.getattr(K, nm)
            except spec.PyRaise:
                continue
            cs[nm] = (x, W.ev('x.simplified', nm, x=x))
        W.do(conf)
        for e in eff:
            system(m, e) if isinstance(e, str) else m.__setitem__(*e)
        for nm, (x, s) in cs.items():
            dims = in_defaults(m, W.dims(s))
            z = W.ev('x.simplified', nm, x=x)
            what = '%s: constants.%s.simplified' % (conf, nm)
            W.want_units(what, z, dims)
            want_same(what, T.mul(W.mag(z), W.factor(dims)[0], T.inv(W.mag(s))), ONE)
        want('constants', len(cs) > 8, 'only %s found' % sorted(cs))
    for conf, eff in (("pq.set_default_units('cgs')", ('cgs',)), MIX[5]):
        S.add('constants after %s' % conf[:60], constants, conf, eff)
    return S.items, {'units of the package': len(REF)}
