import random

from .common import *
from .units_ref import UNITS as REF

TITLE = 'unit labels are unambiguous and resolve'
LEVEL = 'other'
FLOOR = 1500
EXPLAIN = ('abstract evaluation of the registry: every name, symbol and alias resolves to the very unit it belongs to, every exported variable is that unit, '
           'and every history of registrations is compared with a map in which no label is ever bound anew')

#: exported by one module under a name that the package gives to a unit of another
SHADOWED = {('length', 'pt'), ('acceleration', 'force')}
CLASSES = ['UnitLength', 'UnitTime', 'UnitMass', 'UnitQuantity', 'UnitCurrent', 'UnitTemperature', 'UnitSubstance', 'UnitLuminousIntensity', 'UnitInformation', 'UnitCurrency']
CONFLICT = ('KeyError', 'ValueError')


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    U = W.I.import_module('quantities.units')
    objs = {}
    for u in REF:
        m = W.I.import_module('quantities.units.' + u[9])
        try:
            objs[u[0]] = W.I.getattr(m, u[5][0])
        except spec.PyRaise:
            pass

    def lookup(l):
        """the unit a label stands for, None if it is unknown"""
        try:
            return W.run('_r = pq.unit_registry[l]', l=l)['_r']
        except spec.PyRaise as e:
            if e.exc.cls.name == 'LookupError' or any(c.name == 'LookupError' for c in e.exc.cls.mro):
                return None
            if any(c.name == 'SyntaxError' for c in e.exc.cls.mro):
                return None
            fail('unit_registry[%r]' % (l,), 'raised %s at %s' % (e.exc.cls.name, e.where))

    owner = {}
    for u in REF:
        for l in (u[0],) + ((u[2],) if u[2] else ()) + u[4]:
            if l.isidentifier():
                owner.setdefault(l, u[0])

    def unit(u):
        m = W.I.import_module('quantities.units.' + u[9])
        x = objs.get(u[0])
        want('quantities.units.%s' % u[9], x is not None, 'does not export %s' % u[5][0])
        want(u[0], W.I.getattr(x, 'name') == u[0], 'has the name %s' % W.I.getattr(x, 'name'))
        # the labels of the specification and those the unit says it has
        labels = (u[0],) + ((u[2],) if u[2] else ()) + u[4]
        sym = W.I.getattr(x, 'symbol')
        for l in labels + ((sym,) if isinstance(sym, str) and sym not in labels else ()):
            if not l.isidentifier():
                continue
            r = lookup(l)
            want('unit_registry[%r]' % l, r is x, 'is %s instead of the unit %s' % (W.show(r) if r is not None else 'unknown', u[0]))
            q = W.ev('pq.Quantity(a, l)', 'pq.Quantity(a, %r)' % l, l=l, a=W.vec('a'))
            W.want_units('pq.Quantity(a, %r)' % l, q, {} if u[0] == 'dimensionless' else {u[0]: ONE})
        # the variables
        for v in u[5]:
            want('quantities.units.%s.%s' % (u[9], v), W.I.getattr(m, v) is x, 'is not the unit %s' % u[0])
            if (u[9], v) in SHADOWED:
                continue
            for where, mm in (('quantities.units', U), ('quantities', W.pq)):
                try:
                    y = W.I.getattr(mm, v)
                except spec.PyRaise:
                    fail('%s.%s' % (where, v), 'is not exported')
                want('%s.%s' % (where, v), y is x, 'is %s instead of the unit %s' % (W.show(y), u[0]))
            if v not in labels:
                r = lookup(v)
                want('unit_registry[%r]' % v, r is None or r is x, 'is %s while the variable of this name is %s' % (W.show(r), u[0]))
    for u in REF:
        S.add('unit %s' % u[0], unit, u)

    # what the package exports is what strings mean
    def exports():
        for v, x in sorted(W.pq.ns.items()):
            if isinstance(x, AArr) and any(c.name == 'UnitQuantity' for c in x.cls.mro) and isinstance(v, str):
                r = lookup(v) if v not in ('in', 'as') else None
                want('unit_registry[%r]' % v, r is None or r is x, 'is %s, quantities.%s is %s' % (W.show(r), v, W.show(x)))
                n = W.I.getattr(x, 'name')
                if isinstance(n, str) and n.isidentifier():
                    r = lookup(n)
                    want('unit_registry[%r]' % n, r is x, 'is %s instead of the unit quantities.%s' % (W.show(r), v))
    S.add('the variables of the package', exports)

    def constants():
        K = W.I.import_module('quantities.constants')
        for v, x in sorted(K.ns.items()):
            if isinstance(x, AArr) and any(c.name == 'UnitConstant' for c in x.cls.mro):
                for l in (v, W.I.getattr(x, 'name'), W.I.getattr(x, 'symbol')):
                    if isinstance(l, str) and l.isidentifier():
                        r = lookup(l)
                        want('unit_registry[%r]' % l, r is not x, 'is the constant %s' % v)
                        if l in owner:
                            want('unit_registry[%r]' % l, r is objs[owner[l]], 'is %s instead of the unit %s' % (W.show(r), owner[l]))
    S.add('constants take no labels', constants)

    # user-defined units
    def define(cls, how):
        """a new unit under a name, a symbol and aliases of its own"""
        base = {'UnitLength': 'pq.m', 'UnitTime': 'pq.s', 'UnitMass': 'pq.kg', 'UnitQuantity': 'pq.N', 'UnitCurrent': 'pq.A', 'UnitTemperature': 'pq.K', 'UnitSubstance': 'pq.mol',
                'UnitLuminousIntensity': 'pq.cd', 'UnitInformation': 'pq.bit', 'UnitCurrency': None}[cls]
        k = W.num('k', positive=True)
        d = 'None' if base is None or how == 'base' else 'k*' + base
        src = {'name': "x = pq.%s('newU', %s)", 'symbol': "x = pq.%s('newU', %s, symbol='qU')", 'aliases': "x = pq.%s('newU', %s, aliases=['qA', 'qB'])",
               'all': "x = pq.%s('newU', %s, 'qU', 'µU', ['qA', 'qB'])", 'base': "x = pq.%s('newU', %s, symbol='qU')", 'tuple': "x = pq.%s('newU', %s, symbol='qU', aliases=('qA', 'qB'))"}[how] % (cls, d)
        x = W.do(src, k=k)['x']
        want_labels = {'name': ['newU'], 'symbol': ['newU', 'qU'], 'aliases': ['newU', 'qA', 'qB'], 'all': ['newU', 'qU', 'qA', 'qB'], 'base': ['newU', 'qU'], 'tuple': ['newU', 'qU', 'qA', 'qB']}[how]
        for l in ('newU', 'qU', 'qA', 'qB'):
            r = lookup(l)
            if l in want_labels:
                want('unit_registry[%r] after %s' % (l, src), r is x, 'is %s' % (W.show(r) if r is not None else 'unknown'))
                q = W.ev('pq.Quantity(a, l)', 'pq.Quantity(a, %r) after %s' % (l, src), l=l, a=W.vec('a'))
                W.want_units('pq.Quantity(a, %r)' % l, q, {'newU': ONE})
                q = W.ev('pq.Quantity(a, s)', s='m*%s**2' % l, a=W.vec('a'))
                W.want_units('pq.Quantity(a, %r)' % ('m*%s**2' % l), q, {'newU': C(2), 'meter': ONE})
            else:
                want('unit_registry[%r] after %s' % (l, src), r is None, 'is %s' % W.show(r))
        for l in ('m', 'meter', 's', 'kg', 'N', 'lenA', 'percent'):
            if l in owner:
                want('unit_registry[%r] after %s' % (l, src), lookup(l) is objs[owner[l]], 'is another unit')
    for cls in CLASSES:
        for how in ('name', 'symbol', 'aliases', 'all', 'base', 'tuple'):
            S.add('%s with %s' % (cls, how), define, cls, how)

    # conflicting labels
    watch = ['m', 'meter', 'metre', 's', 'second', 'kg', 'N', 'newton', 'lenA', 'timA', 'frcA', 'ft', 'percent', 'hour', 'degC', 'b', 'e', 'c', 'g']

    def state():
        return {l: lookup(l) for l in watch}

    def conflict(src, **kw):
        before = state()
        W.refuse(src, CONFLICT, src, **kw)
        after = state()
        for l in watch:
            want('unit_registry[%r] after the refused %s' % (l, src), after[l] is before[l], 'is another unit')
    defs = {'UnitQuantity': 'k*pq.m**7', 'UnitLength': 'k*7*pq.lightyear', 'UnitTime': 'k*7*pq.century', 'UnitMass': 'k*7*pq.kg'}
    for label in ('m', 'meter', 'metre', 's', 'second', 'N', 'newton', 'lenA', 'ft', 'percent', 'hour', 'degC', 'e', 'c', 'dimensionless', 'mol', 'cd', 'K', 'A', 'bit', 'radian'):
        for form in ("x = pq.UnitQuantity(%r, 7*pq.m**7)", "x = pq.UnitQuantity('newU', 7*pq.m**7, symbol=%r)", "x = pq.UnitQuantity('newU', 7*pq.m**7, aliases=[%r])",
                     "x = pq.UnitQuantity('newU', 7*pq.m**7, symbol='qU', aliases=['qA', %r])", "x = pq.UnitMass(%r, 7*pq.g)", "x = pq.UnitMass('newU', 7*pq.g, symbol=%r)",
                     "x = pq.UnitTime('newU', 7*pq.s, aliases=[%r])", "x = pq.UnitQuantity(%r)", "x = pq.UnitCurrency(%r)", "pq.unit_registry[%r] = pq.kg*1", "pq.unit_registry[%r] = pq.tesla"):
            S.add('conflict: ' + form % label, conflict, form % label)
    # … also when only the conversion factor differs
    def factor(src, unit):
        x0 = lookup(unit)
        k = W.num('k', positive=True)
        try:
            W.run(src, k=k)
        except spec.PyRaise as e:
            want(src, any(c.name in CONFLICT for c in e.exc.cls.mro), 'raised %s at %s' % (e.exc.cls.name, e.where))
            done('refused')
        else:
            # (accepted for the same physical unit only)
            p = W.factor({x: ONE for x in [W.I.getattr(x0, 'name')]})[0]
            if paths.same(k.t, p) is not True:
                fail(src, 'was accepted while %r is another unit' % unit)
        want('unit_registry[%r] after %s' % (unit, src), lookup(unit) is x0, 'is another unit')
    for unit in ('lenA', 'kilometer', 'km'):
        for form in ('x = pq.UnitLength(%r, k*pq.m)', "x = pq.UnitLength('newU', k*pq.m, symbol=%r)", "x = pq.UnitQuantity('newU', k*pq.m, aliases=[%r])", 'pq.unit_registry[%r] = pq.UnitLength("newU", k*pq.m)'):
            S.add('factor: ' + form % unit, factor, form % unit, unit)

    def again(src1, src2, label):
        """what was registered first keeps the label"""
        x = W.do(src1)['x']
        want('unit_registry[%r] after %s' % (label, src1), lookup(label) is x, 'is not that unit')
        W.refuse(src2, CONFLICT, '%s; %s' % (src1, src2))
        want('unit_registry[%r] after %s; %s' % (label, src1, src2), lookup(label) is x, 'is not the first unit')
        q = W.ev('(a*x).rescale(s)', '(a*x).rescale(%r)' % label, a=W.vec('a'), x=x, s=label)
        want_same('(a*x).rescale(%r)' % label, W.mag(q), T.sym('a'))
    firsts = [("x = pq.UnitLength('newU', 5*pq.m, symbol='qU', aliases=['qA'])", ('newU', 'qU', 'qA')), ("x = pq.UnitQuantity('newU', 5*pq.N*pq.s, aliases=['qA'])", ('newU', 'qA')),
              ("x = pq.UnitInformation('newU', 5*pq.bit, 'qU')", ('newU', 'qU')), ("x = pq.UnitCurrency('newU', symbol='qU')", ('newU', 'qU'))]
    for s1, ls in firsts:
        for l in ls:
            for form in ('y = pq.UnitLength(%r, 6*pq.m)', "y = pq.UnitLength('oU', 6*pq.m, symbol=%r)", "y = pq.UnitTime('oU', 6*pq.s, aliases=[%r])", 'y = pq.UnitQuantity(%r)', 'pq.unit_registry[%r] = pq.lenX'):
                if 'lenX' in form:
                    form = "pq.unit_registry[%r] = pq.km"
                S.add('again: %s; %s' % (s1, form % l), again, s1, form % l, l)
    # a label of its own, however similar, takes nothing away
    for l in (' m', 'm ', '\tm', 'M', 'Meter', 'METER', '(m)', 'm*1', 'm.', 'm#', 'm\n', 'µm', '_m', 'm_', 'Lena', 'lenA ', 'm/s', 'm**2', '%', 'in', 'IN', 'as', '', 'mm mm', 'N.m'):
        for form in ("x = pq.UnitQuantity(%r, 7*pq.m**7)", "x = pq.UnitQuantity('newU', 7*pq.m**7, symbol=%r)", "x = pq.UnitTime('newU', 7*pq.s, aliases=[%r])", "pq.unit_registry[%r] = pq.tesla"):
            def f(l, src):
                before = state()
                try:
                    W.run(src)
                except spec.PyRaise:
                    done('refused')
                after = state()
                for k in watch:
                    want('unit_registry[%r] after %s' % (k, src), after[k] is before[k], 'is another unit')
            S.add('similar label: ' + form % l, f, l, form % l)
    for bad in ('1', 'None', 'pq.m', "b'm'", '()', '2.5'):
        def f(bad):
            W.refuse('pq.unit_registry[%s] = pq.m' % bad, ('TypeError', 'KeyError', 'ValueError'))
            W.refuse('x = pq.UnitQuantity(%s, pq.m)' % bad, ('TypeError', 'KeyError', 'ValueError'))
        S.add('label %s' % bad, f, bad)
    for bad in ('1', 'pq.m', "b'm'", '2.5'):
        def f(bad):
            W.refuse("x = pq.UnitQuantity('newU', 7*pq.m, symbol=%s)" % bad, ('TypeError', 'KeyError', 'ValueError'))
            W.refuse("x = pq.UnitQuantity('newU', 7*pq.m, aliases=[%s])" % bad, ('TypeError', 'KeyError', 'ValueError'))
        S.add('symbol %s' % bad, f, bad)

    def same_unit():
        # a label may be registered again for its own unit
        for s in ("pq.unit_registry['m'] = pq.m", "pq.unit_registry['lenA'] = lenA"):
            W.do(s)
        want("unit_registry['m']", lookup('m') is objs['meter'], 'is another unit')
        W.do("pq.unit_registry['qL'] = pq.N")
        want("unit_registry['qL']", lookup('qL') is objs['newton'], 'is another unit')
        W.refuse("pq.unit_registry['qL'] = pq.J", CONFLICT)
        want("unit_registry['qL']", lookup('qL') is objs['newton'], 'is another unit')
    S.add('registered again', same_unit)

    # units that register nothing
    for src in ("x = pq.UnitConstant('m', 7*pq.s)", "x = pq.UnitConstant('newU', 7*pq.s, symbol='m', aliases=['s', 'kg'])", "x = pq.CompoundUnit('m/s')", "x = pq.CompoundUnit('m')",
                "x = 2*pq.m", "x = pq.Quantity(1, 'm')", "x = pq.UncertainQuantity(1, 'm', 1)"):
        def f(src):
            before = state()
            W.do(src)
            want(src, lookup('newU') is None, 'registered the label newU')
            after = state()
            for l in watch:
                want('unit_registry[%r] after %s' % (l, src), after[l] is before[l], 'is another unit')
        S.add('registers nothing: ' + src, f, src)

    # histories of registrations, against a map that never changes an entry
    names = ['qA', 'qB', 'qC', 'qD', 'm', 's', 'km', 'N']

    def history(seed, n):
        rnd = random.Random(seed)
        model = {l: lookup(l) for l in names + watch}
        size = {}
        text = []
        for i in range(n):
            k = rnd.choice([2, 3, 5])
            labels = rnd.sample(names, rnd.choice([1, 1, 2, 3]))
            cls, base = rnd.choice([('UnitLength', 'pq.m'), ('UnitQuantity', 'pq.N'), ('UnitTime', 'pq.s'), ('UnitQuantity', 'pq.m*pq.kg')])
            key = (base, k)
            src = 'x = pq.%s(%r, %d*%s%s%s)' % (cls, labels[0], k, base, ', symbol=%r' % labels[1] if len(labels) > 1 else '', ', aliases=[%r]' % labels[2] if len(labels) > 2 else '')
            text.append(src)
            clash = [l for l in labels if model[l] is not None and size.get(l) != key]
            try:
                x = W.run(src)['x']
            except spec.PyRaise as e:
                want('; '.join(text), clash and any(c.name in CONFLICT for c in e.exc.cls.mro), 'raised %s at %s' % (e.exc.cls.name, e.where))
                x = None
            else:
                want('; '.join(text), not clash, 'the label %s was taken' % (clash and clash[0]))
            for l in names:
                r = lookup(l)
                if model[l] is not None:
                    want('unit_registry[%r] after %s' % (l, '; '.join(text)), r is model[l], 'is no longer the unit registered first')
                elif x is not None and l in labels:
                    want('unit_registry[%r] after %s' % (l, '; '.join(text)), r is x, 'is not the unit just defined')
                elif l not in labels:
                    want('unit_registry[%r] after %s' % (l, '; '.join(text)), r is None, 'was registered by something else')
                if r is not None and model[l] is None:
                    model[l], size[l] = r, key
    for i in range(120 if thorough else 40):
        S.add('history %d' % i, history, i, 5)
    return S.items, {'coverage': {'labels': len(owner), 'units': len(REF)}}
