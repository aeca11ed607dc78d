import ast
import random

from .common import *
from .units_ref import UNITS as REF

TITLE = 'unit strings mean the arithmetic they spell and never run code'
LEVEL = 'other'
FLOOR = 400
EXPLAIN = ('abstract interpretation of the registry and of every place that accepts unit text: each registered label alone, products, '
           'quotients and powers generated from the grammar of unit text in all its spellings against an independent reading of them, and '
           'one or more witnesses of every kind of Python expression node, of unknown names, of builtins and of numerical factors, which '
           'have to be refused')

# every kind of expression that is not unit arithmetic, with a unit inside where one fits
KINDS = {
    'Call': ['abs(m)', 'm()', 'print(m)', "__import__('os')", "eval('m')", 'm(s)', 'str(m)', 'type(m)', 'm*f(s)', "open('x')", 'm**abs(2)', '(m)(s)', 'exit()', "exec('x=1')"],
    'Attribute': ['m.__class__', '().__class__', 'm._dimensionality', 'm.magnitude', "m.__class__.__mro__", '(m).units', 'meter.simplified.x_', "''.join", '1 .real*m', 'm*s.__doc__', '(m*s).shape',
                  'm**(2).real', 'm.__reduce__', 'm.dimensionality.__x'],
    'Subscript': ['m[0]', "m['a']", 'm[...]', '(m*s)[0]', 'm[0:1]', '(m,)[0]', '[m][0]', '{0: m}[0]', 'm*s[()]'],
    'Lambda': ['lambda: m', '(lambda: m)()', 'lambda x: x*m'],
    'IfExp': ['m if s else g', 'm if True else s', '(m if 1 else s)*g'],
    'BoolOp': ['m and s', 'm or s', '1 and m', 'None or m', '(m or s)*g'],
    'Compare': ['m<s', 'm==m', 'm is m', 'm not in s', '1<2', 'm*(1==1)', 'm != s'],
    'List': ['[m]', '[]', '[m, s]', 'm*[1]'], 'Tuple': ['(m, s)', 'm, s', '()', 'm,', '(m,)'], 'Set': ['{m}', '{1}'], 'Dict': ['{}', '{m: 1}', "{'a': m}"],
    'ListComp': ['[m for m in (1,)]', '[x for x in [m]]'], 'SetComp': ['{x for x in (1,)}'], 'DictComp': ['{x: x for x in (1,)}'], 'GeneratorExp': ['(x for x in (m,))'],
    'NamedExpr': ['(x := m)', '(m := s)', '(m := s)*m'], 'JoinedStr': ["f'm'", "f'{m}'", "f''"], 'Await': ['await m'], 'Yield': ['(yield)', '(yield m)'], 'YieldFrom': ['(yield from m)'],
    'Starred': ['*m', '(*m,)', '[*m]'], 'Slice': ['m[1:2]', 'm[::2]'],
}
SYNTAX = ['m;s', 'm s', 'k m', 'm m', 'h our', 'da y*s', 'm/m s', 'c m**2', '*m', 'm*', 'm**', '/s', 'm)', '(m', 'm = s', 'import os', 'del m', 'm\n s', 'pass', 'm*\ns', 'x y', '$', 'm$', '?', 'm!', 'm//', 'm ** ** 2', '..', 'm..s', '.m', 'm.', "'m", 'm=s',
          'return m', 'def f(): pass', 'm:s', 'm->s', 'm*@s', '@m', 'm s**2', '2 m', 'raise m', 'assert m', 'global m', 'm *= 2', 'm += s', '\\m', 'm#', 'if m: s', 'class m: pass']
SYNTAX = [s for s in SYNTAX if s not in ('m#',)]
BUILTINS = ['abs', 'print', 'open', 'eval', 'exec', 'len', 'object', 'type', 'int', 'float', 'str', 'dict', 'globals', 'vars', 'getattr', 'compile', 'input', 'id', 'super', 'property', 'Exception',
            'NotImplemented', '__debug__', '__import__', '__name__', '__doc__', '__file__', 'self', 'string', 'tree', 'valid', 'ast', 're', 'UnitRegistry', 'unit_registry', 'label', 'node',
            'np', 'pq', 'os', 'sys', '_', '__', 'Quantity', 'item', 'copy', 'context', '__context', 'whitelist']
BUILTINS = [b for b in BUILTINS if b != '__debug__']
UNKNOWN = ['IN/s', 'm/IN', 'iN**2', 'In*s', 'KM', 'DEG', 'INCH', 'Inch', 'METER', 'Meter', 'KG', 'Rad', 'Radian', 'Sec', 'HZ', 'hz', 'NEWTON', 'Hertz', 'LB', 'Ft', 'FT*s', 'KG*m', 'm/SEC', 'foo', 'xyz_', 'metr', 'm_', 'Meter_', 'km2', 'kgs_', 'furlongz', 'mm_', 'µfoo', 'éa', 'foo*m', 'm*foo', 'm/foo', 'm**foo', 'foo**2', '(foo)', 'm*(s/foo)', 'foo/foo', 'Xm', '-foo', 'm·foo', 'm.foo', 'foo.m',
           'foo^2', 'foo**0', 'm**(foo/foo)', '%foo', 'm%', 'm%s', '%%', 'm*%%']
FACTORS = ['2*m', 'm*2', 'm/2', '2/m', '1.5*m', '0.5*s', '1000*g', 'm*1e3', 'm+m', 'm-m', '-m', '0*m', '3', '0', '2', '2.0', '-1', '10**3*m', 'm*2**2', '(2*m)**2', 'm/3*2', '1e-3*kg', 'm+m+m',
           'm*10', '100*cm', 'm*(1+1)', 'm - 2*m', '2*m*s', 'm*s*2', 'm/s*2', '(m+m)*s', 'm*(-1)', '0.001*km', '1_0*m', '0x2*m', '0b11*m', '1e400*m', '-m*s', 'm/(2*s)', '2**m', 'm**s', 'm^s', 'm**m',
           'm+1', '1+m', 'm-1', 'm+s', 'm-s', 'm*s+kg', 'm**(1*s)', '(m/km)*m+m', 'm*0.1', 'm/10', '2j*m', '1j', 'm//2', '5%', '12', '1.0', '1', 'True', 'None', '...', 'Ellipsis', 'False', "'m'", "b'm'",
           "'a'", '~m', 'm|s', 'm&s', 'm<<2', 'm>>1', 'm@s', 'not m', "m*'a'", "'m'*2", "'m'+'m'", 'm*None', 'm**None', "m**'2'", 'm*...', "m+'s'", 'm**2 + m**2', '1/1', '2/2', '1*1', '1**2', 'm/0',
           'm*m - m*m', 'percent*2', '2*percent', '3*dimensionless', 'dimensionless+dimensionless', 'rad+rad']

LABELS = {}
for u in REF:
    for l in (u[0],) + ((u[2],) if u[2] else ()) + u[4]:
        LABELS[l] = u


class Tree:
    """unit text generated from its grammar, with the meaning it is to have"""
    def __init__(self, rnd, depth, pool):
        self.r = rnd
        self.pool = pool
        self.text, self.dims, self.level = self.make(depth)

    def unit(self):
        l = self.r.choice(self.pool)
        return l, {LABELS[l][0]: C(1)}, 3

    def make(self, d):
        # level: 3 atom, 2 power, 1 product
        k = self.r.random()
        if d <= 0 or k < 0.12:
            return self.unit()
        if k < 0.4:
            t, dm, lv = self.make(d - 1)
            if lv < 3:
                t = '(%s)' % t
            e, v = self.r.choice([('2', 2), ('3', 3), ('-1', -1), ('-2', -2), ('0.5', '1/2'), ('(1/2)', '1/2'), ('(-1)', -1), ('1', 1), ('(3/2)', '3/2'), ('1.5', '3/2'), ('-0.5', '-1/2'), ('2.0', 2),
                                  ('(2)', 2), ('(-3/2)', '-3/2'), ('4', 4), ('-3', -3), ('+2', 2), ('(1/4)', '1/4'), ('.5', '1/2'), ('(2*1)', 2), ('(1+1)', 2), ('(3-1)', 2), ('1e0', 1)])
            op = self.r.choice(['**', '**', '^', ' ** ', ' ^ '])
            return t + op + e, powd(dm, C(T.Fraction(v))), 2
        if k < 0.45:
            t, dm, lv = self.make(d - 1)
            return '(%s)' % t, dm, 3
        if k < 0.52:
            t, dm, lv = self.make(d - 1)
            return '1/' + (t if lv >= 2 else '(%s)' % t), powd(dm, C(-1)), 1
        a, da, la = self.make(d - 1)
        b, db, lb = self.make(d - 1)
        div = self.r.random() < 0.45
        if lb < 2:
            b = '(%s)' % b
        op = self.r.choice(['/', ' / ']) if div else self.r.choice(['*', '*', '·', ' * ', '·'])
        if not div and op == '*' and a[-1:].isalpha() and b[:1].isalpha() and a[-1:].isascii() and b[:1].isascii() and self.r.random() < 0.5:
            op = '.'
        return a + op + b, comb(da, db, -1 if div else 1), 1


ACCEPTS = {      # places that take unit text; the unit map of _r is the one of the text
    'Quantity': '_r = pq.Quantity(a, s)', 'Quantity keyword': '_r = pq.Quantity(a, units=s)', 'Quantity of a quantity': '_r = pq.Quantity(pq.Quantity(a, s), s)',
    'UncertainQuantity': '_r = pq.UncertainQuantity(a, s, ua)', 'unit_registry': '_r = a*pq.unit_registry[s]', 'uncertainty units': '_r = pq.UncertainQuantity(a, s, pq.Quantity(ua, s)).uncertainty',
    'rescale': '_r = pq.Quantity(a, s).rescale(s)', 'units setter': '_r = pq.Quantity(a, s)\n_r.units = s', 'rescale of its power': '_r = (pq.Quantity(a, s)**2/pq.Quantity(1.0, s)).rescale(s)',
    'definition of a unit': "_r = (a*pq.UnitQuantity('ownX', 1.0*pq.unit_registry[s])).rescale(s)", 'dimensionality': '_r = pq.Quantity(a, pq.Quantity(1, s).dimensionality)'}


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'

    def kit():
        return dict(a=W.vec('a', W.dim('n')), ua=W.vec('ua', W.dim('n'), positive=True))

    # ---- every label
    def label(u):
        x = W.I.getattr(W.I.import_module('quantities.units.' + u[9]), u[5][0])
        for l in (u[0],) + ((u[2],) if u[2] else ()) + u[4]:
            if not l.replace('_', 'a').isalnum() and l != '%':
                # (a label that is an expression itself: the same physical unit)
                f1, f2 = W.ev('pq.Quantity(1.0, l).simplified', l=l), W.ev('(1.0*x).simplified', x=x)
                want_dims('pq.Quantity(1, %r).simplified' % l, W.dims(f1), W.dims(f2))
                want_same('pq.Quantity(1, %r).simplified' % l, T.mul(W.mag(f1), T.inv(W.mag(f2))), ONE)
                continue
            r = W.ev('pq.unit_registry[l]', 'pq.unit_registry[%r]' % l, l=l)
            want('pq.unit_registry[%r]' % l, r is x, 'is %s instead of the unit %s' % (W.show(r), u[0]))
            q = W.ev('pq.Quantity(a, l)', 'pq.Quantity(a, %r)' % l, l=l, **kit())
            W.want_units('pq.Quantity(a, %r)' % l, q, {} if u[0] == 'dimensionless' else {u[0]: ONE})
            want_same('pq.Quantity(a, %r)' % l, W.mag(q), T.sym('a'))
    for u in REF:
        S.add('labels of %s' % u[0], label, u)

    # ---- grammar
    known = [l for l, u in LABELS.items() if l.isidentifier() and u[0] not in ('dimensionless',) and l not in ('in', 'as')]

    def spelled(text, dims, names):
        for n in names:
            src = ACCEPTS[n]
            what = src.replace('\n', '; ') + ' with s = %r' % text
            r = W.do(src, what, s=text, **kit())['_r']
            if 'definition' in n:
                f, _ = W.si(W.ev('x.simplified', x=r)), None
                g = W.ev('pq.Quantity(a, s).simplified', s=text, **kit())
                want_same(what, T.mul(W.mag(W.ev('x.simplified', x=r)), ONE), W.mag(g))
                continue
            W.want_units(what, r, dims)
            want_same(what, W.mag(r), T.sym('ua', False, True) if n == 'uncertainty units' else T.power(T.sym('a'), C(2)) if 'power' in n else T.sym('a'))
    rnd = random.Random(12)
    seen = set()
    n = 0
    common = ['m', 's', 'kg', 'km', 'g', 'N', 'V', 'mm', 'hour', 'K', 'mol', 'ohm', 'ft', 'Hz', 'J', 'percent', 'A', 'minute', 'W']
    keys = list(ACCEPTS)
    while n < (900 if thorough else 320):
        t = Tree(rnd, rnd.choice([1, 2, 2, 3, 3, 4]), known if rnd.random() < 0.5 else common)
        if t.text in seen or len(t.text) > 90:
            continue
        try:
            compile(t.text.replace('^', '**').replace('·', '*').replace('.', '*'), '', 'eval')
        except SyntaxError:
            continue
        seen.add(t.text)
        n += 1
        S.add('text %r' % t.text, spelled, t.text, t.dims, keys if n % 16 == 0 or thorough else ['Quantity', keys[n % len(keys)]])
    for text, dims in (('', {}), ('m.s', {'meter': 1, 'second': 1}), ('kg.m.s', {'kilogram': 1, 'meter': 1, 'second': 1}), ('m.s.m.s', {'meter': 2, 'second': 2}), ('kg.m/s.K', None),
                       ('%', {'percent': 1}), ('%/s', {'percent': 1, 'second': -1}), ('m*%', {'meter': 1, 'percent': 1}), ('%**2', {'percent': 2}), ('%·m', {'percent': 1, 'meter': 1}),
                       ('%*%', {'percent': 2}), ('m*%/%', {'meter': 1}), ('%*m*%', {'percent': 2, 'meter': 1}), ('s/%/%', {'second': 1, 'percent': -2}), ('%·%·%', {'percent': 3}), ('%^2·%', {'percent': 3}),
                       ('in*m*in', {'inch': 2, 'meter': 1}), ('in·in', {'inch': 2}), ('as*s/as', {'second': 1}), ('m^2*s^3', {'meter': 2, 'second': 3}), ('m^2·m^2', {'meter': 4}), ('(in)', {'inch': 1}),
                       ('1/in/in', {'inch': -2}), ('in/as', {'inch': 1, 'attosecond': -1}),
                       ('in', {'inch': 1}), ('in**2', {'inch': 2}), ('lbf/in**2', {'pound_force': 1, 'inch': -2}), ('as', {'attosecond': 1}), ('1/as', {'attosecond': -1}),
                       ('in·as', {'inch': 1, 'attosecond': 1}), ('in^3/min', {'inch': 3, 'minute': -1}), ('min*in', {'minute': 1, 'inch': 1}), ('m^2', {'meter': 2}), ('m^-1', {'meter': -1}),
                       ('m^(1/2)', {'meter': '1/2'}), ('m^2·s^-2', {'meter': 2, 'second': -2}), ('m·s·kg', {'meter': 1, 'second': 1, 'kilogram': 1}), ('m/s/s', {'meter': 1, 'second': -2}),
                       ('m/s*s', {'meter': 1}), ('m/(s*s)', {'meter': 1, 'second': -2}), ('m**2**2', {'meter': 4}), ('(m**2)**2', {'meter': 4}), ('(m/s)**2', {'meter': 2, 'second': -2}),
                       ('1/s', {'second': -1}), ('1/(m*s)', {'meter': -1, 'second': -1}), ('m/m', {}), ('m**0', {}), ('(m)', {'meter': 1}), ('((m))/((s))', {'meter': 1, 'second': -1}),
                       ('m ', {'meter': 1}), ('m * s', {'meter': 1, 'second': 1}), ('dimensionless', {}), ('dimensionless*m', {'meter': 1}), ('m**-1*s**-1', {'meter': -1, 'second': -1}),
                       ('m**+2', {'meter': 2}), ('m**-2', {'meter': -2}), ('m**0.5', {'meter': '1/2'}), ('km/m', {'kilometer': 1, 'meter': -1}), ('m/s**2', {'meter': 1, 'second': -2}),
                       ('kg*m**2/s**2', {'kilogram': 1, 'meter': 2, 'second': -2}), ('kg*m**2/(s**3*A)', {'kilogram': 1, 'meter': 2, 'second': -3, 'ampere': -1}), ('m**(2/2)', {'meter': 1}),
                       ('m**--2', {'meter': 2}), ('(m·s)^2', {'meter': 2, 'second': 2}), ('rad', {'radian': 1}), ('degC', {'Celsius': 1}), ('inch', {'inch': 1}), ('m**(1.0/3)', {'meter': '1/3'}),
                       ('N.m', {'newton': 1, 'meter': 1}), ('J.s.m', {'joule': 1, 'second': 1, 'meter': 1}), ('newton.meter.second', {'newton': 1, 'meter': 1, 'second': 1}),
                       ('kPa', {'kilopascal': 1}), ('m2', None), ('s.m', {'second': 1, 'meter': 1}), ('h', {'hour': 1}), ('d', {'day': 1}), ('pt', {'US_liquid_pint': 1}), ('min', {'minute': 1})):
        if dims is not None:
            S.add('text %r in all places' % text, spelled, text, {k: C(T.Fraction(v)) for k, v in dims.items()}, keys)

    # ---- the registry itself: products and powers are magnitudes of one
    def one(text):
        r = W.ev('pq.unit_registry[s]', s=text)
        want('pq.unit_registry[%r]' % text, W.isq(r), 'is %s' % W.show(r))
        want_same('pq.unit_registry[%r]' % text, W.mag(r), ONE)
    for t in sorted(seen)[:60]:
        S.add('registry: %r' % t, one, t)

    # what was made of a text before does not change what it means
    def again(text, dims, how):
        a = W.arr('a', (W.dim('n'),))
        what = 'r = pq.unit_registry[%r]; %s' % (text, how)
        try:
            W.run('r = pq.unit_registry[s]\n' + how, s=text)
        except spec.PyRaise:
            pass        # refused, or half done: the text means what it means
        r = W.ev('pq.unit_registry[s]', s=text)
        want_same(what + ', then pq.unit_registry[%r]' % text, W.mag(r), ONE)
        W.want_units(what + ', then pq.unit_registry[%r]' % text, r, dims_of(dims))
        r = W.ev('pq.Quantity(a, s)', a=a, s=text)
        W.want_units(what + ', then pq.Quantity(a, %r)' % text, r, dims_of(dims))
        W.want_mag(what + ', then pq.Quantity(a, %r)' % text, r, T.sym('a'))
    for text, dims in (('m/s', 'pq.m/pq.s'), ('kg*m**2', 'pq.kg*pq.m**2'), ('km', 'pq.km'), ('kg*m/s', 'pq.kg*pq.m/pq.s'), ('m^2', 'pq.m**2'), ('g/s**2', 'pq.g*pq.s**-2'), ('1/s', 'pq.s**-1')):
        for how in ('r *= 3', 'r /= 7', 'r += r', 'r[...] = 5', 'r.magnitude[...] = 5', 'r *= pq.s', 'r.units = "cm*g"', 'r.units = (r.dimensionality*pq.km.dimensionality/pq.m.dimensionality)', 'r **= 2', 'r.fill(4)',
                    'd = r.dimensionality; d *= pq.s.dimensionality', 'd = r.dimensionality; d.clear()', 'x = pq.Quantity(np.ones(3), r); x.units = pq.cm*r/pq.m',
                    'x = pq.CompoundUnit(s); x2 = 3*x; x2 *= 5; y = x.definition; y *= 2', 'x = pq.Quantity(2.0, s); x *= 3; x.units = (x.units*pq.km/pq.m).dimensionality'):
            S.add('%r again after %s' % (text, how), again, text, dims, how)

    # ---- refusals
    def refused(text, places):
        for n in places:
            src = {'Quantity': '_r = pq.Quantity(1.0, s)', 'array': '_r = pq.Quantity(a, s)', 'rescale': '_r = q.rescale(s)', 'units setter': 'q.units = s', 'uncertain': '_r = pq.UncertainQuantity(a, s, ua)',
                   'registry': '_r = pq.unit_registry[s]', 'keyword': '_r = pq.Quantity([1, 2], units=s)', 'same units': '_r = pq.Quantity(q, s)', 'compound': '_r = pq.CompoundUnit(s)',
                   'compound simplified': '_r = pq.CompoundUnit(s).simplified'}[n]
            q = W.q(W.vec('a', W.dim('n')), 'lenA')
            k = W.snap(q)
            what = src + ' with s = %r' % text
            W.refuse(src, ('Exception',), what, s=text, q=q, **kit())
            W.unchanged(what, k, q)
    PL = ['Quantity', 'array', 'rescale', 'units setter', 'uncertain', 'keyword', 'same units']
    i = 0
    covered = set()
    for kind, texts in KINDS.items():
        for t in texts:
            i += 1
            for node in ast.walk(ast.parse(t, mode='eval')) if kind not in ('Starred',) else ():
                covered.add(type(node).__name__)
            S.add('%s: %r is refused' % (kind, t), refused, t, PL + ['registry', 'compound simplified'] if thorough or i % 8 == 0 else ['Quantity', 'registry', PL[i % len(PL)]])
    exprs = {c.__name__ for c in ast.expr.__subclasses__()} - {'BinOp', 'UnaryOp', 'Constant', 'Name', 'Starred', 'Slice', 'FormattedValue', 'TemplateStr', 'Interpolation'}
    missing = exprs - covered - {'Num', 'Str', 'Bytes', 'NameConstant', 'Ellipsis'}
    for group, texts, where in (('syntax', SYNTAX, ['registry', 'compound simplified']), ('builtin', BUILTINS, ['registry']), ('unknown', UNKNOWN, ['registry', 'compound simplified']), ('factor', FACTORS, [])):
        for t in texts:
            i += 1
            S.add('%s %r is refused' % (group, t), refused, t, PL + where if thorough or i % 8 == 0 else where + ['Quantity', PL[i % len(PL)]])

    # ---- text has no lasting effect
    def effect(text):
        before = W.snap(W.ev('pq.Quantity(1.0, "m")'))
        try:
            W.run('_r = pq.Quantity(1.0, s)', s=text)
        except spec.PyRaise:
            pass
        r = W.ev('pq.Quantity(1.0, "m")')
        want_same('pq.Quantity(1, "m") after %r' % text, W.mag(r), ONE)
        W.want_units('pq.Quantity(1, "m") after %r' % text, r, {'meter': ONE})
        r = W.ev('pq.Quantity(1.0, "s/m").simplified')
        W.want_units('pq.Quantity(1, "s/m") after %r' % text, r, {'meter': C(-1), 'second': ONE})
        W.refuse('pq.Quantity(1.0, "x")', what='pq.Quantity(1.0, "x") after %r' % text)
    for t in ('(m := s)', '(x := m)', '(x := m)*s', 'foo', '2*m', '[x for x in [m]]', 'm.x', 'm*x', '', 'x'):
        S.add('no effect of %r' % t, effect, t)
    return S.items, {'kinds of expression with a witness': sorted(covered), 'kinds without': sorted(missing)}
