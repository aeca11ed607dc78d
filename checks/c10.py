from .common import *

TITLE = 'copies and pickles are faithful and independent'
LEVEL = 'other'
FLOOR = 400
EXPLAIN = ('abstract interpretation with the alias domain: for every way of copying and every pickling round trip of quantities, '
           'uncertain quantities, units, constants and dimensionalities the result has the class, magnitude, units and uncertainty of the '
           'original, shares no data or unit state with it, and later in-place changes of either never reach the other')

COPIES = ['x.copy()', 'copy.copy(x)', 'copy.deepcopy(x)', 'pickle.loads(pickle.dumps(x))', 'pickle.loads(pickle.dumps(x, 2))', 'pickle.loads(pickle.dumps(x, protocol=pickle.HIGHEST_PROTOCOL))',
          'copy.deepcopy(copy.deepcopy(x))', 'pickle.loads(pickle.dumps(copy.deepcopy(x)))', 'x.copy().copy()', 'copy.deepcopy([x])[0]',
          "copy.deepcopy({'a': (1, x)})['a'][1]", 'pickle.loads(pickle.dumps([1, x]))[1]', 'copy.copy(copy.copy(x))', "x.copy('C')", 'copy.deepcopy(x.copy())',
          'copy.copy(pickle.loads(pickle.dumps(x)))', "x.copy(order='K')"]
NDCOPIES = ['np.copy(x, subok=True)', 'np.array(x, subok=True)', 'x.astype(float)', "x.astype('d')", 'x.astype(x.dtype)', 'x.astype(np.float64)', 'x.rescale(x.units)',
            'x.rescale(x.dimensionality)', 'x.rescale(x.dimensionality.string)']
VALUES = {
    'vector': ("pq.Quantity(a, lenA)", ('n',)), 'matrix': ("pq.Quantity(a, lenA)", ('n', 'k')), 'scalar': ("pq.Quantity(a, lenA)", ()), '1x1': ("pq.Quantity(a, frcA)", (1, 1)),
    'integers': ("pq.Quantity(a, lenA)", ('n',)), 'compound': ("pq.Quantity(a, lenA**0.5*timA**-2/masA)", ('n',)), 'dimensionless': ("pq.Quantity(a, pq.dimensionless)", ('n',)),
    'view': ("pq.Quantity(a, lenA)[1:]", ('n',)), 'transposed': ("pq.Quantity(a, lenA).T", ('n', 'k')), 'percent': ("pq.Quantity(a, pq.percent)", ('n',)),
    'element': ("pq.Quantity(a, lenA)[0]", ('n',)), 'compound unit': ("a*pq.CompoundUnit('m**2/m**3')", ('n',)), 'constants': ("a*pq.constants.natural_unit_of_velocity", ('n',)),
    'result': ('(a*lenA)*(2*timA)', ('n',)), 'other own unit': ("a*pq.UnitQuantity('ownC', 3*lenA/timA)", ('n',)), 'complex': ("pq.Quantity(a, lenA)", ('n',)),
    'many units': ("pq.Quantity(a, lenA**2*masA*timA**-3*pq.A**-1)", ('n',)), 'six units': ("a*lenA*lenB*timA*timB**-2*masA*pq.K", ('n',)),
    'uncertain, many units': ("pq.UncertainQuantity(a, lenA*masA*timA*pq.K, ua)", ('n',)),
    'uncertain': ("pq.UncertainQuantity(a, lenA, ua)", ('n',)), 'uncertain matrix': ("pq.UncertainQuantity(a, lenA/timA**2, ua)", ('n', 'k')),
    'uncertain scalar': ("pq.UncertainQuantity(a, frcA, ua)", ()), 'uncertain in other units': ("pq.UncertainQuantity(a, lenA, pq.Quantity(ua, lenB))", ('n',)),
    'uncertain result': ("pq.UncertainQuantity(a, lenA, ua)*timA", ('n',)), 'uncertain element': ("pq.UncertainQuantity(a, lenA, ua)[0]", ('n',)),
    'uncertain slice': ("pq.UncertainQuantity(a, lenA, ua)[1:]", ('n',)), 'exact uncertain': ("pq.UncertainQuantity(a, lenA)", ('n',))}
CHANGES = ['y *= 2', 'y[...] = 3*y', 'y.units = y.units*1', 'y += y', 'y -= y', 'y /= 2', 'y *= timA', 'y /= frcA', 'y **= 2', 'y.fill(7)', 'y.magnitude[...] = 5', 'y //= 2',
           'y.units = pq.Quantity(1.0, y.dimensionality)', 'y %= y', 'np.multiply(y, 2, out=y)', 'np.square(y, out=y)', 'd = y.dimensionality\nd *= timA.dimensionality',
           'y.units = U', 'y[0:1] = 4*y[0:1]', 'y.put(0, 2*U)', 'y.fill(3*timA)']
UCHANGES = ['y.uncertainty = y.uncertainty*3', 'y.uncertainty[...] = 2*y.uncertainty', 'y.uncertainty *= 2', 'e = y.uncertainty\ne += e', 'y.uncertainty.magnitude[...] = 9',
            'y.uncertainty.fill(3)', 'y.uncertainty.units = U', 'y.uncertainty = 0*y.uncertainty', 'y.units = U\ny.uncertainty *= 2']
UNIT_KINDS = ['pq.m', 'pq.km', 'pq.N', 'pq.percent', 'pq.dimensionless', 'pq.radian', "pq.CompoundUnit('m**2/m**3')", 'pq.constants.natural_unit_of_velocity',
              'pq.constants.proton_mass', 'lenA', 'frcA', "pq.UnitQuantity('own')", 'pq.byte', 'pq.degC', 'pq.mol', 'pq.cd', 'pq.ampere', "pq.UnitCurrency('own')",
              "pq.UnitQuantity('ownB', 2*lenA*timA, 'oB', 'öB', ['oBs', 'oBB'], doc='text')", "pq.UnitConstant('ownK', 3*frcA, symbol='oK')",
              "pq.UnitLength('ownL', 5*lenA, symbol='oL', aliases=['oLs'])", 'pq.degF', 'pq.l', 'pq.bit', 'pq.arcdegree', 'pq.constants.alpha_particle_mass',
              'pq.parsec', 'pq.electron_volt', 'pq.mg', "pq.UnitTemperature('ownT', 2*pq.K)", "pq.CompoundUnit('pc/cc')"]


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'

    def kit(**kw):
        return dict(kw, copy=W.I.import_module('copy'), pickle=W.I.import_module('pickle'))

    def make(name):
        src, sh = VALUES[name]
        s = shp(W, sh)
        dt = 'int64' if name == 'integers' else 'complex128' if name == 'complex' else 'float64'
        return W.ev(src, a=W.arr('a', s, dt), ua=W.arr('ua', s, positive=True))

    def faithful(name, code):
        x = make(name)
        before = W.snap(x)
        y = W.ev(code, 'x = %s; %s' % (VALUES[name][0], code), x=x, **kit())
        what = 'y = %s, x = %s' % (code, VALUES[name][0])
        now = W.snap(y)
        if 'float' in code or "'d'" in code:
            now.pop('dtype'), (now.get('unc') or {}).pop('dtype', None)
        b = dict(before)
        if 'dtype' not in now:
            b.pop('dtype')
            if 'unc' in b:
                b['unc'] = {k: v for k, v in b['unc'].items() if k != 'dtype'}
        d = spec.snapdiff(b, now)
        if d:
            fail(what, 'differs from the original: %s' % d)
        done('faithful')
        want(what, y is not x, 'is the original itself')
        if W.shape(x) != () or True:
            want(what, not N.shares(y, x) if hasattr(N, 'shares') else y.buf is not x.buf, 'shares data with the original')
        if x.cls.name == 'UncertainQuantity':
            want(what, W.unc(y).buf is not W.unc(x).buf, 'shares the uncertainty with the original')
        W.unchanged(what, before, x, 'original')

    def independent(name, code, change, which):
        x = make(name)
        y = W.ev(code, x=x, **kit())
        U = W.ev('pq.UnitQuantity("ownU", 3*x.units)', x=x)
        a, b = (y, x) if which else (x, y)      # a is changed, b has to stay
        before = W.snap(b)
        what = '%s; then %s of the %s' % (code, change.replace('\n', '; '), 'copy' if which else 'original')
        try:
            W.run(change, y=a, U=U)
        except spec.PyRaise:
            done('refused')
        W.unchanged(what, before, b, 'original' if which else 'copy')

    def usable(name, code):
        """what works in place on the original also works on the copy"""
        x = make(name)
        y = W.ev(code, x=x, **kit())
        for i, c in enumerate(('y *= 2', 'y[...] = 3*y', 'y.units = U', 'y *= timA', 'y += y')):
            W.do(c, '%s; %s' % (code, c), y=y, U=W.ev('pq.UnitQuantity("ownU%d", 3*x.units)' % i, x=y))

    for name in VALUES:
        unc = 'ncertain' in name
        for code in COPIES:
            S.add('%s of %s' % (code, name), faithful, name, code)
            for i, c in enumerate(CHANGES):
                for which in (0, 1):
                    if thorough or code in ('x.copy()', 'copy.deepcopy(x)', 'pickle.loads(pickle.dumps(x))') and (i + which + len(name)) % 7 == 0 or (i + which + len(code) + len(name)) % 29 == 0:
                        S.add('%s of %s; %s of the %s' % (code, name, c.replace('\n', '; '), 'copy' if which else 'original'), independent, name, code, c, which)
            for i, c in enumerate(UCHANGES if unc else ()):
                for which in (0, 1):
                    if thorough or code in ('x.copy()', 'copy.deepcopy(x)', 'copy.copy(x)', 'pickle.loads(pickle.dumps(x))') and (i + which + len(name)) % 2 == 0 or (i + which + len(code)) % 9 == 0:
                        S.add('%s of %s; %s of the %s' % (code, name, c.replace('\n', '; '), 'copy' if which else 'original'), independent, name, code, c, which)
            if code in COPIES[:6] and name in ('vector', 'scalar', 'view', 'uncertain', 'uncertain slice', 'result'):
                S.add('%s of %s can be changed' % (code, name), usable, name, code)
        for code in NDCOPIES:
            if unc and code.startswith('np.') or 'string' in code and ('own' in name or name in ('compound unit', 'constants')) or \
                    name in ('integers', 'complex') and 'float' in code + 'float' * ("'d'" in code):
                continue
            S.add('%s of %s' % (code, name), faithful, name, code)
            for i, c in enumerate(CHANGES):
                for which in (0, 1):
                    if thorough or (i + which + len(code) + len(name)) % 17 == 0:
                        S.add('%s of %s; %s of the %s' % (code, name, c.replace('\n', '; '), 'copy' if which else 'original'), independent, name, code, c, which)

    # several values copied together
    def together(code):
        x = W.q(W.arr('a', shp(W, ('n',))), 'lenA')
        y = W.uq(W.arr('b', shp(W, ('n',))), 'timA', W.arr('ub', shp(W, ('n',)), positive=True))
        bx, by = W.snap(x), W.snap(y)
        ns = W.do(code, x=x, y=y, **kit())
        for n, b in (('x', bx), ('y', by)):
            d = spec.snapdiff(b, W.snap(ns[n + '2']))
            if d:
                fail(code, 'the copy of %s differs: %s' % (n, d))
            done('faithful')
            before = W.snap(ns[n])
            W.do('c *= 2\nc *= frcA', c=ns[n + '2'])
            W.unchanged(code + '; changed copy of ' + n, before, ns[n], n)
            W.unchanged(code + '; changed copy of ' + n, {'x': by, 'y': bx}[n] if False else W.snap(ns['xy'.replace(n, '')]), ns['xy'.replace(n, '')])
    for code in ('x2, y2 = copy.deepcopy((x, y))', 'x2, y2 = pickle.loads(pickle.dumps((x, y)))', 'x2, y2 = copy.deepcopy([x, y])', 'x2, y2 = [copy.copy(z) for z in (x, y)]',
                 "d = copy.deepcopy({'x': x, 'y': y})\nx2 = d['x']; y2 = d['y']", "d = pickle.loads(pickle.dumps({'x': x, 'y': y}))\nx2 = d['x']; y2 = d['y']",
                 'y2, x2, z = copy.deepcopy((y, x, x))', 'class A: pass\na = A()\na.x = x\na.y = y\nb = copy.deepcopy(a)\nx2 = b.x; y2 = b.y'):
        S.add(code.replace('\n', '; '), together, code)

    # units, constants
    def unit(src, code):
        x = W.ev(src)
        before = unit_state(W, x)
        try:
            y = W.tryrun('y = ' + code, x=x, **kit())['y']
        except Raised as e:
            if 'order' in code or "'C'" in code:
                return
            fail('%s, x = %s' % (code, src), 'raised %s at %s' % (e.name, e.where))
        what = '%s, x = %s' % (code, src)
        d = spec.snapdiff(before, unit_state(W, y))
        if d:
            fail(what, 'differs from the unit: %s' % d)
        done('faithful')
        d = spec.snapdiff(before, unit_state(W, x))
        if d:
            fail(what, 'changed the unit: %s' % d)
        done('unchanged')
        for e in ('y == x', 'y.units == x.units', 'y.dimensionality == x.dimensionality', 'hash(y) == hash(x)', '(1*y).dimensionality == (1*x).dimensionality',
                  'y.dimensionality.string == x.dimensionality.string', '(y/x).dimensionality == pq.dimensionless.dimensionality', 'not (y != x)',
                  'hash(y.dimensionality) == hash(x.dimensionality)' if False else 'y.name == x.name'):
            r = W.ev(e, what + ': ' + e, x=x, y=y)
            want(what, B.truth(W.I, r) if hasattr(B, 'truth') else W.I.truth(r), '%s is not true' % e)
        q = W.ev('(2*y + 3*x)', what, x=x, y=y)
        W.want_units(what + ': 2*y + 3*x', q, W.dims(W.ev('1*x', x=x)))
        W.want_mag(what + ': 2*y + 3*x', q, C(5))
        q = W.ev('(3*y).rescale(x)', what, x=x, y=y)
        W.want_mag(what + ': (3*y).rescale(x)', q, C(3))

    for src in UNIT_KINDS:
        for code in COPIES:
            if 'order' in code or "'C'" in code:
                continue
            S.add('%s of %s' % (code, src), unit, src, code)

    def resolves(src, code):
        """copying does not change what the names of units mean"""
        labels = ('m', 'km', 'N', 'lenA', 'frcA', 'deg', 'radian', 'percent', 'dimensionless', 'B', 'cc', 'degC', 'meter', 'meters')
        before = [W.ev('pq.registry.unit_registry[%r]' % l) for l in labels]
        x = W.ev(src)
        W.do(code, x=x, **kit())
        for l, b in zip(labels, before):
            want('%s of %s' % (code, src), W.ev('pq.registry.unit_registry[%r]' % l) is b, 'made %r another unit' % l)
    for src in UNIT_KINDS:
        for code in ('x.copy()', 'copy.copy(x)', 'copy.deepcopy(x)', 'pickle.loads(pickle.dumps(x))', 'pickle.loads(pickle.dumps(3*x))'):
            S.add('labels after %s of %s' % (code, src), resolves, src, code)

    # dimensionalities
    def dimy(src, code):
        x = W.ev(src)
        before = W.snap(x)
        y = W.ev(code, x=x, **kit())
        what = '%s, x = %s' % (code, src)
        want(what, W.cls(y) == 'Dimensionality', 'is %s' % W.show(y))
        want_dims(what, W.dims(y), W.dims(x))
        for c in ('y *= timB.dimensionality', 'y **= 3', 'y /= lenB.dimensionality', 'y.clear()', 'y[timB] = 2'):
            y = W.ev(code, x=x, **kit())
            W.do(c, y=y)
            W.unchanged('%s; %s' % (what, c), before, x, 'original')
    for src in ('lenA.dimensionality', '(2*lenA/timA**2).dimensionality', 'pq.dimensionless.dimensionality', 'pq.N.dimensionality', '(lenA**0.5).dimensionality',
                'frcA.simplified.dimensionality'):
        for code in ('x.copy()', 'copy.copy(x)', 'copy.deepcopy(x)', 'pickle.loads(pickle.dumps(x))'):
            S.add('%s of %s' % (code, src), dimy, src, code)
    return S.items, {}
