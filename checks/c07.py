from .common import *

TITLE = 'units and physical constants are immutable'
LEVEL = 'other'
FLOOR = 300
EXPLAIN = ('abstract interpretation with an alias and effect domain: for every class of unit and every in-place operator, '
           'assignment, mutating method and output-array use, the operation raises and the unit has the magnitude, units, '
           'definition and conversion factor it had; values derived from a unit do not alias its state')

KINDS = [('pq.m', 'base unit'), ('pq.km', 'derived base-kind unit'), ('pq.N', 'compound derived unit'), ('pq.percent', 'scaled dimensionless'),
         ('pq.dimensionless', 'dimensionless'), ('pq.radian', 'undefined unit'), ("pq.CompoundUnit('m**2/m**3')", 'compound unit'),
         ('pq.constants.natural_unit_of_velocity', 'constant'), ('pq.constants.proton_mass', 'constant with a chain'), ('lenA', 'user-defined base-kind unit'),
         ('frcA', 'user-defined derived unit'), ("pq.UnitQuantity('own')", 'user-defined, undefined'), ('pq.byte', 'information'),
         ('pq.degC', 'temperature'), ('pq.mol', 'substance'), ('pq.cd', 'luminous intensity'), ('pq.ampere', 'current'),
         ("pq.UnitCurrency('own')", 'currency')]

INPLACE = ['+=', '-=', '*=', '/=', '//=', '**=', '%=']
OPERANDS = ['2', '2.5', 'pq.m', 'u', 'q', 'pq.Quantity(2, pq.dimensionless)', 'np.array(2.0)', '0']

MUTATORS = ['x[...] = 3', 'x[()] = 3', 'x[...] = q', 'x[()] = 3*u', 'x.fill(3)', 'x.fill(3*u)', 'x.put(0, 3)', 'x.put(0, 3*u)', 'x.put([0], 3*u)',
            'x.units = pq.km', "x.units = 'ft'", 'x.units = pq.s', 'x.units = u', 'x.units = pq.Quantity(1.0, u)',
            'x.magnitude[...] = 3', 'x.magnitude.fill(3)', 'm = x.magnitude\nm *= 2', 'm = x.magnitude\nm += 2',
            'm = x.magnitude\nnp.add(m, 1, out=m)', 'v = x.view(pq.Quantity)\nv *= 2', 'v = x.view(pq.Quantity)\nv += v',
            'v = x.view(pq.Quantity)\nv *= pq.s', 'v = x.view(pq.Quantity)\nv.units = pq.ft', 'v = x.view(pq.Quantity)\nv.fill(2)',
            'v = x.view(pq.Quantity)\nv[...] = 2*x', 'v = x.view(pq.Quantity)\nv **= 2', 'v = x.view(pq.Quantity)\nv /= 2',
            'v = x.view(pq.Quantity)\nv //= 2', 'v = x.view(pq.Quantity)\nv -= v', 'v = x.view(np.ndarray)\nv += 1',
            'np.add(2, 3, out=x)', 'np.multiply(q, q, out=x)', 'np.add(q, q, out=x)', 'np.multiply(q, 2, out=x)', 'np.sqrt(q, out=x)',
            'np.negative(x, out=x)', 'np.multiply(x, 2, out=x)', 'np.copyto(x, 3)', 'x.real = 3', 'x.real = 3*u',
            'q1.sum(out=x)', 'q1.mean(out=x)', 'q1.max(out=x)', 'q1.min(out=x)', 'q1.nansum(out=x)', 'x.round(out=x)', 'q1.prod(out=x)',
            'q1.std(out=x)', 'q1.var(out=x)', 'q1.ptp(out=x)', 'x.clip(x, x, out=x)', 'x += x', 'x *= x',
            'x.name = "other"', 'x.symbol = "other"', 'x.u_symbol = "other"', 'x.definition = 3*pq.s', 'x.format_order = (1, 2)',
            'x.magnitude = 3', 'x.simplified = 3', 'x.dimensionality = pq.s.dimensionality', 'x.dtype.name = 3']

# values derived from the unit, then changed in whatever way: the unit stays
DERIVED = {
    'x.definition': 'definition', '1*x': 'product', 'x*1': 'product', 'x.simplified': 'simplified', 'x.rescale(x)': 'rescaled',
    'pq.Quantity(1, x)': 'quantity', 'pq.Quantity(x)': 'converted', 'x**1': 'power', '+1*x': 'plus', 'x/1': 'quotient', '(1*x).units': 'units',
    'x.units': 'units of the unit', 'x.copy()': 'copy', 'copy.copy(x)': 'copied', 'copy.deepcopy(x)': 'deep copy', 'x + 0*x': 'sum',
    'abs(x)': 'absolute value', 'x.astype(float)': 'astype', '(1*x).copy()': 'copy of a quantity', 'x.real': 'real part',
    'pq.UncertainQuantity(1.0, x, 0.1)': 'uncertain', 'np.asanyarray(x)': 'asanyarray', 'x.squeeze()': 'squeezed', 'x.view(pq.Quantity)': 'view'}
CHANGES = ['d *= 2', 'd += d', 'd -= d', 'd /= 2', 'd *= pq.s', 'd /= pq.s', 'd **= 2', 'd.units = pq.ft', 'd.units = pq.s', 'd.fill(3)', 'd[...] = 3*d',
           'd[()] = 0*d', 'd.magnitude[...] = 7', 'd //= 2', 'd %= d', 'd.real = 5', 'd.put(0, 2*d)']
DIMS = ['d = x.dimensionality\nd *= pq.s.dimensionality', 'd = x.dimensionality\nd /= pq.s.dimensionality', 'd = x.dimensionality\nd **= 3',
        'd = x.dimensionality\nd.clear()', 'd = x.dimensionality\nd[pq.s] = 5', 'd = (1*x).dimensionality\nd *= pq.s.dimensionality',
        'd = x.dimensionality.copy()\nd **= 2', 'd = x.simplified.dimensionality\nd **= 2', 'd = x.dimensionality.simplified\nd **= 2',
        'd = x.dimensionality.simplified\nd *= pq.s.dimensionality', 'd = x.definition.dimensionality\nd **= 2']


def build(root, tier):
    S = Suite(root)
    W = S.W

    def state(x):
        """what the public interface says about a unit"""
        return unit_state(W, x)

    def check(what, x, before, idx=None):
        try:
            d = spec.snapdiff(before, state(x))
        except spec.PyRaise as e:
            d = 'it raises %s%s at %s' % (e.exc.cls.name, spec.short(e.exc.attrs.get('args')), e.where)
        if d:
            fail(what, 'changed the unit: %s' % d)
        done('unchanged')

    def unit(src):
        ns = W.do('x = ' + src)
        return ns['x']

    def kit(x):
        return dict(x=x, u=W.ns['lenA'], q=W.q(W.arr('q', ()), 'lenB'), q1=W.q(W.arr('v'), 'lenA'), copy=W.I.import_module('copy'))

    def mutate(src, code, must_raise=True):
        x = unit(src)
        kw = kit(x)
        before = state(x)
        try:
            ns = W.run(code, **kw)
        except spec.PyRaise as e:
            done('refused')
            check('%s with x = %s' % (code.replace('\n', '; '), src), x, before)
            return
        what = '%s with x = %s' % (code.replace('\n', '; '), src)
        check(what, x, before)
        if must_raise and ns['x'] is x:
            fail(what, 'was accepted')

    def pure(src, code):
        """whatever the fragment does, the unit is as before"""
        x = unit(src)
        kw = kit(x)
        before = state(x)
        try:
            W.run(code, **kw)
        except spec.PyRaise as e:
            done('refused')
        check('%s with x = %s' % (code.replace('\n', '; '), src), x, before)

    for i, (src, kind) in enumerate(KINDS):
        key = tier == 'thorough' or src in ('pq.km', 'frcA', 'pq.dimensionless')
        for op in INPLACE:
            for o in OPERANDS if key else OPERANDS[i % 2::3]:
                S.add('x %s %s, x = %s' % (op, o, src), mutate, src, 'x %s %s' % (op, o), op != '%=')
        for code in MUTATORS:
            # (0-d arrays of other values: what an operation without an effect does is its own business)
            S.add('%s, x = %s' % (code.replace('\n', '; '), src), mutate, src, code, code.startswith(('x[', 'x.fill', 'x.units', 'x.name', 'x.symbol')))
        for k, d in enumerate(DERIVED):
            for c in CHANGES if key else CHANGES[(i + k) % 6::6]:
                S.add('d = %s; %s, x = %s' % (d, c, src), pure, src, 'd = %s\n%s' % (d, c))
        for c in DIMS:
            S.add('%s, x = %s' % (c.replace('\n', '; '), src), pure, src, c)

    # the object a unit was defined from
    def origin(defn, change):
        d = W.ev(defn)
        sd = W.snap(d)
        x = W.do('x = pq.UnitQuantity("ownB", d)', d=d)['x']
        W.unchanged('x = UnitQuantity(…, %s)' % defn, sd, d, 'the quantity')
        ns = {'x': x, 'd': d}
        before = state(x)
        try:
            W.run(change, d=ns['d'])
        except spec.PyRaise:
            done('refused')
        check('x = UnitQuantity(…, d); %s' % change, x, before)
    for defn in ('1000*lenA', 'lenA*timA', '2.0*frcA', 'pq.Quantity(3.0, lenA)', 'pq.UncertainQuantity(2.0, pq.m, 0.1)'):
        for c in ('d *= 2', 'd.units = pq.ft', 'd.fill(7)', 'd[...] = 3*d', 'd **= 2', 'd /= pq.s', 'd.magnitude[...] = 4'):
            S.add('defined from d = %s; %s' % (defn, c), origin, defn, c)

    # ordinary use does not change units either
    def use(code):
        names = ('lenA', 'lenB', 'timA', 'frcA', 'velA', 'ratA')
        before = {n: state(W.ns[n]) for n in names}
        kw = kit(W.ns['lenA'])
        kw['pickle'] = W.I.import_module('pickle')
        try:
            W.run(code, **kw)
        except spec.PyRaise:
            done('refused')
        for n in names:
            check(code, W.ns[n], before[n])
    for code in ('a = 3*lenA + 2*lenB', 'a = 3*lenA\na += lenB', 'a = q1 * timA\na.units = lenB*timA', 'a = 2*frcA\na.units = pq.N',
                 'a = (3*frcA).simplified\na *= 2', 'a = q1.copy()\na *= timA', 'a = q1.copy()\na /= velA\na **= 2', 'a = lenA.rescale(lenB)\na *= 3',
                 'a = lenA*timA\na.fill(3)', 'a = lenA/timA\na.units = velA', 'a = 5*lenA\na.units = lenB\na.units = pq.m', 'pickle.loads(pickle.dumps(lenA))',
                 'a = pickle.loads(pickle.dumps(3*frcA))\na *= 2', 'a = lenA.copy()', 'a = copy.deepcopy(frcA)', 'lenA == lenB, lenA < lenB, lenA != timA',
                 'str(lenA), repr(frcA), lenA.dimensionality.string', 'a = lenA.simplified\na += pq.m', 'np.sqrt(lenA)', 'np.sqrt(q1*lenA, out=q1)',
                 'a = q1\na *= lenA\na += lenA*lenB', 'a = lenA % lenB', 'a = lenA.reshape(())', 'a = np.add(lenA, lenA)\na *= 2'):
        S.add('using units: %s' % code.replace('\n', '; '), use, code)
    return S.items, {}
