from .common import *

TITLE = 'products, quotients and powers carry the algebra of units'
LEVEL = 'other'
FLOOR = 600
EXPLAIN = ('abstract interpretation of the package over symbolic magnitudes, unit scales, exponents and array lengths: '
           'value, units, shape and refusals of a*b, a/b, a//b, a**p, their in-place and reflected forms, with '
           'quantities, units, numbers, arrays and lists as operands')

PAIRS = [('lenA', 'lenB'), ('lenA', 'timA'), ('lenA', 'lenA'), ('velA', 'timA'), ('frcA', 'masA*lenA/timA**2'),
         ('lenA**2', 'lenA**-2'), ('lenA**0.5', 'lenA**0.5'), ('ratA', 'ratB'), ('lenA', 'pq.dimensionless'),
         ('pq.dimensionless', 'lenA'), ('pq.dimensionless', 'pq.dimensionless'), ('lenA/timA', 'timA/lenA'),
         ('lenA**1.5/timA', 'lenA**0.5*timA'), ('pq.m', 'pq.km'), ('lenA', 'pq.percent'), ('ratA', 'lenA'),
         ('lenA*timA**-2', 'timA**2')] + TWIN_ALIKE + TWIN_UNLIKE
MORE = [('masA**3', 'masA**-1'), ('lenA*lenB', 'lenB*lenA'), ('frcA**0.5', 'frcA**1.5'), ('pq.radian', 'timA'),
        ('velA/lenA', 'timA**-1'), ('masA*velA**2', 'frcA*lenA')]



OPS = {'*': lambda x, y: T.mul(x, y), '/': lambda x, y: T.div(x, y), '//': lambda x, y: B.floordiv_t(x, y)}
SIGN = {'*': 1, '/': -1, '//': -1}


PAIRS = list(dict.fromkeys(PAIRS))
MORE = list(dict.fromkeys(MORE))

def build(root, tier):
    S = Suite(root)
    W = S.W
    pairs = PAIRS + (MORE if tier == 'thorough' else [])

    def check(what, op, r, ma, mb, da, db, shape=None):
        W.want_q(what, r)
        W.want_units(what, r, comb(da, db, SIGN[op]))
        W.want_mag(what, r, OPS[op](ma, mb))
        if shape is not None:
            want_shape(what, W.shape(r), shape)

    def binary(op, ua, ub, sa, sb, da='float64', db='float64'):
        a, b = operand(W, 'a', ua, shp(W, sa), da), operand(W, 'b', ub, shp(W, sb), db)
        ka, kb = W.snap(a), W.snap(b)
        what = '(%s) %s (%s)' % (ua, op, ub)
        r = W.ev('a %s b' % op, what, a=a, b=b)
        check(what, op, r, W.mag(a), W.mag(b), dims_of(ua), dims_of(ub), bshape(W, sa, sb))
        W.unchanged(what, ka, a, 'left operand')
        W.unchanged(what, kb, b, 'right operand')

    def inplace(op, ua, ub, sb=('n',)):
        a, b = operand(W, 'a', ua), operand(W, 'b', ub, shp(W, sb))
        kb = W.snap(b)
        ma, mb = W.mag(a), W.mag(b)
        what = '(%s) %s= (%s)' % (ua, op, ub)
        ns = W.do('x = a\nx %s= b' % op, what, a=a, b=b)
        want(what, ns['x'] is a, 'returned another object')
        check(what, op, a, ma, mb, dims_of(ua), dims_of(ub))
        W.unchanged(what, kb, b, 'right operand')

    for op in OPS:
        for ua, ub in pairs:
            S.add('(%s) %s (%s)' % (ua, op, ub), binary, op, ua, ub, ('n',), ('n',))
            S.add('(%s) %s= (%s)' % (ua, op, ub), inplace, op, ua, ub)
        for sa, sb in SHAPEPAIRS[1:]:
            S.add('(lenA) %s (timA) with shapes %s %s' % (op, sa, sb), binary, op, 'lenA', 'timA', sa, sb)
        for da, db in (('int64', 'float64'), ('float64', 'int64'), ('float32', 'float64'), ('int64', 'int64')):
            S.add('(lenA) %s (timA) with %s %s' % (op, da, db), binary, op, 'lenA', 'timA', ('n',), ('n',), da, db)
        S.add('(lenA) %s= (timA) with a scalar' % op, inplace, op, 'lenA', 'timA', ())

    # a unit as an operand
    def with_unit(op, src, ma, mb, da, db, cls='Quantity'):
        r = W.ev(src, a=operand(W, 'a', 'lenA'))
        W.want_q(src, r, cls)
        W.want_units(src, r, comb(da, db, SIGN[op]))
        W.want_mag(src, r, OPS[op](ma, mb))
        n = W.ev('lenB', a=None)
        W.want_units(src + ': the unit itself', n, dims_of('lenB'))
        W.want_mag(src + ': the unit itself', n, ONE)

    a = T.sym('a')
    for op in OPS:
        S.add('quantity %s unit' % op, with_unit, op, 'a %s lenB' % op, a, ONE, dims_of('lenA'), dims_of('lenB'))
        S.add('unit %s quantity' % op, with_unit, op, 'lenB %s a' % op, ONE, a, dims_of('lenB'), dims_of('lenA'))
        S.add('unit %s unit' % op, with_unit, op, 'lenB %s timA' % op, ONE, ONE, dims_of('lenB'), dims_of('timA'))
        S.add('unit %s the same unit' % op, with_unit, op, 'lenB %s lenB' % op, ONE, ONE, dims_of('lenB'), dims_of('lenB'))

    # numbers, arrays and lists
    kinds = {
        'float': lambda: (W.num('x'),) * 2,
        'positive float': lambda: (W.num('x', positive=True),) * 2,
        'int': lambda: (W.num('i', 'int'),) * 2,
        'array': lambda: (W.vec('v', W.dim('n')),) * 2,
        '0-d array': lambda: (W.arr('v'),) * 2,
        'int array': lambda: (W.arr('v', (W.dim('n'),), 'int64'),) * 2,
        'numpy scalar': lambda: (N.scalar(T.sym('x', True), spec.F8),) * 2,
        'matrix': lambda: (W.arr('v', (W.dim('k'), W.dim('n'))),) * 2,
    }

    def number(op, side, make, unit):
        n, ref = make()
        mn = W.mag(ref)
        if unit:
            q, mq, dq = W.ns['lenA'], ONE, dims_of('lenA')
        else:
            q = operand(W, 'a', 'lenA')
            mq, dq = W.mag(q), dims_of('lenA')
        kq = W.snap(q)
        if side == 'right':
            src = 'q %s n' % op
            r = W.ev(src, q=q, n=n)
            check(src, op, r, mq, mn, dq, {})
        else:
            src = 'n %s q' % op
            r = W.ev(src, q=q, n=n)
            check(src, op, r, mn, mq, {}, dq)
        W.unchanged(src, kq, q)

    for op in OPS:
        for k, make in kinds.items():
            for side in ('right', 'left'):
                S.add('%s on the %s of %s' % (k, side, op), number, op, side, make, False)
                S.add('%s on the %s of %s with a unit' % (k, side, op), number, op, side, make, True)

    def inplace_number(op, make):
        n, ref = make()
        q = operand(W, 'a', 'lenA')
        mq, mn = W.mag(q), W.mag(ref)
        ns = W.do('x = q\nx %s= n' % op, q=q, n=n)
        want('q %s= n' % op, ns['x'] is q, 'returned another object')
        check('q %s= n' % op, op, q, mq, mn, dims_of('lenA'), {})
    for op in OPS:
        for k in ('float', 'int', 'array', '0-d array', 'numpy scalar'):
            S.add('in place %s= with %s' % (op, k), inplace_number, op, kinds[k])

    # a list of numbers, and a list of quantities times a unit
    def lists(src, want_m, dims, shape):
        r = W.ev(src, **{'x%d' % i: W.num('x%d' % i) for i in range(4)})
        W.want_q(src, r)
        W.want_units(src, r, dims_of(dims))
        want_shape(src, W.shape(r), shape)
        for i, m in enumerate(want_m):
            e = W.ev('_q[%d]' % i, _q=r)
            W.want_mag(src + ' element %d' % i, e, m)
    xs = [T.sym('x%d' % i, True) for i in range(4)]
    S.add('list times unit', lists, '[x0, x1, x2] * lenA', xs[:3], 'lenA', (3,))
    S.add('unit times list', lists, 'lenA * [x0, x1, x2]', xs[:3], 'lenA', (3,))
    S.add('tuple times unit', lists, '(x0, x1, x2) * lenA', xs[:3], 'lenA', (3,))
    S.add('list over unit', lists, '[x0, x1, x2] / lenA', xs[:3], 'lenA**-1', (3,))

    # powers
    EXP = {'0': 0, '1': 1, '2': 2, '3': 3, '-1': -1, '-2': -2, '0.5': 0.5, '-0.5': -0.5, '1.5': 1.5, '2.0': 2.0,
           '0.0': 0, '1.0': 1, '1/3': 1 / 3., '-3': -3, '10': 10, '1e-10': 1e-10, '2**-20': 2.0**-20, '-0.001': -0.001, '0.25': 0.25}
    for n, k in EXP.items():
        for u in ('lenA', 'frcA', 'lenA/timA', 'lenA**0.5', 'ratA', 'pq.dimensionless', 'lenA**2'):
            def power(u, n, k, form):
                q = operand(W, 'a', u, positive=True)
                mq = W.mag(q)
                what = '(%s)**(%s) as %s' % (u, n, form)
                kq = W.snap(q)
                if form == 'in place':
                    ns = W.do('x = q\nx **= ' + n, what, q=q)
                    r = ns['x']
                    want(what, r is q, 'returned another object')
                else:
                    r = W.ev({'operator': 'q**(%s)', 'ufunc': 'np.power(q, %s)', 'pow()': 'pow(q, %s)'}[form] % n, what, q=q)
                    W.unchanged(what, kq, q)
                W.want_q(what, r)
                W.want_units(what, r, powd(dims_of(u), C(T.Fraction(k))))
                W.want_mag(what, r, T.power(mq, C(T.Fraction(k))))
            for form in ('operator', 'in place') + (('ufunc', 'pow()') if u == 'lenA' or tier == 'thorough' else ()):
                S.add('(%s)**(%s) as %s' % (u, n, form), power, u, n, k, form)

    def symbolic_power(form, make):
        q = operand(W, 'a', 'lenA/timA**2', positive=True)
        p, t = make()
        mq = W.mag(q)
        r = W.ev(form, q=q, p=p)
        W.want_q(form, r)
        W.want_units(form, r, powd(dims_of('lenA/timA**2'), t))
        W.want_mag(form, r, T.power(mq, t))
    x = T.sym('p', True)
    i = T.sym('i', True, False, True)
    pk = {'float': lambda: (W.num('p'), x), 'int': lambda: (W.num('i', 'int'), i),
          'numpy scalar': lambda: (N.scalar(x, spec.F8), x), '0-d array': lambda: (N.plain(x, (), spec.F8), x),
          'dimensionless quantity': lambda: (W.q(N.plain(x, (), spec.F8), 'pq.dimensionless'), x)}
    for k, make in pk.items():
        for form in ('q**p', 'np.power(q, p)', 'pow(q, p)'):
            S.add('%s with the exponent a %s' % (form, k), symbolic_power, form, make)

    def uniform_array(form):
        # an array of exponents: allowed when they are all the same
        q = operand(W, 'a', 'lenA', positive=True)
        p = W.vec('p', W.dim('n'))
        mp = W.mag(p)
        try:
            r = W.tryrun('_r = ' + form, q=q, p=p)['_r']
        except Raised as e:
            want(form, e.isa('ValueError'), 'raised %s' % e.name)
            return
        d = W.dims(r)
        want(form, len(d) <= 1 and all(T.is_scalar(paths.facts.norm(v)) for v in d.values()),
             'has the units %s for a non-uniform exponent' % spec.showdims(d))
        W.want_mag(form, r, T.power(W.mag(q), paths.facts.norm(mp)))
        for v in d.values():
            want_same(form + ': exponent of the units', v, paths.facts.norm(mp))
    for form in ('q**p', 'np.power(q, p)'):
        S.add('%s with an array of exponents' % form, uniform_array, form)

    def nonuniform(form, vals, u):
        form = form % ('np.array(%s)' % vals)
        q = operand(W, 'a', u, (2, 3) if vals.count('[') > 1 else (1 + vals.count(','),), positive=True)
        k = W.snap(q)
        W.refuse(form, ('ValueError',), form, q=q)
        W.unchanged(form, k, q)
    for vals in ('[1., 2.]', '[0., 2.]', '[2., 0.]', '[3., 2.]', '[2., 3., 2.]', '[2., 2., 3.]', '[3., 2., 2.]', '[1., 0., 1.]', '[-1., 1., 0.]', '[0.5, 1.5, 1.]',
                 '[2, 3, 2]', '[1, 2, 1, 2, 1]', '[[2., 2., 2.], [2., 3., 2.]]', '[[2., 2., 3.], [2., 2., 3.]]', '[[1., 1., 1.], [2., 2., 2.]]', '[1., 1.0000001]'):
        for form in ('_r = q**%s', '_r = np.power(q, %s)', 'q **= %s', '_r = pow(q, %s)'):
            for u in ('lenA',) if form[0] == 'q' else ('lenA', 'velA', 'ratA'):
                S.add('%s of %s refused' % (form % vals, u), nonuniform, form, vals, u)

    def unit_exponent(form, u):
        q = operand(W, 'a', 'lenA', positive=True)
        p = W.q(W.arr('p', positive=True), u)
        k = W.snap(q)
        W.refuse(form, ('ValueError', 'TypeError'), '%s with an exponent in %s' % (form, u), q=q, p=p, x=W.num('x', positive=True),
                 arr=W.vec('v', W.dim('n'), positive=True))
        W.unchanged(form, k, q)
    for u in ('lenA', 'timA**-1', 'ratA', 'pq.radian'):
        for form in ('_r = q**p', 'q **= p', '_r = np.power(q, p)', '_r = x**p', '_r = arr**p', '_r = np.power(x, p)', '_r = p**p',
                     '_r = lenA**p'):
            S.add('%s with an exponent in %s refused' % (form, u), unit_exponent, form, u)

    def number_to_dimensionless(src, make):
        p = W.q(W.arr('p'), 'pq.dimensionless')
        n = make()
        r = W.ev(src, n=n, p=p)
        want_dims(src, W.dims(r), {})
        W.want_mag(src, r, T.power(W.mag(n), W.mag(p)))
    for k, make in {'float': lambda: W.num('x', positive=True), 'array': lambda: W.arr('v', (W.dim('n'),), positive=True)}.items():
        for src in ('n**p', 'np.power(n, p)'):
            S.add('%s with a %s and a dimensionless quantity' % (src, k), number_to_dimensionless, src, make)

    # roots and squares spelled otherwise
    def spelled(src, k, u):
        q = operand(W, 'a', u, positive=True)
        mq = W.mag(q)
        r = W.ev(src, q=q)
        W.want_q(src, r)
        W.want_units(src, r, powd(dims_of(u), C(T.Fraction(k))))
        W.want_mag(src, r, T.power(mq, C(T.Fraction(k))))
    for u in ('lenA', 'frcA', 'lenA**2/timA'):
        for src, k in (('np.sqrt(q)', '1/2'), ('np.square(q)', 2), ('np.reciprocal(q)', -1), ('q*q', 2), ('1/q', -1), ('q*q*q', 3),
                       ('q/q/q', -1), ('np.sqrt(q*q)', 1), ('(q**3)**(1/3.)', 1)):
            S.add('%s of %s' % (src, u), spelled, src, k, u)

    # negation, absolute value
    def sign(src, f, u):
        q = operand(W, 'a', u)
        k = W.snap(q)
        r = W.ev(src, q=q)
        W.want_q(src, r)
        W.want_units(src, r, dims_of(u))
        W.want_mag(src, r, f(W.mag(q)))
        W.unchanged(src, k, q)
    for u in ('lenA', 'frcA', 'ratA'):
        S.add('-q of %s' % u, sign, '-q', T.neg, u)
        S.add('abs(q) of %s' % u, sign, 'abs(q)', lambda t: T.fn('abs', t), u)
        S.add('np.negative(q) of %s' % u, sign, 'np.negative(q)', T.neg, u)

    # ring laws at the level of units
    def law(src1, src2):
        q, p, r = operand(W, 'a', 'lenA'), operand(W, 'b', 'timA'), operand(W, 'c', 'lenB')
        x, y = W.ev(src1, q=q, p=p, r=r), W.ev(src2, q=q, p=p, r=r)
        want_dims(src1 + ' and ' + src2, W.dims(x), W.dims(y))
        want_same(src1 + ' and ' + src2, W.mag(x), W.mag(y))
    for s1, s2 in (('q*p', 'p*q'), ('(q*p)*r', 'q*(p*r)'), ('q/p*p', 'q'), ('q/(p*r)', 'q/p/r'), ('(q*p)**2', 'q**2*p**2'),
                   ('(q/p)**-1', 'p/q'), ('q**2*q**-2', 'q/q'), ('1/(1/q)', 'q'), ('q*(lenB/lenB)', 'q'),
                   ('-(q*p)', '(-q)*p'), ('(q**2)**3', 'q**6'), ('q*1', 'q'), ('q**1', 'q'), ('q*r*p/r', 'q*p')):
        S.add('%s equals %s' % (s1, s2), law, s1, s2)

    def distributive():
        q, p, r = operand(W, 'a', 'lenA'), operand(W, 'b', 'timA'), operand(W, 'c', 'timB')
        x, y = W.ev('q*(p + r)', q=q, p=p, r=r), W.ev('q*p + q*r', q=q, p=p, r=r)
        want_dims('distributivity', W.dims(x), W.dims(y))
        want_same('distributivity', W.mag(x), W.mag(y))
    S.add('distributivity', distributive)
    return S.items, {}
