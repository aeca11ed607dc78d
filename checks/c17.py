from .common import *

TITLE = 'trigonometric and hyperbolic helpers convert angles and check units'
LEVEL = 'other'
FLOOR = 350
EXPLAIN = ('abstract interpretation of the helper functions of the package over symbolic magnitudes in angular and scaled dimensionless units '
           'with symbolic factors: value, units, type of the result, refusal of other dimensions, operands unchanged')

TRIG = ('sin', 'cos', 'tan')
INV = ('arcsin', 'arccos', 'arctan')
HYP = ('sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh')
ANGLES = ('pq.radian', 'pq.degree', 'angA')
PURE = ('pq.dimensionless', 'ratA', 'pq.percent', 'lenA/lenB', 'ratA*ratB', 'velA*timB/lenA', 'lenA**0.5*lenB**-0.5', 'ratA**-1')
BAD = ('lenA', 'timA', 'lenA**2/lenB', 'timA**-1', 'ratA*lenA', 'pq.degree/timA', 'frcA', 'pq.m', 'pq.K', 'masA**-1')
UNITS.update({'angA': {'angA': 1}, 'pq.arcminute': {'arcminute': 1}, 'pq.turn': {'turn': 1}, 'pq.K': {'Kelvin': 1}})


def build(root, tier):
    S = Suite(root)
    W = S.W
    W.ns['angA'] = W.run("angA = pq.UnitQuantity('angA', rK*pq.radian)", rK=SNum(W.r['K'], 'float'))['angA']
    W.units['angA'] = (W.r['K'], {})
    W.units['arcminute'] = (T.mul(PI, C('1/10800')), {})
    W.units['turn'] = (T.mul(PI, C(2)), {})
    thorough = tier == 'thorough'
    shapes = [(), ('n',), ('n', 'k'), (1,), (1, 1), (0,)]

    def value(f, u, sh, dt='float64', src=None):
        a = operand(W, 'a', u, shp(W, sh), dt)
        m, k = W.si(a)[0], W.snap(a)
        src = src or 'pq.%s(a)' % f
        what = '%s of %s in %s' % (src, dt, u)
        r = W.ev(src, what, a=a)
        rad = f in INV or f == 'arctan2'
        W.want_q(what, r)
        W.want_units(what, r, {'radian': ONE} if rad else {})
        W.want_mag(what, r, raw(f, m))
        want_shape(what, W.shape(r), shp(W, sh))
        W.unchanged(what, k, a)
        # the result is a value of its own
        try:
            W.run('r += r', r=r)
        except spec.PyRaise as e:
            fail(what, 'the result cannot be modified: %s' % e.exc.cls.name)
        W.unchanged(what + ', after the result was modified', k, a)

    for f in TRIG + HYP + INV:
        for u in ANGLES + PURE + ('pq.arcminute', 'pq.turn'):
            S.add('%s of %s' % (f, u), value, f, u, ('n',))
        for sh in shapes:
            S.add('%s with shape %s' % (f, sh), value, f, 'angA' if f in TRIG else 'ratA', sh)
        for dt in ('int64', 'float32', 'int32'):
            S.add('%s of %s' % (f, dt), value, f, 'pq.degree' if f in TRIG else 'pq.percent', ('n',), dt)
        S.add('%s as a keyword' % f, value, f, 'ratA', ('n',), src='pq.%s(x=a)' % f)
        S.add('%s of an element' % f, lambda f: unit_arg(f, 'pq.Quantity([x, 2*x], ratA)[1]', T.mul(C(2), T.sym('x', True), W.r['K'])), f)

        def refused(f, u, sh=('n',)):
            a = operand(W, 'a', u, shp(W, sh))
            k = W.snap(a)
            W.refuse('_r = pq.%s(a)' % f, ('ValueError',), '%s of %s' % (f, u), a=a)
            W.unchanged('%s of %s' % (f, u), k, a)
        for u in BAD:
            S.add('%s of %s refused' % (f, u), refused, f, u)
        for sh in ((), (1,), (0,), (1, 1)):
            S.add('%s of %s with shape %s refused' % (f, 'lenA', sh), refused, f, 'lenA', sh)
        S.add('%s of a unit refused' % f, lambda f: W.refuse('_r = pq.%s(lenA)' % f, ('ValueError',)), f)

        # plain values, as in NumPy
        def plain(f, sh, dt):
            v = W.arr('v', shp(W, sh), dt)
            k = W.snap(v)
            what = '%s of a plain %s' % (f, dt)
            r = W.ev('pq.%s(v)' % f, what, v=v)
            W.want_plain(what, r, raw(f, T.sym('v', sh == (), False, dt == 'int64')))
            want_shape(what, W.shape(r), shp(W, sh))
            W.unchanged(what, k, v)
        for sh in shapes:
            S.add('%s of a plain array with shape %s' % (f, sh), plain, f, sh, 'float64')
        S.add('%s of plain integers' % f, plain, f, ('n',), 'int64')

        def number(f, kind):
            r = W.ev('pq.%s(x)' % f, x=W.num('x', kind))
            W.want_plain('%s of a plain %s' % (f, kind), r, raw(f, T.sym('x', True, False, kind == 'int')))
        for kind in ('float', 'int'):
            S.add('%s of a plain %s' % (f, kind), number, f, kind)

        def seq(f):
            what = '%s of a list of numbers' % f
            r = W.ev('pq.%s([x, y])' % f, what, x=W.num('x'), y=W.num('y'))
            W.want_plain(what, r)
            for i, n in ((0, 'x'), (1, 'y')):
                W.want_mag(what, W.ev('r[%d]' % i, r=r), raw(f, T.sym(n, True)))
        S.add('%s of a list' % f, seq, f)

        # the result goes into the array given
        def out(f, u):
            o = W.vec('o', W.dim('n'))
            if u:
                a = operand(W, 'a', u)
                m = W.si(a)[0]
            else:
                a = W.vec('a', W.dim('n'))
                m = T.sym('a')
            k = W.snap(a)
            what = '%s of %s with an output array' % (f, u or 'plain numbers')
            r = W.ev('pq.%s(a, o)' % f, what, a=a, o=o)
            W.want_mag(what, r, raw(f, m))
            W.want_mag(what + ': the array', o, raw(f, m))
            W.unchanged(what, k, a)
        for u in ('pq.radian' if f in TRIG else 'pq.dimensionless', 'ratA', ''):
            S.add('%s of %s with an output array' % (f, u or 'plain numbers'), out, f, u)

        # repeated application on results
        def twice(f):
            a = operand(W, 'a', 'ratA', ())
            x = raw(f, W.si(a)[0])
            W.want_mag('%s of itself' % f, W.ev('pq.%s(pq.%s(a))' % (f, f), a=a), raw(f, x))
        if f not in ('arccosh', 'arctanh', 'arcsin', 'arccos'):      # (domains)
            S.add('%s of its own result' % f, twice, f)

    def unit_arg(f, src, m):
        r = W.ev('pq.%s(%s)' % (f, src), x=W.num('x'))
        W.want_q(src, r)
        W.want_mag('%s(%s)' % (f, src), r, raw(f, m))
    for f in TRIG:
        for u in ANGLES + ('30*pq.degree', 'ratA', '(2*angA)'):
            v = {'pq.radian': ONE, 'pq.degree': T.mul(PI, C('1/180')), '30*pq.degree': T.mul(PI, C('1/6')), '(2*angA)': T.mul(C(2), W.r['K'])}.get(u, W.r['K'])
            S.add('%s of the unit %s' % (f, u), unit_arg, f, u, v)
    for f in ('sinh', 'cosh', 'tanh', 'arcsinh', 'arctan'):
        for u in ('ratA', 'ratB', 'lenA/lenB'):
            v = {'ratA': W.r['K'], 'ratB': W.r['Q'], 'lenA/lenB': T.div(W.r['A'], W.r['B'])}[u]
            S.add('%s of the unit %s' % (f, u), unit_arg, f, u, v)

    # the two-argument arc tangent
    def atan2(u1, u2, s1, s2, dt='float64'):
        a, b = operand(W, 'a', u1, shp(W, s1), dt), operand(W, 'b', u2, shp(W, s2))
        x, y = W.si(a), W.si(b)
        ka, kb = W.snap(a), W.snap(b)
        same_units = not set(W.dims(a)) ^ set(W.dims(b))
        what = 'arctan2 of %s and %s' % (u1, u2)

        def check(r):
            W.want_q(what, r)
            W.want_units(what, r, {'radian': ONE})
            W.want_mag(what, r, raw('arctan2', x[0], y[0]))
            want_shape(what, W.shape(r), bshape(W, s1, s2))
        if u1 == u2:
            check(W.ev('pq.arctan2(a, b)', what, a=a, b=b))
        elif set(x[1]) == set(y[1]):      # compatible: right or refused
            refused_or(W, '_r = pq.arctan2(a, b)', check, ('ValueError',), what, a=a, b=b)
        else:
            W.refuse('_r = pq.arctan2(a, b)', ('ValueError',), what, a=a, b=b)
        W.unchanged(what, ka, a)
        W.unchanged(what, kb, b)
    for u1, u2 in (('lenA', 'lenA'), ('frcA', 'frcA'), ('ratA', 'ratA'), ('pq.dimensionless', 'pq.dimensionless'), ('lenA/timA', 'lenA/timA'), ('lenA', 'lenB'),
                   ('velA', 'lenA/timA'), ('ratA', 'pq.dimensionless'), ('lenA', 'timA'), ('lenA', 'pq.dimensionless'), ('lenA', 'lenA**2'),
                   ('pq.km', 'pq.m'), ('ratA', 'lenA'), ('frcA', 'masA'), *TWIN_ALIKE, *TWIN_UNLIKE):
        S.add('arctan2 of %s and %s' % (u1, u2), atan2, u1, u2, ('n',), ('n',))
    for s1, s2 in SHAPEPAIRS:
        S.add('arctan2 with shapes %s %s' % (s1, s2), atan2, 'lenA', 'lenA', s1, s2)
    S.add('arctan2 of integers', atan2, 'lenA', 'lenA', ('n',), ('n',), 'int64')

    def atan2_plain(form):
        a, b = W.vec('a', W.dim('n')), W.vec('b', W.dim('n'))
        r = W.ev('pq.arctan2(a, b)', a=a, b=b)
        W.want_plain('arctan2 of plain arrays', r, raw('arctan2', T.sym('a'), T.sym('b')))
    S.add('arctan2 of plain arrays', atan2_plain, 0)

    def atan2_out():
        a, b, o = operand(W, 'a', 'lenA'), operand(W, 'b', 'lenA'), W.vec('o', W.dim('n'))
        W.ev('pq.arctan2(a, b, o)', a=a, b=b, o=o)
        W.want_mag('arctan2 with an output array', o, raw('arctan2', T.sym('a'), T.sym('b')))
    S.add('arctan2 with an output array', atan2_out)

    # one argument plain: a pure number, or refused
    def mixed(u, order):
        a, b = operand(W, 'a', u), W.vec('b', W.dim('n'))
        m, base = W.si(a)
        ka, kb = W.snap(a), W.snap(b)
        src = '_r = pq.arctan2(%s)' % ', '.join(order)
        t = [m if c == 'a' else T.sym('b') for c in order]

        def check(r):
            want(src, not base, 'was accepted for the units %s' % u)
            W.want_mag(src, r, raw('arctan2', *t))
        refused_or(W, src, check, ('Exception',), src + ' with ' + u, a=a, b=b)
        W.unchanged(src, ka, a)
        W.unchanged(src, kb, b)
    for u in ('lenA', 'pq.dimensionless', 'ratA', 'pq.percent'):
        for order in ('ab', 'ba'):
            S.add('arctan2 of %s with a plain array as %s' % (u, order), mixed, u, order)
    return S.items, {}
