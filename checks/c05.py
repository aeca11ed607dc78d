from .common import *

TITLE = 'conversions keep the physical value and refuse other dimensions'
LEVEL = 'other'
FLOOR = 500
EXPLAIN = ('abstract interpretation of every way to convert (rescale, the units attribute, the constructor, simplified, '
           'dimensionless_magnitude, preferred units) over symbolic magnitudes and symbolic unit scales: same physical '
           'value in the units asked for, or refusal with nothing changed')

# (from, to): same dimension
ALIKE = [('lenA', 'lenB'), ('lenA', 'lenA'), ('lenA', 'pq.m'), ('pq.m', 'lenA'), ('velA', 'lenA/timA'), ('lenA/timA', 'velA'),
         ('lenA/timA', 'lenB/timB'), ('frcA', 'masA*lenB/timB**2'), ('masA*lenA/timA**2', 'frcA'), ('lenA**2', 'lenB**2'),
         ('lenA**-1', 'lenB**-1'), ('lenA**0.5', 'lenB**0.5'), ('lenA*lenB', 'lenB**2'), ('ratA', 'ratB'),
         ('ratA', 'pq.dimensionless'), ('pq.dimensionless', 'ratA'), ('lenA/lenB', 'pq.dimensionless'),
         ('pq.percent', 'pq.dimensionless'), ('pq.degree', 'pq.radian'), ('pq.km', 'pq.m'), ('frcA*lenA', 'masA*velA**2'),
         ('frcA**2/masA', 'masA*lenB**2*timB**-4'), ('lenA*timA/timB', 'lenB'), ('ratA*lenA', 'lenB'), ('timA**-2', 'timB**-2')] + TWIN_ALIKE
UNLIKE = [('lenA', 'timA'), ('lenA', 'lenA**2'), ('lenA', 'pq.dimensionless'), ('pq.dimensionless', 'lenA'), ('lenA', 'lenB**-1'),
          ('velA', 'frcA'), ('lenA/timA', 'lenA*timA'), ('lenA**0.5', 'lenA'), ('masA', 'lenA'), ('ratA', 'lenA'), ('frcA', 'masA*lenA/timA'),
          ('lenA**-1', 'lenA**-2'), ('pq.radian', 'timA')] + TWIN_UNLIKE


ALIKE = list(dict.fromkeys(ALIKE))
UNLIKE = list(dict.fromkeys(UNLIKE))

def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'

    FORMS = {
        'expression': lambda u: u,
        # (the units that share a symbol have no name of their own in strings)
        'string': lambda u: u if 'lenC' in u or 'timC' in u else repr(u.replace('pq.', '').replace('percent', '%')),
        'units of a quantity': lambda u: '(3.0*%s).units' % (u if u in UNITS else '(%s)' % u),
        'dimensionality': lambda u: '(%s).dimensionality' % u,
        'product with one': lambda u: '1*(%s)' % u,
    }

    def rescale(ua, ub, form, sh, dt='float64', extra=''):
        a = operand(W, 'a', ua, shp(W, sh), dt)
        k = W.snap(a)
        v, base = W.si(a)
        src = 'a.rescale(%s%s)' % (FORMS[form](ub), extra)
        what = '%s from %s' % (src, ua)
        r = W.ev(src, what, a=a)
        W.want_q(what, r)
        W.want_units(what, r, dims_of(ub))
        W.want_value(what, r, v, base)
        want_shape(what, W.shape(r), shp(W, sh))
        W.unchanged(what, k, a)
        # a copy
        W.do('r += r', r=r)
        W.unchanged(what + ', after the result was modified', k, a)

    for ua, ub in ALIKE:
        for form in FORMS:
            S.add('rescale %s to %s given as %s' % (ua, ub, form), rescale, ua, ub, form, ('n',))
    for sh in ((), ('n', 'k'), (1,), (1, 1), (0,), ('n', 0)):
        for ua, ub in (('lenA', 'lenB'), ('lenA', 'lenA'), ('frcA', 'masA*lenB/timB**2')):
            S.add('rescale %s to %s with shape %s' % (ua, ub, sh), rescale, ua, ub, 'expression', sh)
    for dt in ('int64', 'float32', 'int32', 'complex128', 'uint8'):
        for ua, ub in (('lenA', 'lenB'), ('pq.km', 'pq.m'), ('pq.m', 'pq.km'), ('lenA', 'lenA')):
            S.add('rescale %s to %s with %s' % (ua, ub, dt), rescale, ua, ub, 'expression', ('n',), dt)
    for dt in ('float64', 'int64'):
        for ua, ub in (('lenA', 'lenB'), ('lenA', 'lenA'), ('velA', 'lenA/timA')):
            for e in (", dtype='d'", ', dtype=float', ", dtype='float32'"):
                S.add('rescale %s to %s with %s%s' % (ua, ub, dt, e), rescale, ua, ub, 'expression', ('n',), dt, e)

    def dtype(src, ua, dt, to):
        a = operand(W, 'a', ua, None, dt)
        r = W.ev(src, a=a)
        want(src, r.dtype is N.DT[to], 'has the type %s' % r.dtype.name)
    for src, ua, dt, to in (('a.rescale(lenA, dtype=int)', 'lenA', 'float64', 'int64'), ("a.rescale(lenA, dtype='float32')", 'lenA', 'float64', 'float32'),
                            ("a.rescale('lenA', dtype=float)", 'lenA', 'int64', 'float64'), ("a.rescale('lenA', float)", 'lenA', 'int64', 'float64'),
                            ("a.rescale(lenB, dtype='d')", 'lenA', 'float32', 'float64'), ("a.rescale(lenB, 'd')", 'lenA', 'float32', 'float64'),
                            ('a.rescale(lenB, dtype=complex)', 'lenA', 'float64', 'complex128'), ('a.rescale(lenB)', 'lenA', 'float32', 'float32'),
                            ('a.rescale(lenA)', 'lenA', 'int64', 'int64'), ('a.rescale(lenB)', 'lenA', 'int64', 'float64'), ('a.rescale(lenA)', 'lenA', 'float32', 'float32')):
        S.add('type of %s of %s' % (src, dt), dtype, src, ua, dt, to)

    def refuse(src, ua, ub, names=('ValueError',), **kw):
        a = operand(W, 'a', ua)
        k = W.snap(a)
        W.refuse(src, names, '%s of %s' % (src, ua), a=a, **kw)
        W.unchanged(src, k, a)

    for ua, ub in UNLIKE:
        for form in FORMS:
            S.add('rescale %s to %s given as %s refused' % (ua, ub, form), refuse, '_r = a.rescale(%s)' % FORMS[form](ub), ua, ub)
        S.add('units of %s set to %s refused' % (ua, ub), refuse, 'a.units = %s' % ub, ua, ub)
        S.add('constructor from %s with units %s refused' % (ua, ub), refuse, '_r = pq.Quantity(a, %s)' % ub, ua, ub)
        S.add('rescale unit %s to %s refused' % (ua, ub), lambda ua, ub: W.refuse('_r = (%s).rescale(%s)' % (ua, ub), ('ValueError',)), ua, ub)
    # what is not a unit is refused as such
    for bad in ('2*lenB', '0.5*lenB', '-1*lenB', '1.0000001*lenB', '0.9999999999*lenB', '1.000000000000001*lenB', 'np.array([1., 2.])*lenB', 'np.array([[1., 1.]])*lenB', '3', '2.5', '[lenB]', 'np.array(1.0)',
                '0*lenB', 'np.array([1., 1.])*lenB', 'np.array([2.])*lenB', 'np.array([0.])*lenB', 'np.array([[0.5]])*lenB', 'np.array([np.nan])*lenB', 'object()', "'2*lenB'", "'no_such_unit'", "'lenA lenB'", "'-lenB'", 'np.nan*lenB'):
        for src in ('_r = a.rescale(%s)', 'a.units = %s', '_r = pq.Quantity(v, %s)', '_r = pq.UncertainQuantity(v, %s)'):
            if '%' in src:
                def f(src, bad):
                    a = operand(W, 'a', 'lenA')
                    v = W.vec('v', W.dim('n'))
                    k = W.snap(a)
                    W.refuse(src % bad, ('ValueError', 'TypeError', 'LookupError', 'SyntaxError', 'AttributeError'), a=a, v=v)
                    W.unchanged(src % bad, k, a)
                S.add('%s refused' % (src % bad), f, src, bad)

    # the units attribute converts in place
    def setter(ua, ub, form, sh, dt='float64'):
        a = operand(W, 'a', ua, shp(W, sh), dt)
        v, base = W.si(a)
        src = 'b = a\na.units = ' + FORMS[form](ub)
        what = 'a.units = %s from %s' % (FORMS[form](ub), ua)
        ns = W.do(src, what, a=a)
        want(what, ns['b'] is a, 'rebound')
        W.want_units(what, a, dims_of(ub))
        W.want_value(what, a, v, base)
        want_shape(what, W.shape(a), shp(W, sh))
    for ua, ub in ALIKE:
        for form in FORMS if thorough else ('expression', 'string'):
            S.add('units of %s set to %s given as %s' % (ua, ub, form), setter, ua, ub, form, ('n',))
    # numbers of a type which may not hold the converted ones: converted or refused, not changed into others
    def setter_type(ua, ub, dt, sh):
        a = operand(W, 'a', ua, shp(W, sh), dt)
        v, base = W.si(a)
        k = W.snap(a)
        what = 'a.units = %s from %s of %s' % (ub, ua, dt)
        try:
            W.tryrun('a.units = %s' % ub, a=a)
        except Raised:
            W.unchanged(what, k, a)
            return
        W.want_units(what, a, dims_of(ub))
        W.want_value(what, a, v, base)
    for dt in ('int64', 'int32', 'uint8', 'float32', 'complex128'):
        for ua, ub in (('lenA', 'lenB'), ('pq.km', 'pq.m'), ('pq.m', 'pq.km'), ('frcA', 'masA*lenB/timB**2'), ('lenA', 'lenA')):
            for sh in (('n',), ()):
                S.add('units of %s set to %s with %s and shape %s' % (ua, ub, dt, sh), setter_type, ua, ub, dt, sh)
    for sh in ((), ('n', 'k'), (1,), (1, 1), (0,)):
        S.add('units set with shape %s' % (sh,), setter, 'lenA', 'lenB', 'expression', sh)

    # constructor from a quantity
    def ctor(ua, ub, form, sh):
        a = operand(W, 'a', ua, shp(W, sh))
        v, base = W.si(a)
        k = W.snap(a)
        src = 'pq.Quantity(a, %s)' % FORMS[form](ub)
        r = W.ev(src, '%s from %s' % (src, ua), a=a)
        W.want_q(src, r)
        if ub == 'pq.dimensionless' and form not in ('string', ):
            W.want_value(src, r, v, base)      # (an empty dimensionality means: as it is)
        else:
            W.want_units(src, r, dims_of(ub))
            W.want_value(src, r, v, base)
        W.unchanged(src, k, a)
    for ua, ub in ALIKE:
        for form in ('expression', 'string') + (('units of a quantity',) if thorough else ()):
            S.add('constructor from %s with units %s given as %s' % (ua, ub, form), ctor, ua, ub, form, ('n',))
    for sh in ((), ('n', 'k'), (1,), (1, 1), (0,)):
        S.add('constructor with shape %s' % (sh,), ctor, 'lenA', 'lenB', 'expression', sh)

    def ctor_plain(src, dims, t, sh):
        r = W.ev(src, v=W.arr('v', shp(W, sh)), x=W.num('v'), i=W.num('i', 'int'), a=operand(W, 'a', 'lenA/timA'))
        W.want_q(src, r)
        W.want_units(src, r, dims_of(dims))
        W.want_mag(src, r, t)
        want_shape(src, W.shape(r), shp(W, sh))
    v, x = T.sym('v'), T.sym('v', True)
    for src, dims, t, sh in (('pq.Quantity(v)', 'pq.dimensionless', v, ('n',)), ('pq.Quantity(v, lenA)', 'lenA', v, ('n',)),
                             ("pq.Quantity(v, '')", 'pq.dimensionless', v, ('n',)), ("pq.Quantity(v, 'lenA/timA')", 'lenA/timA', v, ('n',)),
                             ('pq.Quantity(x, lenA)', 'lenA', x, ()), ('pq.Quantity(v, units=lenA**2)', 'lenA**2', v, ('n', 'k')),
                             ('pq.Quantity(i, lenA)', 'lenA', T.sym('i', True, False, True), ()), ('pq.Quantity(v, frcA.dimensionality)', 'frcA', v, ('n',)),
                             ('pq.Quantity(a)', 'lenA/timA', T.sym('a'), ('n',)), ("pq.Quantity(a, '')", 'lenA/timA', T.sym('a'), ('n',)),
                             ("pq.Quantity(v, lenA, dtype='d')", 'lenA', v, ('n',)), ('pq.Quantity(lenA)', 'lenA', ONE, ()),
                             ('pq.Quantity(lenB, lenA)', 'lenA', T.div(W.r['B'], W.r['A']), ()),
                             ('pq.Quantity([x, x, x], lenA)[1]', 'lenA', x, ())):
        S.add(src, ctor_plain, src, dims, t, sh)

    # simplified: base units of the unit system, same value
    BASE = {'meter', 'kilogram', 'second', 'ampere', 'kelvin', 'mole', 'candela', 'radian'}
    UN = ['lenA', 'velA', 'frcA', 'lenA/timA**2', 'masA*velA**2', 'ratA', 'pq.dimensionless', 'lenA/lenB', 'lenA**0.5', 'lenA**-1', 'timA*velA/lenB',
          'pq.km', 'pq.percent', 'pq.degree', 'frcA/lenA**2', 'lenA**2*lenB**-2', 'frcA**-1']

    def simplified(u, src, sh):
        a = operand(W, 'a', u, shp(W, sh))
        v, base = W.si(a)
        k = W.snap(a)
        r = W.ev(src, '%s of %s' % (src, u), a=a)
        W.want_q(src, r)
        W.want_value('%s of %s' % (src, u), r, v, base)
        d = W.dims(r)
        want('%s of %s' % (src, u), set(d) <= BASE, 'has the units %s' % spec.showdims(d))
        want_dims('%s of %s' % (src, u), {n: e for n, e in d.items() if n != 'radian'}, base)
        want_shape(src, W.shape(r), shp(W, sh))
        W.unchanged(src, k, a)
    for u in UN:
        S.add('simplified %s' % u, simplified, u, 'a.simplified', ('n',))
        S.add('simplified twice %s' % u, simplified, u, 'a.simplified.simplified', ('n',))
        for src in ('(%s).simplified' % u,):
            def f(u, src):
                r = W.ev(src)
                s, base = W.factor(dims_of(u))
                W.want_value(src, r, s, base)
            S.add(src, f, u, src)

        def dim(u):
            r = W.ev('(%s).dimensionality.simplified' % u)
            d = W.dims(r)
            want_dims('(%s).dimensionality.simplified' % u, {n: e for n, e in d.items() if n != 'radian'}, W.factor(dims_of(u))[1])
        S.add('(%s).dimensionality.simplified' % u, dim, u)
    for sh in ((), ('n', 'k'), (1,), (1, 1), (0,)):
        S.add('simplified with shape %s' % (sh,), simplified, 'frcA', 'a.simplified', sh)

    # pure numbers
    def dmag(u, ok):
        a = operand(W, 'a', u)
        k = W.snap(a)
        src = 'a.dimensionless_magnitude'
        if ok:
            r = W.ev(src, '%s of %s' % (src, u), a=a)
            W.want_plain('%s of %s' % (src, u), r, W.si(a)[0])
        else:
            W.refuse('_r = ' + src, ('ValueError',), '%s of %s' % (src, u), a=a)
        W.unchanged(src, k, a)
    for u in ('ratA', 'pq.dimensionless', 'lenA/lenB', 'pq.percent', 'ratA*ratB', 'velA*timB/lenA', 'frcA/masA/lenA*timB**2', 'pq.km/pq.m',
              'lenA**0.5*lenB**-0.5', 'ratA**2', 'pq.radian'):
        S.add('dimensionless_magnitude of %s' % u, dmag, u, True)
    for u in ('lenA', 'lenA**2/lenB', 'velA', 'timA**-1', 'ratA*lenA', 'frcA', 'pq.km'):
        S.add('dimensionless_magnitude of %s refused' % u, dmag, u, False)

    # preferred units
    def preferred(u, plist, to, call):
        a = operand(W, 'a', u)
        v, base = W.si(a)
        k = W.snap(a)
        ns = W.do('pq.quantity.PREFERRED = %s\n_r = %s' % (plist, call), 'rescale %s with PREFERRED = %s' % (u, plist), a=a)
        r = ns['_r']
        W.want_units('preferred units of %s out of %s' % (u, plist), r, dims_of(to))
        W.want_value('preferred units of %s' % u, r, v, base)
        W.unchanged(call, k, a)
    for call in ('a.rescale()', 'a.rescale_preferred()', 'a.rescale(None)'):
        for u, plist, to in (('lenA', '[lenB]', 'lenB'), ('lenA', '[timA, lenB]', 'lenB'), ('lenA', '[lenB, pq.m]', 'lenB'),
                             ('velA', '[lenA, lenA/timA, velA]', 'lenA/timA'), ('lenA', '[lenA]', 'lenA'), ('lenA/timA', '[lenB, timB, velA]', 'velA'),
                             ('frcA', '[masA, masA*lenB/timB**2]', 'masA*lenB/timB**2'), ('lenA', '[lenA**2, lenB]', 'lenB'), ('lenA', '[lenA**-1, lenA**2, pq.m]', 'pq.m'),
                             ('velA', '[lenA*timA, velA**2, lenA/timA**2, lenA/timB]', 'lenA/timB'), ('pq.m', '[pq.s, pq.km]', 'pq.km'), ('pq.m', '[lenA]', 'lenA'), ('lenA**2', '[lenA, lenB**2]', 'lenB**2'),
                             ('lenA', '[timC, lenC]', 'lenC'), ('lenC', '[timC, lenA]', 'lenA'), ('ratA', '[lenA, pq.percent]', 'pq.percent'), ('lenA', "[pq.m, pq.km, pq.mm]", 'pq.m'),
                             ('masA*lenA/timA**2', '[masA*lenA**2/timA**2, masA*lenA/timA**3, frcA]', 'frcA')):
            S.add('%s of %s with PREFERRED = %s' % (call, u, plist), preferred, u, plist, to, call)
        for u, plist in (('lenA', '[]'), ('lenA', '[timA]'), ('lenA', '[lenA**2, timA, ratA]'), ('velA', '[lenA, timA]'), ('lenA', '[lenA**2]'), ('lenA', '[lenA**-1]'), ('velA', '[lenA*timA, lenA/timA**2]'), ('lenA', '[timC]'), ('lenA**0.5', '[lenA]')):
            def f(u, plist, call):
                a = operand(W, 'a', u)
                k = W.snap(a)
                W.refuse('pq.quantity.PREFERRED = %s\n_r = %s' % (plist, call), ('Exception',), a=a)
                W.unchanged(call, k, a)
            S.add('%s of %s with PREFERRED = %s refused' % (call, u, plist), f, u, plist, call)

    # units and conversion of units themselves
    def unit_value(src, val, dims):
        r = W.ev(src)
        W.want_q(src, r, None)
        W.want_units(src, r, dims_of(dims))
        W.want_value(src, r, val)
    rA, rB, rT, rP = (W.r[k] for k in 'ABTP')
    for src, val, dims in (('lenA.rescale(lenB)', rA, 'lenB'), ('lenA.rescale(lenA)', rA, 'lenA'), ("velA.rescale('lenA/timB')", T.mul(rP, rB, T.inv(rT)), 'lenA/timB'),
                           ('(lenA*lenB).rescale(lenA**2)', T.mul(rA, rB), 'lenA**2'), ('lenA.units', rA, 'lenA'), ('(5*lenA).units', rA, 'lenA'),
                           ('velA.definition', T.mul(rP, rB, T.inv(rT)), 'lenB/timA'), ('pq.km.rescale(lenA)', C(1000), 'lenA'),
                           ('(lenA/timA).units', T.div(rA, rT), 'lenA/timA'), ("pq.Quantity(1, 'km').rescale('m')", C(1000), 'pq.m')):
        S.add(src + ' value', unit_value, src, val, dims)

    # chains of conversions end where they started
    def chain(path):
        a = operand(W, 'a', path[0])
        v, base = W.si(a)
        m = W.mag(a)
        r = a
        for u in path[1:]:
            r = W.ev('r.rescale(%s)' % u, r=r)
        W.want_value('rescaling along %s' % (path,), r, v, base)
        if path[0] == path[-1]:
            W.want_mag('rescaling along %s and back' % (path,), r, m)
        direct = W.ev('a.rescale(%s)' % path[-1], a=a)
        W.want_mag('rescaling along %s' % (path,), r, W.mag(direct))
    for path in (['lenA', 'lenB', 'lenA'], ['lenA', 'pq.m', 'lenB', 'pq.km', 'lenA'], ['velA', 'lenA/timA', 'lenB/timB', 'velA'],
                 ['frcA', 'masA*lenB/timB**2', 'frcA'], ['ratA', 'pq.dimensionless', 'ratB', 'ratA'], ['lenA**0.5', 'lenB**0.5', 'lenA**0.5'],
                 ['lenA', 'lenB', 'pq.m'], ['frcA*lenA', 'masA*velA**2', 'masA*lenA**2/timB**2']):
        S.add('rescaling along %s' % path, chain, path)

    # conversion and arithmetic commute
    def commute(src1, src2):
        a, b = operand(W, 'a', 'lenA'), operand(W, 'b', 'timA')
        r1, r2 = W.ev(src1, a=a, b=b), W.ev(src2, a=a, b=b)
        want_dims(src1 + ' and ' + src2, W.si(r1)[1], W.si(r2)[1])
        want_same(src1 + ' and ' + src2, W.si(r1)[0], W.si(r2)[0])
    for s1, s2 in (('(a/b).rescale(lenB/timB)', 'a.rescale(lenB)/b.rescale(timB)'), ('(a*a).simplified', 'a.simplified*a.simplified'),
                   ('(a + lenB).rescale(pq.m)', 'a.rescale(pq.m) + lenB.rescale(pq.m)'), ('(2*a).rescale(lenB)', '2*a.rescale(lenB)'),
                   ('a.rescale(lenB).sum()', 'a.sum().rescale(lenB)'), ('a.rescale(lenB)[0]', 'a[0].rescale(lenB)'),
                   ('abs(a).rescale(lenB)', 'abs(a.rescale(lenB))'), ('a.max().rescale(lenB)', 'a.rescale(lenB).max()'),
                   ('(a**2).rescale(lenB**2)', 'a.rescale(lenB)**2'), ('(a/b).simplified', 'a.simplified/b.simplified')):
        S.add('%s and %s' % (s1, s2), commute, s1, s2)

    # a read-only quantity cannot be converted in place
    def readonly():
        a = operand(W, 'a', 'lenA')
        W.do('a.flags.writeable = False', a=a)
        k = W.snap(a)
        W.refuse('a.units = lenB', ('ValueError',), a=a)
        W.unchanged('a.units = lenB', k, a)
    S.add('units of a read-only quantity', readonly)
    return S.items, {}
