from .common import *

TITLE = 'integration, differentiation and vector helpers have the right units'
LEVEL = 'other'
FLOOR = 350
EXPLAIN = ('abstract interpretation of the helper functions of the package over symbolic samples, spacings and unit scales, '
           'against NumPy on the bare magnitudes and, for short vectors, against the written-out formulas; units, refusals, operands unchanged')


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    scale = lambda u: W.factor(dims_of(u))[0]
    n, k = W.dim('n'), W.dim('k')

    def plain(name, sh, dt='float64'):
        return W.arr(name, shp(W, sh), dt)

    def both(name, u, sh, dt='float64'):
        """a quantity (or plain array) and the plain array of its magnitude"""
        v = plain(name, sh, dt)
        return (W.q(plain(name, sh, dt), u) if u else plain(name, sh, dt)), v

    def check_result(what, r, ref, dims, cls='Quantity'):
        """r is the quantity with the magnitude ref in the units dims"""
        W.want_q(what, r, cls)
        W.want_units(what, r, dims)
        W.want_mag(what, r, W.mag(ref))
        want_shape(what, W.shape(r), W.shape(ref))

    def call(src, ref, dims, ops, exact=True):
        """src over quantities gives what ref over the magnitudes does, in the units dims (None: plain)"""
        q, p = {}, {}
        for name, (u, sh, *dt) in ops.items():
            q[name], p[name] = both(name, u, sh, *dt)
        snaps = {x: W.snap(v) for x, v in q.items()}
        what = '%s with %s' % (src, ', '.join('%s in %s' % (x, o[0] or 'plain numbers') for x, o in ops.items()))
        r = W.ev(src, what, **q)
        e = W.ev(ref, **p)
        if dims is None:
            W.want_plain(what, r, W.mag(e))
        else:
            check_result(what, r, e, dims)
        for x, v in q.items():
            W.unchanged(what, snaps[x], v, x)
        if dims is not None and not any(r is v for v in q.values()):      # (diff(a, 0) is a itself)
            try:
                W.run('r *= 2', r=r)
            except spec.PyRaise as e:
                fail(what, 'the result cannot be modified: %s' % e.exc.cls.name)
            for x, v in q.items():
                W.unchanged(what + ', after the result was modified', snaps[x], v, x)

    def refused(src, names, ops):
        q = {}
        for name, (u, sh, *dt) in ops.items():
            q[name] = both(name, u, sh, *dt)[0]
        snaps = {x: W.snap(v) for x, v in q.items()}
        what = '%s with %s' % (src, ', '.join('%s in %s' % (x, o[0] or 'plain numbers') for x, o in ops.items()))
        W.refuse('_r = ' + src, names, what, **q)
        for x, v in q.items():
            W.unchanged(what, snaps[x], v, x)

    U2 = [('lenA', 'timA'), ('lenA', 'lenB'), ('frcA', 'lenA'), ('velA', 'timA'), ('ratA', 'lenA'), ('lenA', 'lenA**-1'), ('lenA/timA', 'timA'),
          ('pq.dimensionless', 'timA'), ('lenA', 'pq.dimensionless'), ('lenA**0.5', 'lenA**0.5'), ('pq.km', 'pq.s'), ('pq.m', 'lenA'), ('lenA', 'lenC'), ('lenA', 'timC'), ('lenA*masA*pq.K', 'timA/pq.mol')]

    # ------------------------------------------------------------ trapz
    def prod(u, v):
        return comb(dims_of(u), dims_of(v)) if u and v else dims_of(u or v)
    for u, v in U2:
        for ys, xs in ((('n',), ('n',)), (('k', 'n'), ('n',)), (('k', 'n'), ('k', 'n'))):
            S.add('trapz of %s over %s with shapes %s %s' % (u, v, ys, xs), call, 'pq.trapz(y, x)', 'np.trapezoid(y, x)', prod(u, v), {'y': (u, ys), 'x': (v, xs)})
        for ys in (('n',), ('k', 'n')):
            S.add('trapz of %s spaced by %s with shape %s' % (u, v, ys), call, 'pq.trapz(y, dx=d)', 'np.trapezoid(y, dx=d)', prod(u, v), {'y': (u, ys), 'd': (v, ())})
    for ax in (0, 1, -1):
        S.add('trapz along %d' % ax, call, 'pq.trapz(y, axis=%d)' % ax, 'np.trapezoid(y, axis=%d)' % ax, dims_of('lenA'), {'y': ('lenA', ('n', 'k'))})
        S.add('trapz over an array along %d' % ax, call, 'pq.trapz(y, x, axis=%d)' % ax, 'np.trapezoid(y, x, axis=%d)' % ax, prod('lenA', 'timA'),
              {'y': ('lenA', ('n', 'k')), 'x': ('timA', ('n', 'k'))})
        S.add('trapz over a vector along %d' % ax, call, 'pq.trapz(y, x, 1.0, %d)' % ax, 'np.trapezoid(y, x, 1.0, %d)' % ax, prod('lenA', 'timA'),
              {'y': ('lenA', ('n', 'k')), 'x': ('timA', ('n',) if ax == 0 else ('k',))})
        S.add('trapz with a spacing along %d' % ax, call, 'pq.trapz(y, dx=d, axis=%d)' % ax, 'np.trapezoid(y, dx=d, axis=%d)' % ax, prod('lenA', 'timA'),
              {'y': ('lenA', ('n', 'k')), 'd': ('timA', ())})
    S.add('trapz with unit spacing', call, 'pq.trapz(y)', 'np.trapezoid(y)', dims_of('frcA'), {'y': ('frcA', ('n',))})
    for dt in ('int64', 'float32'):
        S.add('trapz of %s' % dt, call, 'pq.trapz(y, x)', 'np.trapezoid(y, x)', prod('lenA', 'timA'), {'y': ('lenA', ('n',), dt), 'x': ('timA', ('n',), dt)})
    # one of them plain: a pure number
    S.add('trapz of plain samples over quantities', call, 'pq.trapz(y, x)', 'np.trapezoid(y, x)', dims_of('timA'), {'y': ('', ('n',)), 'x': ('timA', ('n',))})
    S.add('trapz of quantities over plain points', call, 'pq.trapz(y, x)', 'np.trapezoid(y, x)', dims_of('lenA'), {'y': ('lenA', ('n',)), 'x': ('', ('n',))})
    S.add('trapz of plain samples with a spacing', call, 'pq.trapz(y, dx=d)', 'np.trapezoid(y, dx=d)', dims_of('timA'), {'y': ('', ('n',)), 'd': ('timA', ())})
    S.add('trapz of quantities with a plain spacing', call, 'pq.trapz(y, dx=d)', 'np.trapezoid(y, dx=d)', dims_of('lenA'), {'y': ('lenA', ('n',)), 'd': ('', ())})
    S.add('trapz of plain samples over plain points', call, 'pq.trapz(y, x)', 'np.trapezoid(y, x)', None, {'y': ('', ('n',)), 'x': ('', ('n',))})
    S.add('trapz of plain samples with a plain spacing', call, 'pq.trapz(y, dx=d)', 'np.trapezoid(y, dx=d)', None, {'y': ('', ('n',)), 'd': ('', ())})
    S.add('trapz over pure numbers with a spacing as well', call, 'pq.trapz(y, x, d)', 'np.trapezoid(y, x)', dims_of('lenA'),
          {'y': ('lenA', ('n',)), 'x': ('pq.dimensionless', ('n',)), 'd': ('timB', ())})
    S.add('trapz over plain points with a spacing as well', call, 'pq.trapz(y, x, d)', 'np.trapezoid(y, x)', dims_of('lenA'),
          {'y': ('lenA', ('n',)), 'x': ('', ('n',)), 'd': ('timB', ())})
    S.add('trapz over points with a spacing as well', call, 'pq.trapz(y, x, d)', 'np.trapezoid(y, x)', prod('lenA', 'timA'),
          {'y': ('lenA', ('n',)), 'x': ('timA', ('n',)), 'd': ('timB', ())})

    def trapz3(u, v, form):
        a, b, c, x, y, z, h = (T.sym(s, True) for s in 'abcxyzh')
        su, sv = scale(u) if u else ONE, scale(v) if v else ONE
        kw = {s: W.num(s) for s in 'abcxyzh'}
        src = {'x': 'pq.trapz(%s, %s)' % (wrap('[a, b, c]', u), wrap('[x, y, z]', v)), 'dx': 'pq.trapz(%s, dx=%s)' % (wrap('[a, b, c]', u), wrap('h', v))}[form]
        if form == 'x':
            t = T.add(T.mul(C('1/2'), T.add(a, b), T.sub(y, x)), T.mul(C('1/2'), T.add(b, c), T.sub(z, y)))
        else:
            t = T.mul(h, T.add(T.mul(C('1/2'), T.add(a, c)), b))
        r = W.ev(src, **kw)
        W.want_q_like(src, r, T.mul(t, su, sv), prod(u, v))

    def wrap(src, u):
        return 'pq.Quantity(%s, %s)' % (src, u) if u else src
    for u, v in U2 + [('lenA', ''), ('', 'timA')]:
        for form in ('x', 'dx'):
            S.add('trapz of three samples of %s with %s of %s' % (u or 'plain', form, v or 'plain'), trapz3, u, v, form)

    # --------------------------------------------------------- gradient
    def quot(u, v):
        return comb(dims_of(u), dims_of(v), -1) if v else dims_of(u)

    def gradient(src, ref, units, ops):
        q, p = {}, {}
        for name, (u, sh, *dt) in ops.items():
            q[name], p[name] = both(name, u, sh, *dt)
        snaps = {x: W.snap(v) for x, v in q.items()}
        what = '%s with %s' % (src, ', '.join('%s in %s' % (x, o[0] or 'plain numbers') for x, o in ops.items()))
        r = W.ev(src, what, **q)
        e = W.ev(ref, **p)
        if len(units) == 1:      # along the only axis
            sh = ops['f'][1]
            check_result(what, r, e, units[0])
            for i in range(sh[0] if isinstance(sh[0], int) else 0):
                check_result('element %d of %s' % (i, what), W.ev('r[%d]' % i, r=r), W.ev('e[%d]' % i, e=e), units[0])
        else:
            want(what, W.I.truth(W.ev('len(r) == %d' % len(units), r=r)), 'does not have one result per axis')
            for i, d in enumerate(units):
                check_result('part %d of %s' % (i, what), W.ev('r[%d]' % i, r=r), W.ev('e[%d]' % i, e=e), d)
        for x, v in q.items():
            W.unchanged(what, snaps[x], v, x)

    for u, v in U2:
        S.add('gradient of %s per %s, one axis' % (u, v), gradient, 'pq.gradient(f, h)', 'np.gradient(f, h)', [quot(u, v)], {'f': (u, (3,)), 'h': (v, ())})
        S.add('gradient of %s per %s, two axes' % (u, v), gradient, 'pq.gradient(f, h)', 'np.gradient(f, h)', [quot(u, v)] * 2, {'f': (u, ('n', 'k')), 'h': (v, ())})
        S.add('gradient of %s per %s and timB' % (u, v), gradient, 'pq.gradient(f, h, g)', 'np.gradient(f, h, g)', [quot(u, v), quot(u, 'timB')],
              {'f': (u, ('n', 'k')), 'h': (v, ()), 'g': ('timB', ())})
        S.add('gradient of %s at points in %s, one axis' % (u, v), gradient, 'pq.gradient(f, x)', 'np.gradient(f, x)', [quot(u, v)], {'f': (u, (3,)), 'x': (v, (3,))})
        S.add('gradient of %s at points in %s and timB' % (u, v), gradient, 'pq.gradient(f, x, y)', 'np.gradient(f, x, y)', [quot(u, v), quot(u, 'timB')],
              {'f': (u, (3, 4)), 'x': (v, (3,)), 'y': ('timB', (4,))})
    for sh, m in (((3,), 1), (('n',), 1), (('n', 'k'), 2), ((3, 4), 2), ((2, 3, 4), 3)):
        S.add('gradient with unit spacing of shape %s' % (sh,), gradient, 'pq.gradient(f)', 'np.gradient(f)', [dims_of('lenA')] * m, {'f': ('lenA', sh)})
        S.add('gradient with a plain spacing of shape %s' % (sh,), gradient, 'pq.gradient(f, h)', 'np.gradient(f, h)', [dims_of('lenA')] * m, {'f': ('lenA', sh), 'h': ('', ())})
        S.add('gradient with a spacing of shape %s' % (sh,), gradient, 'pq.gradient(f, h)', 'np.gradient(f, h)', [quot('lenA', 'timA')] * m,
              {'f': ('lenA', sh), 'h': ('timA', ())})
    S.add('gradient with three spacings', gradient, 'pq.gradient(f, h, g, i)', 'np.gradient(f, h, g, i)', [quot('lenA', v) for v in ('timA', '', 'lenB')],
          {'f': ('lenA', ('n', 'k', 3)), 'h': ('timA', ()), 'g': ('', ()), 'i': ('lenB', ())})
    S.add('gradient of integers', gradient, 'pq.gradient(f, h)', 'np.gradient(f, h)', [quot('lenA', 'timA')] * 2, {'f': ('lenA', ('n', 'k'), 'int64'), 'h': ('timA', (), 'int64')})
    S.add('gradient with too many spacings refused', refused, 'pq.gradient(f, h, h, h)', ('TypeError', 'ValueError'), {'f': ('lenA', ('n', 'k')), 'h': ('timA', ())})

    def gradient_plain():
        f, h = plain('f', ('n', 'k')), both('h', 'timA', ())[0]

        def check(r):
            for i in (0, 1):
                check_result('pq.gradient of plain samples', W.ev('r[%d]' % i, r=r), W.ev('np.gradient(f, h.magnitude)[%d]' % i, f=f, h=h), quot('pq.dimensionless', 'timA'))
        refused_or(W, '_r = pq.gradient(f, h)', check, ('Exception',), f=f, h=h)
    S.add('gradient of plain samples', gradient_plain)

    # ------------------------------------------------------------ cross
    def cross_ok(u, v, a, b, args=''):
        S.add('cross of %s %s and %s %s%s' % (u, a, v, b, args), call, 'pq.cross(a, b%s)' % args, 'np.cross(a, b%s)' % args, prod(u, v), {'a': (u, a), 'b': (v, b)})
    for u, v in U2:
        cross_ok(u, v, (3,), (3,))
        cross_ok(u, v, ('n', 3), ('n', 3))
        cross_ok(u, v, (3,), ('n', 3))
    for a, b in (((2,), (2,)), (('n', 2), ('n', 2)), ((2,), (3,)), (('n', 3), (3,)), (('k', 'n', 3), ('n', 3)), ((2,), ('n', 3)), (('n', 2), (2,))):
        cross_ok('lenA', 'frcA', a, b)
    for a, b, args in (((3, 'n'), ('n', 3), ', axisa=0'), (('n', 3), (3, 'n'), ', axisb=0'), (('n', 3), ('n', 3), ', axisc=0'), ((3, 'n'), (3, 'n'), ', axis=0'),
                       ((3, 'n'), (3, 'n'), ', 0, 0'), ((3, 'n'), (3, 'n'), ', 0, 0, 0'), ((3, 'n'), ('n', 3), ', 0, -1, 0'), (('n', 3), ('n', 3), ', -1, -1, -1, 1'),
                       (('k', 'n', 3), ('k', 'n', 3), ', axisc=1'), (('k', 3, 'n'), ('k', 3, 'n'), ', axis=1'), ((2, 'n'), (2, 'n'), ', axis=0')):
        cross_ok('lenA', 'frcA', a, b, args)
    S.add('cross of plain vectors', call, 'pq.cross(a, b)', 'np.cross(a, b)', None, {'a': ('', ('n', 3)), 'b': ('', ('n', 3))})
    for u, v in (('lenA', ''), ('', 'lenA'), ('ratA', ''), ('', 'pq.dimensionless')):
        def cross_mixed(u, v, args):
            (a, ap), (b, bp) = both('a', u, ('n', 3)), both('b', v, ('n', 3))
            ka, kb = W.snap(a), W.snap(b)
            what = 'pq.cross(a, b%s) with a in %s, b in %s' % (args, u or 'plain numbers', v or 'plain numbers')
            refused_or(W, '_r = pq.cross(a, b%s)' % args, lambda r: check_result(what, r, W.ev('np.cross(a, b%s)' % args, a=ap, b=bp), dims_of(u or v)), ('Exception',), what, a=a, b=b)
            W.unchanged(what, ka, a)
            W.unchanged(what, kb, b)
        for args in ('', ', axis=-1'):
            S.add('cross of %s and %s%s' % (u or 'plain', v or 'plain', args), cross_mixed, u, v, args)
    S.add('cross of vectors of the wrong length refused', refused, 'pq.cross(a, b)', ('ValueError',), {'a': ('lenA', (4,)), 'b': ('lenA', (4,))})

    # ---------------------------------------------------- hypot
    def hypot(u, v, s1, s2, dt='float64'):
        a, b = operand(W, 'a', u, shp(W, s1), dt) if u else W.arr('a', shp(W, s1), positive=True), operand(W, 'b', v, shp(W, s2)) if v else W.arr('b', shp(W, s2), positive=True)
        (x, bx), (y, by) = W.si(a), W.si(b)
        ka, kb = W.snap(a), W.snap(b)
        what = 'hypot of %s and %s' % (u or 'plain', v or 'plain')

        def check(r):
            W.want_q(what, r)
            W.want_units(what, r, dims_of(u or v))
            W.want_value(what, r, raw('hypot', x, y), bx)
            want_shape(what, W.shape(r), bshape(W, s1, s2))
        if u == v:
            check(W.ev('pq.hypot(a, b)', what, a=a, b=b))
        elif set(bx) == set(by):
            refused_or(W, '_r = pq.hypot(a, b)', lambda r: W.want_value(what, r, raw('hypot', x, y), bx), ('Exception',), what, a=a, b=b)
        else:
            W.refuse('_r = pq.hypot(a, b)', ('ValueError', 'AttributeError', 'TypeError'), what, a=a, b=b)
        W.unchanged(what, ka, a)
        W.unchanged(what, kb, b)
    for u, v in (('lenA', 'lenA'), ('frcA', 'frcA'), ('ratA', 'ratA'), ('lenA/timA', 'lenA/timA'), ('pq.dimensionless', 'pq.dimensionless'), ('lenA', 'lenB'), ('velA', 'lenA/timA'),
                 ('ratA', 'pq.dimensionless'), ('lenA', 'timA'), ('lenA', 'pq.dimensionless'), ('lenA', 'lenA**2'), ('pq.km', 'pq.m'), ('lenA', ''), ('', 'lenA'),
                 ('ratA', ''), ('', 'ratA'), ('pq.dimensionless', ''), ('', 'pq.percent'), *TWIN_ALIKE, *TWIN_UNLIKE):
        S.add('hypot of %s and %s' % (u or 'plain', v or 'plain'), hypot, u, v, ('n',), ('n',))
    for s1, s2 in SHAPEPAIRS:
        S.add('hypot with shapes %s %s' % (s1, s2), hypot, 'lenA', 'lenA', s1, s2)
    S.add('hypot of integers', hypot, 'lenA', 'lenA', ('n',), ('n',), 'int64')
    S.add('hypot of plain arrays', call, 'pq.hypot(a, b)', 'np.hypot(a, b)', None, {'a': ('', ('n',)), 'b': ('', ('n',))})

    def hypot_out():
        a, b, o = operand(W, 'a', 'lenA'), operand(W, 'b', 'lenA'), plain('o', ('n',))
        W.ev('pq.hypot(a, b, o)', a=a, b=b, o=o)
        W.want_mag('hypot with an output array', o, raw('hypot', T.sym('a'), T.sym('b')))
    S.add('hypot with an output array', hypot_out)

    # ----------------------------------------------------------- unwrap
    W.ns['angA'] = W.run("angA = pq.UnitQuantity('angA', rK*pq.radian)", rK=SNum(W.r['K'], 'float'))['angA']
    W.units['angA'] = (W.r['K'], {})
    UNITS['angA'] = {'angA': 1}

    def unwrap(u, v, sh, args, k=''):
        p = operand(W, 'p', u, shp(W, sh)) if u else plain('p', sh)
        d = operand(W, 'd', v, ()) if v else W.num('d') if v == '' else None
        m = W.si(p)[0]
        dm = ONE if v is None else W.si(d)[0]
        kp = W.snap(p)
        src = 'pq.unwrap(p%s%s)' % (', %sd' % k if v is not None else '', args)
        what = '%s with p in %s, d in %s' % (src, u or 'plain numbers', v or 'plain numbers')
        r = W.ev(src, what, p=p, **({} if v is None else {'d': d}))
        e = W.ev('np.unwrap(p%s%s)' % (', %sd' % k if v is not None else '', args), p=N.plain(m, shp(W, sh), F8), d=SNum(dm, 'float'))
        if not u and not v:
            W.want_plain(what, r, W.mag(e))
        elif not u:
            W.want_q(what, r)
            W.want_value(what, r, W.mag(e), {})
        else:
            W.want_q_like(what, r, W.mag(e), dims_of(u))
        want_shape(what, W.shape(r), shp(W, sh))
        W.unchanged(what, kp, p)
    for u in ('pq.radian', 'pq.degree', 'angA', ''):
        for v in (None, '', 'pq.radian', 'pq.degree', 'angA'):
            S.add('unwrap of %s with the jump in %s' % (u or 'plain numbers', 'plain numbers' if v == '' else v), unwrap, u, v, ('n',), '')
            # (NumPy takes no jump below half a turn)
            for by in ('20*', '1000*') if v is not None else ():
                S.add('unwrap of %s with the jump in %s, %sd' % (u or 'plain numbers', 'plain numbers' if v == '' else v, by), unwrap, u, v, ('n',), '', by)
        for sh, args in ((('n', 'k'), ', axis=0'), (('n', 'k'), ', axis=-1'), (('n', 'k'), '')):
            S.add('unwrap of %s with shape %s%s' % (u or 'plain numbers', sh, args), unwrap, u, None if u else 'pq.radian', sh, args)
    for u, v in (('lenA', 'pq.radian'), ('lenA', 'timA'), ('pq.radian', 'timA'), ('pq.degree', 'lenA'), ('timA', '')):
        S.add('unwrap of %s with the jump in %s refused' % (u, v or 'plain numbers'), refused, 'pq.unwrap(p, d)', ('ValueError',), {'p': (u, ('n',)), 'd': (v, ())})
    S.add('unwrap of lengths refused', refused, 'pq.unwrap(p)', ('ValueError',), {'p': ('lenA', ('n',))})

    # --------------------------------------------- differences and sums
    for u in ('lenA', 'frcA', 'ratA', 'pq.dimensionless', 'lenA/timA', 'pq.degree'):
        D = dims_of(u)
        for f, sh in (('diff(a)', ('n',)), ('diff(a)', ('n', 'k')), ('diff(a, 2)', ('n',)), ('diff(a, 0)', ('n',)), ('diff(a, axis=0)', ('n', 'k')), ('diff(a, 1, 0)', ('n', 'k')),
                      ('ediff1d(a)', ('n',)), ('ediff1d(a)', ('n', 'k')), ('sum(a)', ('n',)), ('sum(a)', ('n', 'k')), ('sum(a, 0)', ('n', 'k')), ('sum(a, axis=1)', ('n', 'k')),
                      ('sum(a, axis=-1)', ('n', 'k')), ('nansum(a)', ('n',)), ('nansum(a)', ('n', 'k')), ('nansum(a, 0)', ('n', 'k')), ('nansum(a, axis=-1)', ('n', 'k')),
                      ('cumsum(a)', ('n',)), ('cumsum(a)', ('n', 'k')), ('cumsum(a, 0)', ('n', 'k')), ('cumsum(a, axis=1)', ('n', 'k')), ('cumsum(a, axis=-1)', ('n', 'k'))):
            S.add('%s of %s with shape %s' % (f, u, sh), call, 'pq.' + f, 'np.' + f, D, {'a': (u, sh)})
        for sh, f, cnt in (((3,), 'prod(a)', 3), ((2, 3), 'prod(a)', 6), ((2, 3), 'prod(a, 0)', 2), ((2, 3), 'prod(a, axis=1)', 3), ((2, 3), 'prod(a, axis=-1)', 3),
                           (('n',), 'prod(a)', n), (('n', 'k'), 'prod(a, 0)', n), (('n', 'k'), 'prod(a, axis=1)', k)):
            S.add('%s of %s with shape %s' % (f, u, sh), call, 'pq.' + f, 'np.' + f, powd(D, N.dterm(cnt)), {'a': (u, sh)})
        for f, sh in (('cumprod(a)', ('n',)), ('cumprod(a, 0)', ('n', 'k')), ('cumprod(a, axis=1)', ('n', 'k'))):
            if u in ('pq.dimensionless',):
                S.add('%s of %s with shape %s' % (f, u, sh), call, 'pq.' + f, 'np.' + f, {}, {'a': (u, sh)})
            elif u in ('ratA', 'pq.degree'):
                def cp(u, f, sh):
                    a = operand(W, 'a', u, shp(W, sh))
                    t = W.si(a)[0]
                    e = W.ev('np.' + f, a=N.plain(t, shp(W, sh), F8))
                    refused_or(W, '_r = pq.' + f, lambda r: W.want_value('%s of %s' % (f, u), r, W.mag(e), {}), ('ValueError',), a=a)
                S.add('%s of %s with shape %s' % (f, u, sh), cp, u, f, sh)
            else:
                S.add('%s of %s with shape %s refused' % (f, u, sh), refused, 'pq.' + f, ('ValueError',), {'a': (u, sh)})
    for f in ('diff(a)', 'ediff1d(a)', 'nansum(a)', 'nansum(a, 0)', 'sum(a)', 'cumsum(a)', 'prod(a)', 'cumprod(a)'):
        S.add('%s of plain numbers' % f, call, 'pq.' + f, 'np.' + f, None, {'a': ('', ('n',))})
        S.add('%s of plain integers' % f, call, 'pq.' + f, 'np.' + f, None, {'a': ('', ('n',), 'int64')})
    for f in ('diff(a)', 'ediff1d(a)', 'nansum(a)', 'sum(a)', 'cumsum(a)'):
        for dt in ('int64', 'float32'):
            S.add('%s of %s in lenA' % (f, dt), call, 'pq.' + f, 'np.' + f, dims_of('lenA'), {'a': ('lenA', ('n',), dt)})

    def diff3(form):
        x, y, z = (T.sym(s, True) for s in 'xyz')
        r = W.ev('pq.%s(pq.Quantity([x, y, z], lenA))' % form, x=W.num('x'), y=W.num('y'), z=W.num('z'))
        for i, t in ((0, T.sub(y, x)), (1, T.sub(z, y))):
            W.want_q_like('pq.%s element %d' % (form, i), W.ev('r[%d]' % i, r=r), T.mul(W.r['A'], t), dims_of('lenA'))
    for f in ('diff', 'ediff1d'):
        S.add('%s of three values' % f, diff3, f)

    # end values of ediff1d
    def ends(u, v, which):
        a, e = operand(W, 'a', u) if u else W.vec('a', n), (operand(W, 'e', v, ()) if v else W.num('e'))
        kw = {'to_end': 'to_end=e', 'to_begin': 'to_begin=e', 'both': 'to_end=e, to_begin=e'}[which]
        src = 'pq.ediff1d(a, %s)' % kw
        what = '%s with a in %s, e in %s' % (src, u, v or 'plain numbers')
        ka = W.snap(a)
        conv = T.div(W.si(e)[0], scale(u or 'pq.dimensionless')) if v else W.mag(e)
        if v and set(W.si(e)[1]) != set(W.si(a)[1]):
            W.refuse('_r = ' + src, ('ValueError',), what, a=a, e=e)
        else:
            ref = W.ev('np.ediff1d(a, %s)' % kw, a=W.vec('a', n), e=N.plain(conv, (), F8))
            refused_or(W, '_r = ' + src, lambda r: check_result(what, r, ref, dims_of(u or 'pq.dimensionless')), ('ValueError',), what, a=a, e=e)
        W.unchanged(what, ka, a)
    for u, v in (*TWIN_ALIKE, *TWIN_UNLIKE, ('lenA', 'lenA'), ('lenA', 'lenB'), ('pq.m', 'pq.km'), ('velA', 'lenA/timA'), ('lenA', 'timA'), ('lenA', 'pq.dimensionless'), ('pq.dimensionless', 'ratA'),
                 ('lenA', ''), ('pq.dimensionless', ''), ('', 'ratA'), ('', 'lenA'), ('', 'pq.dimensionless')):
        for which in ('to_end', 'to_begin', 'both'):
            S.add('ediff1d of %s with %s in %s' % (u, which, v or 'plain numbers'), ends, u, v, which)

    # several end values, element by element
    def ends_els(u, v, beg, end, sh):
        def arr(nm, shape):
            return operand(W, nm, v, shape) if v else W.arr(nm, shape)
        a = operand(W, 'a', u, sh)
        kw, refs, parts = {}, {}, []
        for nm, shape in (('b', beg), ('e', end)):
            if shape is not None:
                kw[nm] = arr(nm, shape)
                conv = T.div(W.si(kw[nm])[0], scale(u)) if v else W.mag(kw[nm])
                refs[nm] = N.plain(conv, shape, F8)
        src = ', '.join(['pq.ediff1d(a'] + [s for s, nm in (('to_begin=b', 'b'), ('to_end=e', 'e')) if nm in kw]) + ')'
        what = '%s of %s with shape %s and ends %s %s in %s' % (src, u, sh, beg, end, v or 'plain numbers')
        snaps = {nm: W.snap(x) for nm, x in [('a', a), *kw.items()]}
        r = W.ev(src, what, a=a, **kw)
        size = 1
        for d in sh:
            size *= d
        w = W.ev('v.ravel()', v=plain('a', sh))
        els = [W.mag(W.ev('v[%d] - v[%d]' % (i + 1, i), v=w)) for i in range(size - 1)]
        def flat(nm, shape):
            t = W.ev('v.ravel()', v=refs[nm])
            c = 1
            for d in shape:
                c *= d
            return [W.mag(W.ev('v[%d]' % i, v=t)) for i in range(c)]
        els = (flat('b', beg) if beg is not None else []) + els + (flat('e', end) if end is not None else [])
        want_shape(what, W.shape(r), (len(els),))
        for i, t in enumerate(els):
            W.want_q_like('%s: element %d' % (what, i), W.ev('r[%d]' % i, r=r), T.mul(t, scale(u)), dims_of(u))
        for nm, s in snaps.items():
            W.unchanged(what, s, a if nm == 'a' else kw[nm])
    for u, v in (('lenA', 'lenB'), ('lenA', 'lenA'), ('pq.m', 'pq.km'), ('pq.dimensionless', '')):
        for sh in ((3,), (2, 2), (1,)):
            for beg, end in (((2,), None), (None, (2,)), ((2,), (3,)), ((2, 2), (1,)), ((), (2,)), ((3,), ())):
                S.add('ediff1d of %s with shape %s and ends %s %s in %s' % (u, sh, beg, end, v or 'plain numbers'), ends_els, u, v, beg, end, sh)

    # output arrays of sums
    def outs(f, u, ou):
        a, o = operand(W, 'a', u, (n, k)), operand(W, 'o', ou, (k,) if 'axis=0' in f else (n, k))
        ref = W.ev('np.' + f.replace(', out=o', ''), a=plain('a', ('n', 'k')))
        ka = W.snap(a)
        W.do('_r = pq.' + f, a=a, o=o)
        what = 'pq.%s of %s, out in %s' % (f, u, ou)
        W.want_q_like(what, o, T.mul(W.mag(ref), scale(u)), dims_of(u))
        W.unchanged(what, ka, a)
    for f in ('sum(a, axis=0, out=o)', 'cumsum(a, axis=0, out=o)'):
        for u, ou in (('lenA', 'lenA'), ('lenA', 'timA'), ('velA', 'lenA')):
            if f[0] == 's':
                S.add('%s of %s into %s' % (f, u, ou), outs, f, u, ou)
    return S.items, {}
