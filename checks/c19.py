from .common import *

TITLE = 'uncertainties propagate by the first-order rules'
LEVEL = 'other'
FLOOR = 500
EXPLAIN = ('abstract interpretation of the arithmetic of uncertain quantities over symbolic values, uncertainties and unit scales, '
           'against the propagation formulas written out here: value and units of the uncertainty, operands unchanged')

SAME = [('lenA', 'lenA'), ('lenA', 'lenB'), ('pq.km', 'pq.m'), ('velA', 'lenA/timA'), ('frcA', 'masA*lenB/timB**2'), ('ratA', 'pq.dimensionless'), ('ratA', 'ratB'),
        ('lenA**2', 'lenB**2'), ('pq.dimensionless', 'pq.dimensionless'), ('lenA**-1', 'lenB**-1')] + TWIN_ALIKE[:3]
OTHER = [('lenA', 'timA'), ('lenA', 'lenA'), ('lenA', 'lenB'), ('velA', 'timA'), ('frcA', 'lenA'), ('ratA', 'lenA'), ('lenA', 'pq.dimensionless'), ('pq.dimensionless', 'lenA'),
         ('pq.percent', 'pq.m'), ('lenA/timA', 'timA'), ('lenA**0.5', 'lenA**0.5'), ('lenA', 'lenA**-1')] + TWIN_UNLIKE[:3]
SAME = list(dict.fromkeys(SAME))
OTHER = list(dict.fromkeys(OTHER))

HALF = C('1/2')


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    n, k = W.dim('n'), W.dim('k')
    sq = lambda t: T.mul(t, t)
    root2 = lambda *t: T.power(T.add(*[sq(x) for x in t]), HALF)

    def make(name, u, kind, sh, dt='float64'):
        """a value; returns (object, its value, its uncertainty in base units, base dimensions)"""
        if kind == 'u':
            x = W.uq(W.arr(name, shp(W, sh), dt), u, W.arr('u' + name, shp(W, sh), positive=True))
        elif kind == 'v':      # the uncertainty given in other units
            x = W.uq(W.arr(name, shp(W, sh), dt), u, W.arr('u' + name, shp(W, sh), positive=True), '(1.0*%s).units' % u)
        elif kind == 'z':      # none given
            x = W.ev('pq.UncertainQuantity(_a, %s)' % u, _a=W.arr(name, shp(W, sh), dt))
        elif kind == 'q':
            x = operand(W, name, u, shp(W, sh), dt)
        elif kind == 'unit':
            x = W.ev(u)
        elif kind == 'a':
            x = W.arr(name, shp(W, sh), dt)
        elif kind == 'f':
            x = W.num(name)
        elif kind == 'i':
            x = W.num(name, 'int')
        s = W.factor(dims_of(u))[0] if u else ONE
        unc = T.mul(T.sym('u' + name, sh == (), True, False, True), s) if kind in 'uv' else ZERO
        v, base = W.si(x)
        return x, v, unc, base

    def want_unc(what, r, val, unc, dims, shape=None):
        """r is uncertain with this value and uncertainty (in base units)"""
        W.want_q(what, r, 'UncertainQuantity')
        W.want_units(what, r, dims)
        s = W.factor(dims)[0]
        want_same(what, T.mul(W.mag(r), s), val)
        e = W.unc(r)
        W.want_q(what + ': uncertainty', e, 'Quantity')
        W.want_units(what + ': uncertainty', e, dims)
        want_same(what + ': uncertainty', T.mul(W.mag(e), s), unc)
        if shape is not None:
            want_shape(what, W.shape(r), shape)
        want_shape(what + ': uncertainty', W.shape(e), W.shape(r))

    def formula(op, x, ux, y, uy):
        if op in '+-':
            return T.add(x, y) if op == '+' else T.sub(x, y), root2(ux, uy)
        if op == '*':
            return T.mul(x, y), root2(T.mul(ux, y), T.mul(uy, x))
        return T.div(x, y), root2(T.div(ux, y), T.mul(x, uy, T.inv(sq(y))))

    def binary(op, u, v, ka, kb, s1=('n',), s2=('n',), inplace=False, dt='float64'):
        a, x, ux, base = make('a', u, ka, s1, dt)
        b, y, uy, _ = make('b', v, kb, s2, dt)
        val, unc = formula(op, x, ux, y, uy)
        sa, sb = W.snap(a), W.snap(b)
        da, db = (dims_of(u) if u else {}), (dims_of(v) if v else {})
        if op in '+-':
            dims = da if ka in 'uvz' else db
            if ka in 'uvz' and kb in 'uvz' or kb == 'q':
                dims = da
        else:
            dims = comb(da, db, 1 if op == '*' else -1)
        src = 'r = a; r %s= b' % op if inplace else 'r = a %s b' % op
        what = '%s with a %s in %s, b %s in %s' % (src, ka, u, kb, v)
        r = W.do(src, what, a=a, b=b)['r']
        if op in '+-':
            # the units may be those of either operand
            d = W.dims(r)
            want(what, any(set(d) == set(z) for z in (da, db)), 'has the units %s' % spec.showdims(d))
            dims = d
        want_unc(what, r, val, unc, dims, bshape(W, s1, s2))
        if inplace:
            want(what, r is a, 'is another object')
        else:
            W.unchanged(what, sa, a)
        W.unchanged(what, sb, b)

    UQ = 'uz'
    for op in '+-':
        for u, v in SAME:
            for ka, kb in ('uu', 'uq', 'qu', 'uz', 'zu'):
                S.add('%s %s %s %s %s' % (ka, u, op, kb, v), binary, op, u, v, ka, kb)
            S.add('%s= of %s and %s' % (op, u, v), binary, op, u, v, 'u', 'u', inplace=True)
            S.add('%s= of %s and exact %s' % (op, u, v), binary, op, u, v, 'u', 'q', inplace=True)
        for u in ('pq.dimensionless', 'ratA', 'pq.percent'):
            for kb, s2 in (('a', ('n',)), ('f', ()), ('i', ())):
                S.add('uncertain %s %s plain %s' % (u, op, kb), binary, op, u, '', 'u', kb, s2=s2)
                S.add('plain %s %s uncertain %s' % (kb, op, u), binary, op, '', u, kb, 'u', s1=s2)
        for s1, s2 in SHAPEPAIRS:
            S.add('%s with shapes %s %s' % (op, s1, s2), binary, op, 'lenA', 'lenB', 'u', 'u', s1, s2)
            S.add('%s with an exact operand of shapes %s %s' % (op, s1, s2), binary, op, 'lenA', 'lenB', 'u', 'q', s1, s2)
        for u, v in (('lenA', 'lenB'), ('lenA', 'lenA'), ('pq.m', 'pq.km')):
            S.add('uncertain %s %s unit %s' % (u, op, v), binary, op, u, v, 'u', 'unit', s2=())
            S.add('unit %s %s uncertain %s' % (u, op, v), binary, op, u, v, 'unit', 'u', s1=())
        S.add('%s of integers' % op, binary, op, 'lenA', 'lenB', 'u', 'u', dt='int64')
    for op in '*/':
        for u, v in OTHER:
            for ka, kb in ('uu', 'uq', 'qu', 'uz', 'zu'):
                S.add('%s %s %s %s %s' % (ka, u, op, kb, v), binary, op, u, v, ka, kb)
            for kb in 'uq':
                S.add('%s= of %s and %s %s' % (op, u, kb, v), binary, op, u, v, 'u', kb, inplace=True)
            S.add('uncertain %s %s unit %s' % (u, op, v), binary, op, u, v, 'u', 'unit', s2=())
            S.add('unit %s %s uncertain %s' % (u, op, v), binary, op, u, v, 'unit', 'u', s1=())
        for u in ('lenA', 'frcA', 'ratA', 'pq.dimensionless', 'lenA/timA'):
            for kb, s2 in (('a', ('n',)), ('f', ()), ('i', ())):
                S.add('uncertain %s %s plain %s' % (u, op, kb), binary, op, u, '', 'u', kb, s2=s2)
                S.add('plain %s %s uncertain %s' % (kb, op, u), binary, op, '', u, kb, 'u', s1=s2)
                S.add('uncertain %s %s= plain %s' % (u, op, kb), binary, op, u, '', 'u', kb, s2=s2, inplace=True)
        for s1, s2 in SHAPEPAIRS:
            S.add('%s with shapes %s %s' % (op, s1, s2), binary, op, 'lenA', 'timA', 'u', 'u', s1, s2)
            S.add('%s with an exact operand of shapes %s %s' % (op, s1, s2), binary, op, 'lenA', 'timA', 'u', 'q', s1, s2)
            S.add('%s with an exact first operand of shapes %s %s' % (op, s1, s2), binary, op, 'lenA', 'timA', 'q', 'u', s1, s2)
            if s1 == () or s2 == ():
                S.add('%s with a plain array of shapes %s %s' % (op, s1, s2), binary, op, 'lenA', '', 'u', 'a', s1, s2)

    # numbers of either sign, powers
    def relative(u, kind, sh, dt='float64'):
        x, v, e, base = make('a', u, kind, sh, dt)
        b = W.snap(x)
        what = 'relative_uncertainty of %s' % u
        r = W.ev('x.relative_uncertainty', what, x=x)
        if W.isq(r):
            W.want_units(what, r, {})
        m = W.mag(r)
        # (its sign is that of the value, or none)
        want_same(what, sq(m), sq(T.div(e, v)))
        want_shape(what, W.shape(r), shp(W, sh))
        W.unchanged(what, b, x)
    for u in ('lenA', 'frcA', 'ratA', 'pq.dimensionless', 'pq.km', 'lenA**-1'):
        for kind in 'uvz':
            for sh in (('n',), (), ('n', 'k'), (1,), (0,)):
                S.add('relative_uncertainty of %s, %s, %s' % (u, kind, sh), relative, u, kind, sh)
    S.add('relative_uncertainty of integers', relative, 'lenA', 'u', ('n',), 'int64')

    def factor(src, c):
        a, x, ux, _ = make('a', 'frcA', 'u', ('n',))
        sa = W.snap(a)
        r = W.ev(src, a=a)
        want_unc(src, r, T.mul(C(c), x), T.mul(C(abs(T.Fraction(c))), ux), dims_of('frcA'), (n,))
        W.unchanged(src, sa, a)
    for src, c in (('a*2', 2), ('2*a', 2), ('a*-3', -3), ('-3*a', -3), ('-a', -1), ('a/4', '1/4'), ('a/-4', '-1/4'), ('a*0.5', '1/2'), ('a*-2.5', '-5/2'), ('-2.5*a', '-5/2'),
                   ('a*np.float64(-2.0)', -2), ('np.array(-2.0)*a', -2), ('a*np.array(-2.0)', -2), ('a*0', 0), ('-(-a)', 1), ('a*True', 1)):
        S.add(src, factor, src, c)

    def power(u, p, form, sh=('n',)):
        a, x, ux, _ = make('a', u, 'u', sh)
        sa = W.snap(a)
        t = C(p)
        what = '%s of %s' % (form, u)
        r = W.do('r = a; ' + form, what, a=a)['r']
        want_unc(what, r, T.power(x, t), T.absolute(T.mul(t, T.power(x, T.sub(t, ONE)), ux)), powd(dims_of(u), t), shp(W, sh))
        if '=' in form.split('r ', 1)[1][:4] and '**=' in form:
            want(what, r is a, 'is another object')
        else:
            W.unchanged(what, sa, a)
    for u in ('lenA', 'frcA', 'ratA', 'pq.dimensionless', 'lenA/timA', 'pq.km'):
        for p in ('2', '3', '-1', '-2', '0.5', '1', '1.5', '-0.5', '0', '4'):
            S.add('%s**%s' % (u, p), power, u, T.Fraction(p), 'r = a**%s' % p)
            if p in ('2', '-1', '0.5', '3', '-2'):
                S.add('%s**=%s' % (u, p), power, u, T.Fraction(p), 'r **= %s' % p)
        S.add('sqrt of %s' % u, power, u, T.Fraction('1/2'), 'r = a.sqrt()')
    for sh in ((), ('n', 'k'), (1,), (1, 1), (0,)):
        S.add('power with shape %s' % (sh,), power, 'lenA', T.Fraction(3), 'r = a**3', sh)
    S.add('power with a NumPy exponent', power, 'lenA', T.Fraction(2), 'r = a**np.float64(2.0)')

    # reciprocals
    def recip(u, src, c):
        a, x, ux, _ = make('a', u, 'u', ('n',))
        sa = W.snap(a)
        r = W.ev(src, a=a)
        want_unc(src, r, T.div(C(c), x), T.mul(C(abs(c)), ux, T.inv(sq(x))), powd(dims_of(u), C(-1)), (n,))
        W.unchanged(src, sa, a)
    for u in ('lenA', 'frcA', 'ratA', 'pq.dimensionless'):
        for src, c in (('1/a', 1), ('2.0/a', 2), ('-3/a', -3)):
            S.add('%s of %s' % (src, u), recip, u, src, c)

    # NumPy's own numbers on the left
    S.add('np.float64(-2.0)*a', factor, 'np.float64(-2.0)*a', -2)
    S.add('np.float64(-3.0)/a', recip, 'lenA', 'np.float64(-3.0)/a', -3)
    for src, c in (('np.float64(2.0) + a', 1), ('np.float64(2.0) - a', -1)):
        def shifted(src, c):
            a, x, ux, _ = make('a', 'pq.dimensionless', 'u', ('n',))
            want_unc(src, W.ev(src, a=a), T.add(C(2), T.mul(C(c), x)), ux, {}, (n,))
        S.add(src, shifted, src, c)

    # sums and means
    def reduce(u, src, sh, axis, kind):
        a, x, ux, _ = make('a', u, 'u', sh)
        sa = W.snap(a)
        what = '%s of %s with shape %s' % (src, u, sh)
        r = W.ev(src, what, a=a)
        p = lambda t, f: W.mag(W.ev('np.%s(v%s)' % (f, '' if axis is None else ', %d' % axis), v=N.plain(t, shp(W, sh), F8)))
        cnt = [d for i, d in enumerate(shp(W, sh)) if axis is None or i == axis % len(sh)]
        cnt = T.mul(*[N.dterm(d) for d in cnt])
        val = p(x, 'sum' if kind == 'sum' else 'mean')
        unc = T.power(p(sq(ux), 'sum'), HALF)
        if kind == 'mean':
            unc = T.div(unc, cnt)
        osh = () if axis is None else tuple(d for i, d in enumerate(shp(W, sh)) if i != axis % len(sh))
        want_unc(what, r, val, unc, dims_of(u), osh)
        W.unchanged(what, sa, a)
    for u in ('lenA', 'frcA', 'ratA', 'pq.dimensionless'):
        for f in ('sum', 'mean'):
            S.add('%s of %s' % (f, u), reduce, u, 'a.%s()' % f, ('n',), None, f)
            S.add('np.%s of %s' % (f, u), reduce, u, 'np.%s(a)' % f, ('n',), None, f)
            S.add('%s of %s, two axes' % (f, u), reduce, u, 'a.%s()' % f, ('n', 'k'), None, f)
            for ax in (0, 1, -1):
                S.add('%s of %s along %d' % (f, u, ax), reduce, u, 'a.%s(%d)' % (f, ax), ('n', 'k'), ax, f)
                S.add('%s of %s with axis=%d' % (f, u, ax), reduce, u, 'a.%s(axis=%d)' % (f, ax), ('n', 'k'), ax, f)
    S.add('pq.sum', reduce, 'lenA', 'pq.sum(a)', ('n',), None, 'sum')

    # elements of a small array, one by one
    def three(src, f, c):
        a, b, e = (T.sym(s, True) for s in 'abe')
        ua, ub, ue = (T.sym(s, True, True) for s in ('ua', 'ub', 'ue'))
        kw = {s: W.num(s) for s in 'abe'}
        kw.update({s: W.num(s, positive=True) for s in ('ua', 'ub', 'ue')})
        r = W.ev(src.replace('Q', 'pq.UncertainQuantity([a, b, e], lenA, [ua, ub, ue])'), **kw)
        l = W.r['A']
        want_unc(src, r, T.mul(l, C(c), T.add(a, b, e)), T.mul(l, C(c), root2(ua, ub, ue)), dims_of('lenA'), ())
    for src, f, c in (('Q.sum()', 'sum', 1), ('Q.mean()', 'mean', '1/3'), ('Q[0] + Q[1] + Q[2]', 'sum', 1), ('(Q[0] + Q[1] + Q[2])/3', 'mean', '1/3'), ('(2*Q).sum()', 'sum', 2),
                      ('np.sum(Q)', 'sum', 1), ('np.mean(Q)', 'mean', '1/3')):
        S.add(src + ' of three values', three, src, f, c)

    # values that are not numbers do not count
    def nans(src, c):
        a, e, ua, ue = T.sym('a', True), T.sym('e', True), T.sym('ua', True, True), T.sym('ue', True, True)
        kw = {'a': W.num('a'), 'e': W.num('e')}
        kw.update({s: W.num(s, positive=True) for s in ('ua', 'ub', 'ue')})
        r = W.ev(src.replace('Q', 'pq.UncertainQuantity([a, np.nan, e], lenA, [ua, ub, ue])'), **kw)
        W.want_q(src, r, 'UncertainQuantity')
        W.want_mag(src + ' with NaN: uncertainty', W.unc(r), T.mul(C(c), root2(ua, ue)))
    for src, c in (('Q.nansum()', 1), ('Q.nanmean()', '1/2'), ('Q.nansum(0)', 1), ('Q.nanmean(axis=0)', '1/2'), ('(2*Q).nansum()', 2)):
        S.add(src + ' with NaN', nans, src, c)

    # along an axis, whichever values are not numbers
    def nanred(u, f, sh, ax, via):
        a, x, ux, _ = make('a', u, 'u', sh)
        sa = W.snap(a)
        arg = '' if ax is None else '%d' % ax
        src = 'np.%s(a%s)' % (f, arg and ', ' + arg) if via == 'np' else 'a.%s(%s%s)' % (f, via, arg)
        what = '%s of %s with shape %s' % (src, u, sh)
        r = W.ev(src, what, a=a)
        v = W.ev('_a.magnitude', _a=a)
        e = W.ev('_a.uncertainty.magnitude', _a=a)
        W.want_q(what, r, 'UncertainQuantity')
        W.want_mag(what, r, W.mag(W.ev('np.%s(v, %s)' % (f, ax), v=v)))
        den = 'np.sum(~np.isnan(v), %s)' % ax if f == 'nanmean' else '1'
        ref = W.ev('((1.0/%s)**2*np.nansum(np.nan_to_num(e*~np.isnan(v))**2, %s))**0.5' % (den, ax), v=v, e=e)
        W.want_mag(what + ': uncertainty', W.unc(r), W.mag(ref))
        W.want_units(what, r, dims_of(u))
        W.want_units(what + ': uncertainty', W.unc(r), dims_of(u))
        W.unchanged(what, sa, a)
    for f in ('nansum', 'nanmean'):
        for u in ('lenA', 'frcA', 'pq.m'):
            for sh, axes in ((('n',), (None, 0, -1)), (('n', 'k'), (None, 0, 1, -1)), ((2, 3), (None, 0, 1)), (('n', 'k', 2), (0, 1, 2, -2))):
                for ax in axes:
                    for via in ('', 'axis=') if ax is not None else ('',):
                        S.add('%s of %s with shape %s along %s%s' % (f, u, sh, via, ax), nanred, u, f, sh, ax, via)

    # longer expressions
    def expr(src, val, terms, dims):
        """uncertainty: in quadrature of the listed contributions"""
        kw, sc = {}, {}
        for nm, u in (('a', 'lenA'), ('b', 'timA'), ('c', 'lenB')):
            kw[nm] = make(nm, u, 'u', ('n',))[0]
        snaps = {nm: W.snap(v) for nm, v in kw.items()}
        r = W.ev(src, **kw)
        want_unc(src, r, val, root2(*terms), dims, (n,))
        for nm, v in kw.items():
            W.unchanged(src, snaps[nm], v)
    rA, rB, rT = (W.r[x] for x in 'ABT')
    a, b, c = (T.mul(s, T.sym(x)) for s, x in ((rA, 'a'), (rT, 'b'), (rB, 'c')))
    ua, ub, uc = (T.mul(s, T.sym('u' + x, False, True, False, True)) for s, x in ((rA, 'a'), (rT, 'b'), (rB, 'c')))
    for src, val, terms, dims in (
            ('(a + c)/b', T.div(T.add(a, c), b), [T.div(ua, b), T.div(uc, b), T.mul(T.add(a, c), ub, T.inv(sq(b)))], 'lenA/timA'),
            ('(a - c)*b', T.mul(T.sub(a, c), b), [T.mul(ua, b), T.mul(uc, b), T.mul(T.sub(a, c), ub)], 'lenA*timA'),
            ('a*b/c', T.mul(a, b, T.inv(c)), [T.mul(ua, b, T.inv(c)), T.mul(a, ub, T.inv(c)), T.mul(a, b, uc, T.inv(sq(c)))], 'lenA*timA/lenB'),
            ('3*a - 2*c', T.sub(T.mul(C(3), a), T.mul(C(2), c)), [T.mul(C(3), ua), T.mul(C(2), uc)], 'lenA'),
            ('a/b**2', T.mul(a, T.power(b, C(-2))), [T.mul(ua, T.power(b, C(-2))), T.mul(C(2), a, ub, T.power(b, C(-3)))], 'lenA/timA**2'),
            ('(a**2 + c**2)', T.add(sq(a), sq(c)), [T.mul(C(2), a, ua), T.mul(C(2), c, uc)], 'lenA**2'),
            ('-a + c', T.sub(c, a), [ua, uc], 'lenA'),
            ('1/(a*b)', T.inv(T.mul(a, b)), [T.mul(ua, T.inv(T.mul(sq(a), b))), T.mul(ub, T.inv(T.mul(a, sq(b))))], 'lenA**-1*timA**-1'),
            ('(a.rescale(lenB) + c).rescale(lenA)', T.add(a, c), [ua, uc], 'lenA'),
            ('a.simplified*b.simplified', T.mul(a, b), [T.mul(ua, b), T.mul(a, ub)], 'pq.m*pq.s')):
        S.add(src, expr, src, val, terms, dims_of(dims))

    # exact results stay exact
    def exact(src):
        z = W.ev('pq.UncertainQuantity(v, lenA)', v=W.vec('v', n))
        r = W.ev(src, z=z)
        W.want_mag(src + ': uncertainty', W.unc(r), ZERO)
    for src in ('z + z', 'z*z', 'z/z', '2*z', 'z**2', '-z', 'z.sum()', 'z.mean()', 'z - lenA', 'z*lenA', '1/z', 'z.sqrt()', 'z + pq.Quantity(np.ones(1), lenB)'):
        S.add('exact ' + src, exact, src)
    # other dimensions are refused
    for op in '+-':
        for u, v in (('lenA', 'timA'), ('lenA', 'lenA**2'), ('lenA', 'pq.dimensionless'), ('velA', 'lenA')):
            for ka, kb in ('uu', 'uq', 'qu'):
                def refused(op, u, v, ka, kb, inplace):
                    a, b = make('a', u, ka, ('n',))[0], make('b', v, kb, ('n',))[0]
                    sa, sb = W.snap(a), W.snap(b)
                    src = 'a %s= b' % op if inplace else '_r = a %s b' % op
                    W.refuse(src, ('ValueError',), '%s with %s %s, %s %s' % (src, ka, u, kb, v), a=a, b=b)
                    W.unchanged(src, sa, a)
                    W.unchanged(src, sb, b)
                S.add('%s %s %s %s %s refused' % (ka, u, op, kb, v), refused, op, u, v, ka, kb, False)
                S.add('%s %s %s= %s %s refused' % (ka, u, op, kb, v), refused, op, u, v, ka, kb, True)
    return S.items, {}
