from .common import *
from qsa import np_names

TITLE = 'NumPy elementwise functions give right units or are refused'
LEVEL = 'other'
FLOOR = 900
EXPLAIN = ('abstract interpretation of every NumPy elementwise function applied to quantities: symbolic values and unit '
           'scales, an output array supplied or not; the value and units are those of the function on the physical '
           'values, or the call is refused')

COPY = ['absolute', 'abs', 'fabs', 'conjugate', 'conj', 'negative', 'rint', 'floor', 'ceil']
COPY_OR = ['trunc', 'positive']
POWER = {'sqrt': '1/2', 'square': 2, 'reciprocal': -1}
POWER_OR = {'cbrt': '1/3'}
DIMLESS = ['exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p']
TRIG = ['sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh']
ARC = ['arcsin', 'arccos', 'arctan', 'arcsinh', 'arccosh', 'arctanh']
ARC2 = ['asin', 'acos', 'atan', 'asinh', 'acosh', 'atanh']
PRED = ['isnan', 'isinf', 'isfinite']
UNIFORM = ['add', 'subtract', 'mod', 'fmod', 'remainder', 'hypot', 'maximum', 'minimum']
UNIFORM_OR = ['fmax', 'fmin']
PRODUCT = {'multiply': 1, 'divide': -1, 'true_divide': -1, 'floor_divide': -1}
COMPARE = ['equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal']
PLAIN_OK = ['sign', 'signbit', 'logical_not', 'logical_and', 'logical_or', 'logical_xor']   # (no units needed)
KNOWN = set(COPY + COPY_OR + list(POWER) + list(POWER_OR) + DIMLESS + TRIG + ARC + ARC2 + PRED + UNIFORM + UNIFORM_OR +
            list(PRODUCT) + COMPARE + PLAIN_OK + ['degrees', 'radians', 'deg2rad', 'rad2deg', 'arctan2', 'atan2',
                                                  'logaddexp', 'logaddexp2', 'power', 'pow', 'float_power', 'copysign',
                                                  'matmul', 'vecdot', 'divmod', 'modf', 'frexp'])


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'

    def si_check(what, term, base, plain_ok=False):
        def check(r):
            if not W.isq(r) and plain_ok:
                return W.want_plain(what, r, term)
            W.want_value(what, r, term, base)
        return check

    def out_forms(name, nin):
        args = ', '.join('ab'[:nin])
        yield 'np.%s(%s)' % (name, args)
        yield 'np.%s(%s, out=o)' % (name, args)
        if thorough:
            yield 'np.%s(%s, o)' % (name, args)

    def call(src, args, check, units='timA', shape=None):
        """run src with the quantities args; check the result; the operands are left alone"""
        kw = dict(args)
        o = None
        if 'o)' in src:
            o = kw['o'] = operand(W, 'o', units, shape)
        snaps = {k: W.snap(v) for k, v in args.items()}
        r = W.ev(src, **kw)
        if o is not None:
            want(src, r is o, 'did not return the output array')
        check(r)
        for k, v in args.items():
            W.unchanged(src, snaps[k], v, 'operand ' + k)

    def like(what, term, dims):
        def check(r):
            W.want_q(what, r)
            W.want_units(what, r, dims)
            W.want_mag(what, r, term)
        return check

    UN = ['lenA', 'frcA', 'lenA/timA', 'ratA', 'pq.dimensionless', 'pq.radian']
    for name in COPY:
        for u in UN:
            for src in out_forms(name, 1):
                def f(name, u, src):
                    a = operand(W, 'a', u)
                    call(src, {'a': a}, like(src, raw({'abs': 'absolute', 'conj': 'conjugate'}.get(name, name), W.mag(a)), dims_of(u)))
                S.add('%s of %s' % (src, u), f, name, u, src)
    for name, k in POWER.items():
        for u in UN:
            for src in out_forms(name, 1):
                def f(name, k, u, src):
                    a = operand(W, 'a', u, positive=True)
                    k = C(T.Fraction(k))
                    call(src, {'a': a}, like(src, T.power(W.mag(a), k), powd(dims_of(u), k)))
                S.add('%s of %s' % (src, u), f, name, k, u, src)

    # a rule that is missing today may be added; a wrong one may not
    def either(src, args, check):
        snaps = {k: W.snap(v) for k, v in args.items()}
        refused_or(W, '_r = ' + src, check, **args)
        for k, v in args.items():
            W.unchanged(src, snaps[k], v, 'operand ' + k)

    for name in COPY_OR + list(POWER_OR):
        for u in UN:
            def f(name, u):
                src = 'np.%s(a)' % name
                a = operand(W, 'a', u, positive=True)
                k = C(T.Fraction(POWER_OR.get(name, 1)))
                either(src, {'a': a}, like(src, raw(name, W.mag(a)), powd(dims_of(u), k)))
            S.add('np.%s(a) of %s' % (name, u), f, name, u)

    # functions of pure numbers
    for name in DIMLESS:
        for src in out_forms(name, 1):
            def f(name, src):
                a = operand(W, 'a', 'pq.dimensionless', positive=True)
                call(src, {'a': a}, like(src, raw(name, W.mag(a)), {}))
            S.add('%s of a pure number' % src, f, name, src)
    for name in DIMLESS + ['sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh'] + ARC + ARC2:
        for u in ('lenA', 'frcA', 'lenA**-1', 'lenA/timA', 'timA**0.5', 'lenA**2', 'pq.kg', 'pq.km'):
            def f(name, u):
                a = operand(W, 'a', u, positive=True)
                k = W.snap(a)
                src = 'np.%s(a)' % name
                W.refuse('_r = ' + src, ('ValueError', 'TypeError'), '%s of %s' % (src, u), a=a)
                W.unchanged(src, k, a)
            S.add('np.%s(a) of %s refused' % (name, u), f, name, u)
    for name in DIMLESS + ARC:
        for u in ('ratA', 'pq.percent', 'lenA/lenB', 'lenA/pq.km', 'ratA*ratB', 'pq.radian', 'pq.degree'):
            def f(name, u):
                a = operand(W, 'a', u, positive=True)
                src = 'np.%s(a)' % name
                either(src, {'a': a}, si_check('%s of %s' % (src, u), raw(name, W.si(a)[0]), {}, True))
            S.add('np.%s(a) of %s' % (name, u), f, name, u)

    # angles
    for name in TRIG:
        for src in out_forms(name, 1):
            def f(name, src):
                a = operand(W, 'a', 'pq.radian', positive=True)
                call(src, {'a': a}, like(src, raw(name, W.mag(a)), {}))
            S.add('%s of radians' % src, f, name, src)
        for u in ('pq.degree', 'pq.dimensionless', 'ratA', 'pq.percent', 'pq.radian**2', 'pq.radian**-1', 'pq.degree*pq.radian'):
            def f(name, u):
                a = operand(W, 'a', u, positive=True)
                src = 'np.%s(a)' % name
                either(src, {'a': a}, si_check('%s of %s' % (src, u), raw(name, W.si(a)[0]), {}, True))
            S.add('np.%s(a) of %s' % (name, u), f, name, u)
    for name in ARC + ARC2:
        for src in out_forms(name, 1):
            def f(name, src):
                a = operand(W, 'a', 'pq.dimensionless', positive=True)
                call(src, {'a': a}, like(src, raw(np_names.UFUNCS[name][0], W.mag(a)), {'radian': ONE}))
            S.add('%s of a pure number' % src, f, name, src)
    for name, u, v in (('degrees', 'pq.radian', 'arcdegree'), ('radians', 'pq.degree', 'radian'),
                       ('rad2deg', 'pq.radian', 'arcdegree'), ('deg2rad', 'pq.degree', 'radian')):
        def f(name, u, v):
            a = operand(W, 'a', u)
            src = 'np.%s(a)' % name
            check = si_check(src, W.si(a)[0], {})
            either(src, {'a': a}, lambda r: (check(r), W.want_units(src, r, {v: ONE})))
        S.add('np.%s(a) of %s' % (name, u), f, name, u, v)
        if name in ('degrees', 'radians'):
            for src in out_forms(name, 1):
                def f(name, u, v, src):
                    a = operand(W, 'a', u)
                    check = si_check(src, W.si(a)[0], {})
                    call(src, {'a': a}, lambda r: (check(r), W.want_units(src, r, {v: ONE})))
                S.add('%s of %s accepted' % (src, u), f, name, u, v, src)
        for w in ('lenA', 'timA**-1', 'pq.kg') + (('pq.degree',) if u == 'pq.radian' else ('pq.radian',)):
            def f(name, w):
                a = operand(W, 'a', w)
                k = W.snap(a)
                src = 'np.%s(a)' % name
                W.refuse('_r = ' + src, ('ValueError', 'TypeError'), '%s of %s' % (src, w), a=a)
                W.unchanged(src, k, a)
            S.add('np.%s(a) of %s refused' % (name, w), f, name, w)

    for name in PRED:
        for u in UN:
            def f(name, u):
                a = operand(W, 'a', u)
                src = 'np.%s(a)' % name
                r = W.ev(src, a=a)
                W.want_plain(src, r, raw(name, W.mag(a)))
            S.add('np.%s(a) of %s' % (name, u), f, name, u)

    # functions that need like operands
    same = [('lenA', 'lenA'), ('frcA', 'frcA'), ('lenA/timA', 'lenA/timA'), ('ratA', 'ratA'), ('lenA**0.5', 'lenA**0.5'),
            ('lenA*timA', 'timA*lenA'), ('pq.dimensionless', 'pq.dimensionless')]
    alike = [('lenA', 'lenB'), ('velA', 'lenA/timA'), ('frcA', 'masA*lenB/timB**2'), ('pq.m', 'pq.km'), ('ratA', 'ratB'),
             ('ratA', 'pq.dimensionless'), ('pq.dimensionless', 'ratA'), ('pq.percent', 'pq.dimensionless'),
             ('lenA/lenB', 'pq.dimensionless'), ('lenA**2', 'lenB**2')] + TWIN_ALIKE
    unlike = [('lenA', 'timA'), ('lenA', 'lenA**2'), ('lenA', 'pq.dimensionless'), ('pq.dimensionless', 'lenA'),
              ('lenA', 'lenA**-1'), ('lenA/timA', 'timA/lenA'), ('pq.kg', 'pq.m'), ('lenA', 'ratA'), ('lenA**-1', 'lenA**-2')] + TWIN_UNLIKE
    alike, unlike = list(dict.fromkeys(alike)), list(dict.fromkeys(unlike))
    for name in UNIFORM + UNIFORM_OR + ['arctan2', 'copysign']:
        for ua, ub in same:
            for src in (out_forms(name, 2) if name in UNIFORM + ['arctan2'] else ['np.%s(a, b)' % name]):
                def f(name, ua, ub, src):
                    a, b = operand(W, 'a', ua), operand(W, 'b', ub)
                    t = raw(name, W.mag(a), W.mag(b))
                    if name in UNIFORM:
                        call(src, {'a': a, 'b': b}, like(src, t, dims_of(ua)))
                    elif name == 'arctan2':
                        call(src, {'a': a, 'b': b}, si_check(src, t, {}))
                    else:
                        either(src, {'a': a, 'b': b}, like(src, t, dims_of(ua)))
                S.add('%s of %s and %s' % (src, ua, ub), f, name, ua, ub, src)
        for ua, ub in alike:
            def f(name, ua, ub):
                a, b = operand(W, 'a', ua), operand(W, 'b', ub)
                src = 'np.%s(a, b)' % name
                (va, base), vb = W.si(a), W.si(b)[0]
                either(src, {'a': a, 'b': b}, si_check(src, raw(name, va, vb), {} if name == 'arctan2' else base))
            S.add('np.%s(a, b) of %s and %s' % (name, ua, ub), f, name, ua, ub)
        for ua, ub in unlike:
            if name == 'copysign':
                continue
            def f(name, ua, ub):
                a, b = operand(W, 'a', ua), operand(W, 'b', ub)
                ka, kb = W.snap(a), W.snap(b)
                src = 'np.%s(a, b)' % name
                W.refuse('_r = ' + src, ('ValueError', 'TypeError'), '%s of %s and %s' % (src, ua, ub), a=a, b=b)
                W.unchanged(src, ka, a)
                W.unchanged(src, kb, b)
            S.add('np.%s(a, b) of %s and %s refused' % (name, ua, ub), f, name, ua, ub)
        for u in ('lenA', 'frcA'):
            for src in ('np.%s(a, v)' % name, 'np.%s(v, a)' % name):
                if name == 'copysign':
                    continue
                def f(src, u):
                    a, v = operand(W, 'a', u), W.arr('v', (W.dim('n'),), positive=True)
                    k = W.snap(a)
                    W.refuse('_r = ' + src, ('ValueError', 'TypeError', 'AttributeError'), src + ' with a plain array', a=a, v=v)
                    W.unchanged(src, k, a)
                S.add('%s of %s refused' % (src, u), f, src, u)

                def g(src, u, name):
                    # (zeros may be accepted: they are zero in any units)
                    a, v = operand(W, 'a', u), W.arr('v', (W.dim('n'),))
                    k = W.snap(a)
                    try:
                        r = W.run('_r = ' + src, a=a, v=v)['_r']
                    except spec.PyRaise as e:
                        want(src, any(c.name in ('ValueError', 'TypeError', 'AttributeError') for c in e.exc.cls.mro), 'raised %s at %s' % (e.exc.cls.name, e.where))
                    else:
                        if paths.truth(T.fn('any', W.mag(v))):
                            fail(src + ' with a plain array that is not all zero', 'was accepted, giving %s' % W.show(r))
                    done('refused')
                    W.unchanged(src, k, a)
                S.add('%s of %s, array with zeros' % (src, u), g, src, u, name)

        # arrays of numbers that are not all zero, whatever they add up to
        for vals in ('[1., -1.]', '[-1., 0.]', '[0, -2]', '[0., 1.]', '[1., 0.]', '[0, 0, 1]', '[0., 1., 0.]', '[-1., 0., 1.]', '[[0., 2.], [-2., 0.]]'):
            for src in ('np.%s(a, v)' % name, 'np.%s(v, a)' % name):
                if name == 'copysign':
                    continue
                def f(src, vals):
                    a, v = operand(W, 'a', 'lenA', (2, 2) if '[[' in vals else (1 + vals.count(','),), positive=True), W.ev('np.array(%s)' % vals)
                    k = W.snap(a)
                    W.refuse('_r = ' + src, ('ValueError', 'TypeError', 'AttributeError'), src + ' with the plain array ' + vals, a=a, v=v)
                    W.unchanged(src, k, a)
                S.add('%s with the plain array %s refused' % (src, vals), f, src, vals)

    for name in UNIFORM:
        for plain in ('3', '2.5', 'np.float64(2.5)', 'np.array(2.5)'):
            for swap in (False, True):
                for o in (')', ', out=o)'):
                    src = ('np.%s(%s, a' if swap else 'np.%s(a, %s') % (name, plain) + o

                    def f(name, src, plain, swap):
                        a = operand(W, 'a', 'pq.dimensionless', positive=True)
                        ts = [W.mag(a), C(T.Fraction('3' if plain == '3' else '5/2'))]
                        if swap:
                            ts.reverse()
                        k, o = W.snap(a), operand(W, 'o', 'timA')
                        check = si_check(src, raw(name, *ts), {})
                        refused_or(W, '_r = ' + src, lambda r: (check(r), want(src, 'out=o' not in src or r is o, 'did not return the output array')), a=a, o=o)
                        W.unchanged(src, k, a)
                    S.add(src + ' with a pure number', f, name, src, plain, swap)

    for name in ('power', 'float_power'):
        for vals in ('[1., 2.]', '[3., 2.]', '[2., 3., 2.]', '[2., 2., 3.]', '[3., 2., 2.]', '[0., 1., 0.]', '[[2., 3.], [3., 2.]]', '[[2., 2.], [3., 3.]]'):
            for u in ('lenA', 'velA', 'ratA'):
                def f(name, vals, u):
                    a = operand(W, 'a', u, (2, 2) if '[[' in vals else (1 + vals.count(','),), positive=True)
                    src = 'np.%s(a, np.array(%s))' % (name, vals)
                    k = W.snap(a)
                    W.refuse('_r = ' + src, ('ValueError', 'TypeError'), src, a=a)
                    W.unchanged(src, k, a)
                S.add('np.%s of %s and %s refused' % (name, u, vals), f, name, vals, u)

    for name, sgn in PRODUCT.items():
        for ua, ub in same + alike + unlike:
            for src in out_forms(name, 2):
                def f(name, ua, ub, src):
                    a, b = operand(W, 'a', ua), operand(W, 'b', ub)
                    call(src, {'a': a, 'b': b}, like(src, raw(name, W.mag(a), W.mag(b)), comb(dims_of(ua), dims_of(ub), PRODUCT[name])))
                S.add('%s of %s and %s' % (src, ua, ub), f, name, ua, ub, src)
        for src, swap in (('np.%s(a, v)' % name, False), ('np.%s(v, a)' % name, True), ('np.%s(a, v, out=o)' % name, False), ('np.%s(v, a, out=o)' % name, True)):
            def f(name, src, swap):
                a, v = operand(W, 'a', 'lenA/timA'), W.vec('v', W.dim('n'))
                ts = [W.mag(a), W.mag(v)]
                d = dims_of('lenA/timA')
                if swap:
                    ts.reverse()
                    d = powd(d, C(PRODUCT[name]))
                call(src, {'a': a, 'v': v}, like(src, raw(name, *ts), d))
            S.add(src + ' with a plain array', f, name, src, swap)
        for plain in ('3', '2.5', 'np.float64(2.5)', 'np.array(2.5)'):
            for swap in (False, True):
                for o in (', out=o)', ', out=a)', ')'):
                    src = ('np.%s(%s, a' if swap else 'np.%s(a, %s') % (name, plain) + o

                    def f(name, src, plain, swap, o):
                        a = operand(W, 'a', 'lenA/timA')
                        ts = [W.mag(a), C(T.Fraction('3' if plain == '3' else '5/2'))]
                        d = dims_of('lenA/timA')
                        if swap:
                            ts.reverse()
                            d = powd(d, C(PRODUCT[name]))
                        check = like(src, raw(name, *ts), d)
                        if 'out=a' not in o:
                            return call(src, {'a': a}, check)
                        r = W.ev(src, a=a)
                        want(src, r is a, 'did not return the output array')
                        check(r)
                    S.add(src + ' with a plain number', f, name, src, plain, swap, o)
        # the output array may be an operand
        for o in ('a', 'b'):
            def f(name, o):
                a, b = operand(W, 'a', 'lenA'), operand(W, 'b', 'timA')
                src = 'np.%s(a, b, out=%s)' % (name, o)
                t = raw(name, W.mag(a), W.mag(b))
                r = W.ev(src, a=a, b=b)
                want(src, r is {'a': a, 'b': b}[o], 'did not return the output array')
                like(src, t, comb(dims_of('lenA'), dims_of('timA'), PRODUCT[name]))(r)
            S.add('np.%s(a, b, out=%s)' % (name, o), f, name, o)

    for name in ('logaddexp', 'logaddexp2'):
        for src in out_forms(name, 2):
            def f(name, src):
                a, b = operand(W, 'a', 'pq.dimensionless'), operand(W, 'b', 'pq.dimensionless')
                call(src, {'a': a, 'b': b}, like(src, raw(name, W.mag(a), W.mag(b)), {}))
            S.add('%s of pure numbers' % src, f, name, src)
        for ua, ub in (('lenA', 'lenA'), ('lenA', 'pq.dimensionless'), ('pq.dimensionless', 'lenA'), ('lenA', 'timA')):
            def f(name, ua, ub):
                a, b = operand(W, 'a', ua), operand(W, 'b', ub)
                W.refuse('_r = np.%s(a, b)' % name, ('ValueError', 'TypeError'), 'np.%s of %s and %s' % (name, ua, ub), a=a, b=b)
            S.add('np.%s(a, b) of %s and %s refused' % (name, ua, ub), f, name, ua, ub)
        for ua, ub in (('ratA', 'ratB'), ('ratA', 'ratA'), ('pq.percent', 'pq.dimensionless'), ('pq.dimensionless', 'ratA')):
            def f(name, ua, ub):
                a, b = operand(W, 'a', ua), operand(W, 'b', ub)
                src = 'np.%s(a, b)' % name
                either(src, {'a': a, 'b': b}, si_check(src, raw(name, W.si(a)[0], W.si(b)[0]), {}, True))
            S.add('np.%s(a, b) of %s and %s' % (name, ua, ub), f, name, ua, ub)

    for u in ('lenA', 'frcA'):
        for k in (2, -1, 0.5, 0, 1, 3):
            for src in ('np.power(a, %r)' % k, 'np.power(a, %r, out=o)' % k):
                def f(u, k, src):
                    a = operand(W, 'a', u, positive=True)
                    t = C(T.Fraction(k))
                    call(src, {'a': a}, like(src, T.power(W.mag(a), t), powd(dims_of(u), t)))
                S.add('%s of %s' % (src, u), f, u, k, src)
            def f(u, k):
                a = operand(W, 'a', u, positive=True)
                src = 'np.float_power(a, %r)' % k
                t = C(T.Fraction(k))
                either(src, {'a': a}, like(src, T.power(W.mag(a), t), powd(dims_of(u), t)))
            S.add('np.float_power(a, %r) of %s' % (k, u), f, u, k)

    # every other elementwise function has to be refused for a quantity with units
    others = sorted(n for n, (real, i, o) in np_names.UFUNCS.items() if n not in KNOWN and real not in KNOWN)
    for name in others:
        real, nin, nout = np_names.UFUNCS[name]
        for u in ('lenA', 'lenA/timA'):
            for dt in ('float64', 'int64'):
                for plain in ((None,) if nin == 1 else (None, 0, 1)):
                    def f(name, nin, u, dt, plain):
                        args = {k: operand(W, k, u, dtype=dt) for k in 'ab'[:nin]}
                        if plain is not None:
                            args['ab'[plain]] = W.arr('v', (W.dim('n'),), dt, positive=True)
                        src = 'np.%s(%s)' % (name, ', '.join('ab'[:nin]))
                        W.refuse('_r = ' + src, ('Exception',), '%s of %s' % (src, u), **args)
                    S.add('np.%s of %s %s%s refused' % (name, u, dt, '' if plain is None else ' with plain argument %d' % plain),
                          f, name, nin, u, dt, plain)
    for name in ('divmod', 'modf', 'frexp'):
        def f(name):
            a, b = operand(W, 'a', 'lenA'), operand(W, 'b', 'lenA')
            src = 'np.%s(%s)' % (name, 'a, b' if name == 'divmod' else 'a')

            def check(r):
                if name == 'divmod':
                    like(src, raw('floor_divide', W.mag(a), W.mag(b)), {})(W.ev('r[0]', r=r))
                    like(src, raw('mod', W.mag(a), W.mag(b)), dims_of('lenA'))(W.ev('r[1]', r=r))
                else:
                    for i in ('r[0]', 'r[1]') if name == 'modf' else ('r[0]',):
                        W.want_units(src, W.ev(i, r=r), dims_of('lenA'))
            either(src, {'a': a, 'b': b}, check)
        S.add('np.%s' % name, f, name)

    # units themselves as arguments
    for src, t, d in (('np.sqrt(lenA)', ONE, 'lenA**0.5'), ('np.square(lenA)', ONE, 'lenA**2'), ('np.negative(lenA)', C(-1), 'lenA'),
                      ('np.absolute(lenA)', ONE, 'lenA'), ('np.reciprocal(lenA)', ONE, 'lenA**-1'),
                      ('np.multiply(lenA, timA)', ONE, 'lenA*timA'), ('np.divide(lenA, timA)', ONE, 'lenA/timA'),
                      ('np.add(lenA, lenA)', C(2), 'lenA'), ('np.subtract(lenA, lenA)', ZERO, 'lenA'),
                      ('np.maximum(lenA, lenA)', ONE, 'lenA'), ('np.sin(pq.radian)', T.fn('sin', ONE), 'pq.dimensionless'),
                      ('np.floor(lenA)', ONE, 'lenA'), ('np.power(lenA, 3)', ONE, 'lenA**3')):
        def f(src, t, d):
            r = W.ev(src)
            like(src, t, dims_of(d))(r)
            W.want_units('lenA after ' + src, W.ns['lenA'], dims_of('lenA'))
        S.add(src, f, src, t, d)
    for src in ('np.exp(lenA)', 'np.sin(lenA)', 'np.log(timA)', 'np.arcsin(lenA)', 'np.add(lenA, timA)', 'np.hypot(lenA, timA)'):
        S.add(src + ' refused', lambda src: W.refuse('_r = ' + src, ('ValueError', 'TypeError')), src)

    # reduction through the function objects
    for src, t in (('np.add.reduce(a)', 'sum'), ('np.maximum.reduce(a)', 'max'), ('np.minimum.reduce(a)', 'min')):
        def f(src, t):
            a = operand(W, 'a', 'lenA')
            either(src, {'a': a}, lambda r: W.want_units(src, r, dims_of('lenA')))
        S.add(src, f, src, t)

    ROUND = {'np.around(a, 2)': 'v.round(2)', 'np.round(a, 1)': 'v.round(1)', 'round(a, 1)': 'v.round(1)', 'a.round(1)': 'v.round(1)'}
    # np.fix / np.clip / np.around / np.round as functions
    for src, t in (('np.fix(a)', lambda m: raw('fix', m)), ('np.around(a)', lambda m: raw('rint', m)),
                   ('np.round(a)', lambda m: raw('rint', m)), ('round(a)', lambda m: raw('rint', m)),
                   ('np.around(a, 2)', None), ('np.round(a, 1)', None), ('round(a, 1)', None), ('a.round(1)', None),
                   ('a.round()', lambda m: raw('rint', m))):
        for u in ('lenA', 'frcA', 'ratA'):
            def f(src, t, u):
                a = operand(W, 'a', u)
                r = W.ev(src, a=a)
                W.want_q(src, r)
                W.want_units(src, r, dims_of(u))
                if t is not None:
                    W.want_mag(src, r, t(W.mag(a)))
                else:
                    W.want_mag(src, r, W.mag(W.ev(ROUND[src], v=W.vec('a', W.dim('n')))))
            S.add('%s of %s' % (src, u), f, src, t, u)
    return S.items, {}
