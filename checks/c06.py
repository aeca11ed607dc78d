from fractions import Fraction as F
from .common import *

TITLE = 'comparisons compare physical values'
LEVEL = 'other'
FLOOR = 400
EXPLAIN = ('abstract interpretation of the comparison operators over symbolic magnitudes and unit scales: the predicate '
           'computed for each element is the one on the physical values; other dimensions are never equal and cannot '
           'be ordered')

OPS = {'==': 'equal', '!=': 'not_equal', '<': 'less', '<=': 'less_equal', '>': 'greater', '>=': 'greater_equal'}
ALIKE = [('lenA', 'lenA'), ('lenA', 'lenB'), ('lenA', 'pq.m'), ('velA', 'lenA/timA'), ('lenA/timA', 'velA'), ('frcA', 'masA*lenB/timB**2'),
         ('lenA**2', 'lenB**2'), ('lenA**-1', 'lenB**-1'), ('lenA**0.5', 'lenB**0.5'), ('ratA', 'ratB'), ('ratA', 'pq.dimensionless'),
         ('pq.dimensionless', 'ratA'), ('pq.dimensionless', 'pq.dimensionless'), ('lenA/lenB', 'pq.dimensionless'),
         ('pq.percent', 'pq.dimensionless'), ('pq.degree', 'pq.radian'), ('pq.km', 'pq.m'), ('lenA*timA', 'timA*lenA')] + TWIN_ALIKE
UNLIKE = [('lenA', 'timA'), ('lenA', 'lenA**2'), ('lenA', 'pq.dimensionless'), ('pq.dimensionless', 'lenA'), ('lenA**-1', 'lenA**-2'),
          ('lenA', 'lenB**-1'), ('velA', 'lenA'), ('lenA/timA', 'timA/lenA'), ('lenA', 'ratA'), ('lenA**0.5', 'lenA'), ('frcA', 'velA'),
          ('pq.radian', 'lenA'), ('masA', 'timA'), ('lenA**-1', 'timA**-1'), ('masA/timA', 'masA/lenA')] + TWIN_UNLIKE


ALIKE = list(dict.fromkeys(ALIKE))
UNLIKE = list(dict.fromkeys(UNLIKE))

def build(root, tier):
    S = Suite(root)
    W = S.W

    def isbool(what, r, term, shape=None):
        if W.isq(r):
            fail(what, 'is %s, not a plain truth value' % W.show(r))
        done('type')
        if isinstance(r, bool):
            r = N.scalar(T.ONE if r else T.ZERO, N.BL)
        want(what, not isinstance(r, AArr) or r.dtype.kind == 'b', 'has the type %s' % getattr(getattr(r, 'dtype', None), 'name', r))
        t = N.val(r) if isinstance(r, AArr) else W.mag(r)
        want_same(what, t, term)
        spec.want_same_nan(what, t, term)
        if shape is not None:
            want_shape(what, W.shape(r), shape)

    def compare(op, ua, ub, sa, sb, da='float64', db='float64'):
        a, b = operand(W, 'a', ua, shp(W, sa), da), operand(W, 'b', ub, shp(W, sb), db)
        ka, kb = W.snap(a), W.snap(b)
        what = '(%s) %s (%s)' % (ua, op, ub)
        r = W.ev('a %s b' % op, what, a=a, b=b)
        isbool(what, r, raw(OPS[op], W.si(a)[0], W.si(b)[0]), bshape(W, sa, sb))
        W.unchanged(what, ka, a, 'left operand')
        W.unchanged(what, kb, b, 'right operand')

    # values which differ by no more than a float can are told apart: no tolerance (with scales that convert exactly)
    NEAR = [(1, 1 + F(1, 2**52)), (1 + F(1, 2**52), 1), (1, 1), (0, F(1, 2**1074)), (-1, -1 + F(1, 2**53)), (2**1000, 2**1000 + 2**948), (F(1, 10**20), F(2, 10**20)),
            (0, F(1, 10**9)), (0, 0), (100, 100 + F(1, 10**6)), (100 + F(1, 10**6), 100), (-5, 5), (F(1, 2**1074), -F(1, 2**1074)), (1, 1 + F(1, 10**9)), (1 + F(1, 10**12), 1)]

    def exactly(op, ua, ub, sa, sb):
        a, b = operand(W, 'a', ua, shp(W, sa)), operand(W, 'b', ub, shp(W, sb)) if ub is not None else W.arr('b', shp(W, sb))
        what = '(%s) %s (%s)' % (ua, op, ub)
        va, vb = W.si(a)[0], W.si(b)[0] if ub is not None else N.val(b)
        r = W.ev('a %s b' % op, what, a=a, b=b)
        t = N.val(r) if isinstance(r, AArr) else W.mag(r)
        ref = raw(OPS[op], va, vb)
        sy = {s.args[0]: s for s in set(T.symbols(va)) | set(T.symbols(vb)) | set(T.symbols(t))}
        for x, y in NEAR:
            vals = {s: F(2) ** (1 + i) for i, (k, s) in enumerate(sorted(sy.items())) if k not in 'ab'}
            ca, cb = (T.exact(v, {**vals, sy['a']: F(1), sy['b']: F(1)}) for v in (va, vb))
            if ca is None or cb is None:
                raise Undecided('the scale of %s' % what)
            vals[sy['a']], vals[sy['b']] = F(x)/ca, F(y)/cb
            g, w = T.exact(t, vals), T.exact(ref, vals)
            if g is None or w is None:
                if t is ref:
                    continue
                raise Undecided('the exact value of %s' % T.show(t))
            want(what, bool(g) == bool(w), 'is %s for %.17g and %.17g, which are %sequal, the difference being %.3g' % (bool(g), x, y, '' if x == y else 'not ', y - x))

    def unlike(op, ua, ub, sa=('n',), sb=('n',)):
        a, b = operand(W, 'a', ua, shp(W, sa)), operand(W, 'b', ub, shp(W, sb))
        ka, kb = W.snap(a), W.snap(b)
        what = '(%s) %s (%s)' % (ua, op, ub)
        if op in ('==', '!='):
            r = W.ev('a %s b' % op, what, a=a, b=b)
            isbool(what, r, ZERO if op == '==' else ONE)
            # (an answer for each element; or for each of the left operand)
            if isinstance(r, AArr) and W.shape(r) != tuple(shp(W, sa)):
                want_shape(what, W.shape(r), bshape(W, sa, sb))
            elif not isinstance(r, AArr):
                want(what, not sa, 'is the single %s' % r)
        else:
            W.refuse('_r = a %s b' % op, ('ValueError', 'TypeError'), what, a=a, b=b)
        W.unchanged(what, ka, a, 'left operand')
        W.unchanged(what, kb, b, 'right operand')

    for op in OPS:
        for ua, ub in (('lenA', 'lenA'), ('lenA', 'lenB'), ('lenB', 'lenA'), ('lenA/timA', 'lenB/timB'), ('frcA', 'frcA'), ('pq.dimensionless', 'pq.dimensionless'), ('pq.dimensionless', None),
                       ('frcA', 'masA*lenB/timB**2'), ('lenA**2', 'lenB**2'), ('lenA', 'lenC')):
            for sa, sb in (((), ()), (('n',), ('n',)), (('n',), ()), ((), ('n',))):
                S.add('%s %s %s told apart exactly with shapes %s %s' % (ua, op, ub, sa, sb), exactly, op, ua, ub, sa, sb)
        for ua, ub in ALIKE:
            S.add('(%s) %s (%s)' % (ua, op, ub), compare, op, ua, ub, ('n',), ('n',))
            S.add('(%s) %s (%s), scalars' % (ua, op, ub), compare, op, ua, ub, (), ())
        for sa, sb in SHAPEPAIRS[1:]:
            S.add('(lenA) %s (lenB) with shapes %s %s' % (op, sa, sb), compare, op, 'lenA', 'lenB', sa, sb)
            for ua, ub in UNLIKE[:4]:
                S.add('(%s) %s (%s) of other dimensions with shapes %s %s' % (ua, op, ub, sa, sb), unlike, op, ua, ub, sa, sb)
        for da, db in (('int64', 'float64'), ('float64', 'int64'), ('int64', 'int64'), ('float32', 'float64')):
            for ua, ub in (('lenA', 'lenB'), ('pq.km', 'pq.m'), ('pq.m', 'pq.km'), ('lenA', 'lenA')):
                S.add('(%s) %s (%s) with %s %s' % (ua, op, ub, da, db), compare, op, ua, ub, ('n',), ('n',), da, db)
        for ua, ub in UNLIKE:
            S.add('(%s) %s (%s) of other dimensions' % (ua, op, ub), unlike, op, ua, ub)
            S.add('(%s) %s (%s) of other dimensions, scalars' % (ua, op, ub), unlike, op, ua, ub, (), ())

        # units as operands
        for src, l, r in (('lenA %s lenB', 'lenA', 'lenB'), ('lenA %s lenA', 'lenA', 'lenA'), ('a %s lenB', None, 'lenB'), ('lenB %s a', 'lenB', None),
                          ('velA %s (lenA/timA)', 'velA', 'lenA/timA'), ('(lenA/timA) %s velA', 'lenA/timA', 'velA'), ('ratA %s pq.dimensionless', 'ratA', 'pq.dimensionless'),
                          ('a %s lenA', None, 'lenA'), ('pq.km %s pq.m', 'pq.km', 'pq.m'), ('pq.m %s pq.km', 'pq.m', 'pq.km')):
            def f(op, src, l, r):
                a = operand(W, 'a', 'lenA')
                va = W.si(a)[0]
                x = W.ev(src % op, a=a)
                tl = va if l is None else W.factor(dims_of(l))[0]
                tr = va if r is None else W.factor(dims_of(r))[0]
                isbool(src % op, x, raw(OPS[op], tl, tr))
            S.add(src % op, f, op, src, l, r)
        for src in ('lenA %s timA', 'lenA %s lenA**2', 'a %s timA', 'timA %s a', 'lenA %s pq.dimensionless', 'pq.dimensionless %s lenA', 'velA %s frcA', 'ratA %s lenA'):
            def f(op, src):
                a = operand(W, 'a', 'lenA')
                if op in ('==', '!='):
                    isbool(src % op, W.ev(src % op, a=a), ZERO if op == '==' else ONE)
                else:
                    W.refuse('_r = ' + src % op, ('ValueError', 'TypeError'), a=a)
            S.add(src % op + ' of other dimensions', f, op, src)

        # pure numbers compare with numbers
        for k, make in (('float', lambda: W.num('x')), ('int', lambda: W.num('i', 'int')), ('array', lambda: W.vec('v', W.dim('n'))),
                        ('numpy scalar', lambda: N.scalar(T.sym('x', True), spec.F8))):
            for side in ('right', 'left'):
                def f(op, make, side):
                    a, n = operand(W, 'a', 'pq.dimensionless'), make()
                    ts = [W.mag(a), W.mag(n)]
                    src = 'a %s n' % op
                    if side == 'left':
                        src = 'n %s a' % op
                        ts.reverse()
                    r = W.ev(src, a=a, n=n)
                    # (NumPy's own comparison of a number with a quantity gives a pure number)
                    want_same(src, W.mag(r), raw(OPS[op], *ts))
                S.add('%s with a %s on the %s' % (op, k, side), f, op, make, side)

    # something that is no quantity at all is not equal
    for bad in ("'lenA'", 'None', "'m'"):
        def f(bad):
            a = W.q(W.num('x'), 'lenA')
            for op, t in (('==', ZERO), ('!=', ONE)):
                r = W.ev('a %s %s' % (op, bad), a=a)
                isbool('a %s %s' % (op, bad), r, t)
        S.add('a == %s' % bad, f, bad)

    # laws
    def law(src1, src2, ua, ub, sh):
        a, b = operand(W, 'a', ua, shp(W, sh)), operand(W, 'b', ub, shp(W, sh))
        x, y = W.ev(src1, a=a, b=b), W.ev(src2, a=a, b=b)
        want_same('%s and %s' % (src1, src2), W.mag(x), W.mag(y))
    for s1, s2 in (('a < b', 'b > a'), ('a <= b', 'b >= a'), ('a == b', 'b == a'), ('a != b', 'b != a'), ('a < b', '~(a >= b)'), ('a == b', '~(a != b)'),
                   ('a < b', '-a > -b'), ('a < b', '2*a < 2*b'), ('a == b', 'a.simplified == b.simplified'), ('a < b', 'a.rescale(b.units) < b'),
                   ('a >= b', 'a.simplified >= b')):
        for ua, ub in (('lenA', 'lenB'), ('velA', 'lenA/timA'), ('ratA', 'ratB')):
            for sh in (('n',), ()):
                S.add('%s is %s for %s and %s shape %s' % (s1, s2, ua, ub, sh), law, s1, s2, ua, ub, sh)

    def self_equal(u):
        a = operand(W, 'a', u)
        isbool('a == a', W.ev('a == a', a=a), ONE)
        isbool('a != a', W.ev('a != a', a=a), ZERO)
        isbool('a == a.rescale', W.ev('a == a.simplified', a=a), ONE)
    for u in ('lenA', 'frcA', 'ratA', 'lenA**0.5'):
        S.add('a == a in %s' % u, self_equal, u)

    # dimensionalities as such
    def dims_eq(ua, ub, equal):
        for src, t in (('(%s).dimensionality == (%s).dimensionality', equal), ('(%s).dimensionality != (%s).dimensionality', not equal)):
            src = src % (ua, ub)
            r = W.ev(src)
            want(src, r is t or r == t, 'is %r' % (r,))
    for ua, ub, eq in (('lenA', 'lenA', True), ('lenA', 'lenB', False), ('lenA*timA', 'timA*lenA', True), ('lenA/timA', 'lenA*timA**-1', True),
                       ('lenA**-1', 'lenA**-2', False), ('lenA', 'lenA**2', False), ('lenA**0.5', 'lenA', False), ('lenA/lenA', 'pq.dimensionless', True),
                       ('lenA**1.0', 'lenA', True), ('lenA**2*timA**-1', 'lenA/timA*lenA', True), ('lenA/timA', 'timA/lenA', False),
                       ('lenA*timA**2', 'lenA**2*timA', False), ('lenA**-1*timA**-2', 'lenA**-2*timA**-1', False), ('masA*lenA', 'masA*timA', False),
                       ('velA', 'lenB/timA', False), ('lenA**-1', 'lenA', False), ('lenA**-0.5', 'lenA**-1.5', False), ('lenA**-1/timA', 'lenA**-2/timA', False),
                       ('ratA', 'pq.dimensionless', False), ('lenA**-3', 'lenA**-2', False), *((a, b, dims_of(a) == dims_of(b)) for a, b in TWIN_ALIKE + TWIN_UNLIKE)):
        S.add('dimensionality of %s and %s' % (ua, ub), dims_eq, ua, ub, eq)
        S.add('dimensionality of %s and %s swapped' % (ua, ub), dims_eq, ub, ua, eq)
    return S.items, {}
