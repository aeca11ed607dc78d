from .common import *

TITLE = 'sums, differences and remainders convert units and refuse incompatible ones'
LEVEL = 'other'
FLOOR = 100
EXPLAIN = ('abstract interpretation of the package over symbolic magnitudes, symbolic unit scales and symbolic array '
           'lengths: for every pairing of operand kinds the physical value, units, shape of a+b, a-b, a%b and the '
           'in-place forms, or the refusal')

OPS = {'+': lambda x, y: T.add(x, y), '-': lambda x, y: T.sub(x, y), '%': lambda x, y: B.mod_t(x, y)}

# (left units, right units): the same dimension
SAME = [('lenA', 'lenB'), ('lenA', 'lenA'), ('velA', 'lenA/timA'), ('lenA/timA', 'velA'), ('frcA', 'masA*lenB/timB**2'), ('masA*lenA/timA**2', 'frcA'),
        ('lenA**2/timA', 'lenB**2/timB'), ('lenA**-1', 'lenB**-1'), ('lenA**0.5', 'lenB**0.5'), ('ratA', 'ratB'), ('ratA', 'pq.dimensionless'),
        ('pq.dimensionless', 'ratA'), ('pq.dimensionless', 'pq.dimensionless'), ('pq.m', 'pq.km'), ('pq.km', 'pq.m'),
        ('pq.degree', 'pq.radian'), ('pq.percent', 'pq.dimensionless'), ('lenA*lenB', 'lenB*lenA'), ('lenA/lenB', 'pq.dimensionless'),
        ('lenA*timA/timB', 'lenB')] + TWIN_ALIKE
DIFFERENT = [('lenA', 'timA'), ('lenA', 'pq.dimensionless'), ('pq.dimensionless', 'lenA'), ('lenA', 'lenA**2'), ('lenA', 'lenB**-1'),
             ('velA', 'lenA'), ('frcA', 'masA*lenA/timA'), ('lenA', 'ratA'), ('pq.radian', 'lenA'), ('lenA**0.5', 'lenA'), ('masA', 'lenA')] + TWIN_UNLIKE

SAME = list(dict.fromkeys(SAME))
DIFFERENT = list(dict.fromkeys(DIFFERENT))

def build(root, tier):
    S = Suite(root)
    W = S.W

    def value(op, ua, ub, sa, sb, da='float64', db='float64'):
        a = operand(W, 'a', ua, shp(W, sa), da)
        b = operand(W, 'b', ub, shp(W, sb), db)
        ka, kb = W.snap(a), W.snap(b)
        va, vb = W.si(a)[0], W.si(b)[0]
        r = W.ev('a %s b' % op, '(%s) %s (%s)' % (ua, op, ub), a=a, b=b)
        W.want_q_like('(%s) %s (%s)' % (ua, op, ub), r, OPS[op](va, vb), dims_of(ua), shape=bshape(W, sa, sb))
        W.unchanged(op, ka, a, 'left operand')
        W.unchanged(op, kb, b, 'right operand')

    def inplace(op, ua, ub, sb=('n',)):
        a = operand(W, 'a', ua, shp(W, ('n',)))
        b = operand(W, 'b', ub, shp(W, sb))
        kb = W.snap(b)
        va, vb = W.si(a)[0], W.si(b)[0]
        ns = W.do('x = a\nx %s= b' % op, a=a, b=b)
        what = '(%s) %s= (%s)' % (ua, op, ub)
        want(what, ns['x'] is a, 'returned another object')
        W.want_q_like(what, a, OPS[op](va, vb), dims_of(ua))
        W.unchanged(what, kb, b, 'right operand')

    def refused(op, ua, ub, inp):
        a = operand(W, 'a', ua)
        b = operand(W, 'b', ub)
        ka, kb = W.snap(a), W.snap(b)
        what = '(%s) %s%s (%s)' % (ua, op, '=' if inp else '', ub)
        W.refuse('a %s= b' % op if inp else '_r = a %s b' % op, ('ValueError',), what, a=a, b=b)
        W.unchanged(what, ka, a, 'left operand')
        W.unchanged(what, kb, b, 'right operand')

    for op in OPS:
        for ua, ub in SAME:
            S.add('(%s) %s (%s)' % (ua, op, ub), value, op, ua, ub, ('n',), ('n',))
            S.add('(%s) %s= (%s)' % (ua, op, ub), inplace, op, ua, ub)
        for sa, sb in SHAPEPAIRS[1:]:
            S.add('(lenA) %s (lenB) with shapes %s %s' % (op, sa, sb), value, op, 'lenA', 'lenB', sa, sb)
        S.add('(lenA) %s= (lenB) with a scalar' % op, inplace, op, 'lenA', 'lenB', ())
        for da, db in (('int64', 'float64'), ('float64', 'int64'), ('float32', 'float64')):
            S.add('(lenA) %s (lenB) with %s %s' % (op, da, db), value, op, 'lenA', 'lenB', ('n',), ('n',), da, db)
        for ua, ub in DIFFERENT:
            S.add('(%s) %s (%s) refused' % (ua, op, ub), refused, op, ua, ub, False)
            S.add('(%s) %s= (%s) refused' % (ua, op, ub), refused, op, ua, ub, True)

    # units themselves as operands, plain numbers
    def unit_operand(op, src, va, vb, dims):
        r = W.ev(src, a=operand(W, 'a', 'lenA'))
        W.want_q_like(src, r, OPS[op](va, vb), dims_of(dims))

    rA, rB = W.r['A'], W.r['B']
    a_si = T.mul(T.sym('a'), rA)
    for op in OPS:
        S.add('quantity %s unit' % op, unit_operand, op, 'a %s lenB' % op, a_si, rB, 'lenA')
        S.add('unit %s quantity' % op, unit_operand, op, 'lenB %s a' % op, rB, a_si, 'lenB')
        S.add('unit %s unit' % op, unit_operand, op, 'lenB %s lenA' % op, rB, rA, 'lenB')

    def number(op, make, side):
        a = operand(W, 'a', 'ratA')
        n = make(False)
        va, vn = W.si(a)[0], W.mag(n)
        src = 'a %s n' % op if side == 'right' else 'n %s a' % op
        # a plain number counts as dimensionless; the units are those of the quantity
        # (where NumPy takes over, refusing to convert the number is accepted)
        try:
            r = W.tryrun('_r = ' + src, a=a, n=n)['_r']
        except Raised as e:
            want(src, e.isa('ValueError') and side == 'left', 'raised %s at %s' % (e.name, e.where))
            return
        if side == 'right':
            W.want_q_like(src, r, OPS[op](va, vn), dims_of('ratA'))
        else:
            W.want_value(src, r, OPS[op](vn, va))

    def number_refused(op, make, side):
        a = operand(W, 'a', 'lenA')
        ka = W.snap(a)
        src = 'a %s n' % op if side == 'right' else 'n %s a' % op
        W.refuse('_r = ' + src, ('ValueError', 'TypeError'), src + ' with a length', a=a, n=make(True))
        W.unchanged(src, ka, a)

    kinds = {'float': lambda p: W.num('x', positive=p), 'int': lambda p: W.num('i', 'int', positive=p),
             'array': lambda p: W.arr('n', (W.dim('n'),), positive=p),
             'numpy scalar': lambda p: N.scalar(T.sym('x', True, p), spec.F8)}
    for op in OPS:
        for k, make in kinds.items():
            for side in ('left', 'right'):
                S.add('%s on the %s of %s, dimensionless' % (k, side, op), number, op, make, side)
                S.add('%s on the %s of %s refused' % (k, side, op), number_refused, op, make, side)

    # chains: conversions compose
    def chain():
        a, b, c = (operand(W, n, u) for n, u in (('a', 'lenA'), ('b', 'lenB'), ('c', 'pq.m')))
        va, vb, vc = (W.si(x)[0] for x in (a, b, c))
        r = W.ev('(a + b) - c', a=a, b=b, c=c)
        W.want_q_like('(a + b) - c', r, T.sub(T.add(va, vb), vc), dims_of('lenA'))
        r = W.ev('c - (b + a)', a=a, b=b, c=c)
        W.want_q_like('c - (b + a)', r, T.sub(vc, T.add(va, vb)), dims_of('pq.m'))
    S.add('chains', chain)

    def inplace_element():
        a = operand(W, 'a', 'lenA')
        b = W.q(W.arr('b'), 'lenB')
        vb = W.si(b)[0]
        t0 = W.si(W.ev('a[1:]', a=a))[0]
        h0 = W.si(W.ev('a[:1]', a=a))[0]
        W.do('a[1:] += b', a=a, b=b)
        want_dims('a[1:] += b', W.dims(a), dims_of('lenA'))
        W.want_value('a[1:] += b', W.ev('a[1:]', a=a), T.add(t0, vb))
        W.want_value('a[1:] += b, the rest', W.ev('a[:1]', a=a), h0)
    S.add('in place on a slice', inplace_element)
    return S.items, {}
