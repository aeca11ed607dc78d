import itertools

from .common import *

TITLE = 'dimensionality arithmetic is an exponent algebra'
LEVEL = 'other'
FLOOR = 400
EXPLAIN = ('abstract interpretation over dimensionalities whose exponents are symbolic numbers (paths split where an exponent or a sum '
           'of exponents is zero, or two are equal): products, quotients, powers, sums and differences, plain and in place, equality and '
           'hashing, for operands over the same, overlapping and different units and in every order of construction')

# units of the operands
SHAPES = [('', ''), ('', 'lenA'), ('lenA', ''), ('lenA', 'lenA'), ('lenA', 'timA'), ('lenA timA', 'lenA'), ('lenA timA', 'timA masA'), ('lenA timA', 'timA lenA'),
          ('lenA', 'lenB'), ('frcA lenA', 'lenA frcA'), ('masA lenA timA', 'timA masA lenA'), ('rad', 'rad'), ('cmp lenA', 'lenA cmp'), ('con', 'con lenA'), ('ratA', 'ratA timA'),
          ('lenA timA masA', 'velA'), ('lenA', 'lenC'), ('lenA timA', 'timC timA'), ('lenC lenA timC', 'timC lenA')]
OPS = {'*': 1, '/': -1}
NAMES = {'rad': 'radian', 'con': 'natural_unit_of_velocity', 'cmp': '(m**2/m**3)'}


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    D = W.I.getattr(W.I.import_module('quantities.dimensionality'), 'Dimensionality')
    EXTRA = dict(rad=W.ev('pq.radian'), con=W.ev('pq.constants.natural_unit_of_velocity'), cmp=W.ev("pq.CompoundUnit('m**2/m**3')"))
    conname = W.I.getattr(EXTRA['con'], 'name')
    NAMES['con'] = conname

    def dimy(units, pre, order=None, concrete=None, big=False):
        """a dimensionality and its {unit: exponent}"""
        us = units.split()
        vals = {}
        kw = dict(EXTRA, D=D)
        for k, u in enumerate(us):
            if concrete is not None:
                v = concrete[k % len(concrete)]
                vals[u] = C(v)
                kw['e%d' % k] = v if isinstance(v, int) else SNum(C(v), 'float')
            else:
                # (with big, exponents above one: the messages of a refusal split on each sign)
                t = T.mul(C(-1 if big == '-' else 1), T.add(T.ONE, T.sym(pre + str(k), True, True))) if big else T.sym(pre + str(k), True)
                vals[u] = t
                kw['e%d' % k] = SNum(t, 'float')
        idx = order if order is not None else range(len(us))
        src = 'D({%s})' % ', '.join('%s: e%d' % (us[k], k) for k in idx)
        # (an exponent is never zero)
        for k in range(len(us)):
            if concrete is None and not big and paths.truth(T.fn('eq', vals[us[k]], ZERO)):
                raise paths.Infeasible('an exponent of zero')
        return W.ev(src, **kw), {NAMES.get(u, u): t for u, t in vals.items()}

    def is_dim(what, v):
        want(what, isinstance(v, ADict) and v.cls.name == 'Dimensionality', 'is %s' % W.show(v))

    def binary(op, ua, ub, inplace, concrete=None):
        a, ea = dimy(ua, 'a', concrete=concrete and concrete[0])
        b, eb = dimy(ub, 'b', concrete=concrete and concrete[1])
        ka, kb = W.snap(a), W.snap(b)
        src = 'r = a\nr %s= b' % op if inplace else 'r = a %s b' % op
        what = '%s with a over (%s), b over (%s)' % (src.replace('\n', '; '), ua, ub)
        r = W.do(src, what, a=a, b=b)['r']
        is_dim(what, r)
        want_dims(what, W.dims(r), comb_paths(ea, eb, OPS[op]))
        if inplace:
            want(what, r is a, 'is another object')
        else:
            want(what, r is not a and r is not b, 'is one of the operands')
            W.unchanged(what, ka, a, 'left operand')
        W.unchanged(what, kb, b, 'right operand')

    def comb_paths(a, b, s):
        """exponents of the product, with the zero ones (on this path) left out"""
        out = dict(a)
        for u, e in b.items():
            out[u] = T.add(out.get(u, ZERO), T.mul(e, C(s)))
        return {u: e for u, e in out.items() if paths.same(e, ZERO) is not True}

    def selfop(op, ua):
        a, ea = dimy(ua, 'a')
        what = 'a %s= a with a over (%s)' % (op, ua)
        r = W.do('r = a\nr %s= a' % op, what, a=a)['r']
        is_dim(what, r)
        want_dims(what, W.dims(r), comb_paths(ea, ea, OPS[op]))
        a, ea = dimy(ua, 'a')
        what = 'a %s a with a over (%s)' % (op, ua)
        r = W.do('r = a %s a' % op, what, a=a)['r']
        want_dims(what, W.dims(r), comb_paths(ea, ea, OPS[op]))
        want_dims(what + ': a', W.dims(a), ea)

    CONC = [((1, -1), (1, 1)), ((2, 0.5), (-2, -0.5)), ((-1, -2), (1, 2)), ((1, 3), (-1, 3)), ((0.5,), (0.5,)), ((-1,), (-1,)), ((-1, -2), (-2, -1)), ((1.5, -1), (-1.5, 1)),
            # (exponents close to each other, and close to nothing, are neither equal nor nothing)
            ((1 + 2**-12,), (1,)), ((2**-20, 1), (2**-21, 1)), ((0.25, -0.25), (0.25 + 2**-20, 0.25)), ((1/3., 1/8.), (1/4., -1/8.)), ((2.25,), (2.375,))]
    for ua, ub in SHAPES:
        for op in OPS:
            for ip in (False, True):
                S.add('%s%s of (%s) and (%s)' % (op, '=' if ip else '', ua, ub), binary, op, ua, ub, ip)
                for i, c in enumerate(CONC):
                    S.add('%s%s of (%s) and (%s), exponents %s' % (op, '=' if ip else '', ua, ub, c), binary, op, ua, ub, ip, c)
    for ua in ('', 'lenA', 'lenA timA', 'frcA lenA rad', 'cmp con'):
        for op in OPS:
            S.add('%s of (%s) with itself' % (op, ua), selfop, op, ua)

    def power(ua, k, inplace):
        a, ea = dimy(ua, 'a')
        ka = W.snap(a)
        kw = {}
        if k == 'k':
            kw['k'] = W.num('k')
            t = T.sym('k', True)
        elif k == 'n':
            kw['n'] = W.num('n', 'int')
            t = T.sym('n', True, False, True)
        else:
            t = C(eval(k.replace('np.float64', 'float').replace('np.int64', 'int').replace('True', '1').replace('Fraction', '')))
        src = 'r = a\nr **= %s' % k if inplace else 'r = a**%s' % (k if k[0] != '-' else '(%s)' % k)
        what = '%s with a over (%s)' % (src.replace('\n', '; '), ua)
        r = W.do(src, what, a=a, **kw)['r']
        is_dim(what, r)
        e = {u: T.mul(x, t) for u, x in ea.items()}
        want_dims(what, W.dims(r), {u: x for u, x in e.items() if paths.same(x, ZERO) is not True})
        if inplace:
            want(what, r is a, 'is another object')
        else:
            want(what, r is not a, 'is the operand')
            W.unchanged(what, ka, a, 'operand')
    for ua in ('', 'lenA', 'lenA timA', 'frcA lenA rad', 'cmp con', 'masA lenB'):
        for k in ('2', '1', '0', '-1', '0.5', '-2', '0.0', '3', '-0.5', 'k', 'n', 'np.float64(2.0)', 'np.int64(-1)', '1.0', 'True', '2**-31', '-2**-10', '1e-10', '1.25'):
            for ip in (False, True):
                S.add('(%s)**%s%s' % (ua, k, ' in place' if ip else ''), power, ua, k, ip)

    # sums and differences
    def addsub(op, ua, ub, inplace, concrete=None):
        big = len(ua.split()) + len(ub.split()) > 2
        a, ea = dimy(ua, 'a', concrete=concrete and concrete[0], big=big)
        b, eb = dimy(ub, 'b', concrete=concrete and concrete[1], big=big)
        ka, kb = W.snap(a), W.snap(b)
        src = 'r = a\nr %s= b' % op if inplace else 'r = a %s b' % op
        what = '%s with a over (%s), b over (%s)' % (src.replace('\n', '; '), ua, ub)
        equal = lambda: set(ea) == set(eb) and all(paths.same(ea[u], eb[u]) is True for u in ea)
        try:
            r = W.run(src, a=a, b=b)['r']
        except spec.PyRaise as e:
            want(what, any(c.name == 'ValueError' for c in e.exc.cls.mro), 'raised %s at %s' % (e.exc.cls.name, e.where))
            want(what, not equal(), 'was refused although they are equal')
            done('refused')
        else:
            is_dim(what, r)
            want(what, equal(), 'was accepted for different dimensionalities')
            want_dims(what, W.dims(r), ea)
            if not inplace:
                want(what, r is not a and r is not b, 'is one of the operands')
            else:
                want(what, r is a, 'is another object')
        W.unchanged(what, ka, a, 'left operand')
        W.unchanged(what, kb, b, 'right operand')
    for ua, ub in SHAPES:
        for op in '+-':
            for ip in (False, True):
                S.add('%s%s of (%s) and (%s)' % (op, '=' if ip else '', ua, ub), addsub, op, ua, ub, ip)
                for c in CONC + [((1, -1), (1, -1)), ((-2, 1), (-1, 1))]:
                    S.add('%s%s of (%s) and (%s), exponents %s' % (op, '=' if ip else '', ua, ub, c), addsub, op, ua, ub, ip, c)

    # equality and hashing
    def equality(ua, ub, concrete=None, order=None, big=False):
        a, ea = dimy(ua, 'a', concrete=concrete and concrete[0], big=big)
        b, eb = dimy(ub, 'b', concrete=concrete and concrete[1], order=order, big=big)
        ka, kb = W.snap(a), W.snap(b)
        what = '== of (%s) and (%s)%s' % (ua, ub, concrete or '')
        r = W.I.truth(W.ev('a == b', a=a, b=b))
        equal = set(ea) == set(eb) and all(paths.truth(T.fn('eq', ea[u], eb[u])) for u in ea)
        want(what, r == equal, 'is %s where the exponents are %s' % (r, 'equal' if equal else 'different'))
        for src, v in (('a != b', not equal), ('b == a', equal), ('b != a', not equal), ('not a == b', not equal), ('hash(a) == hash(b)', equal), ('b in [a]', equal),
                       ('b in {a: 1}', equal), ('b in (a,)', equal)):
            if src.startswith('hash') and not equal or ' in {' in src and not concrete and not equal:
                continue       # (different ones may share a hash)
            x = W.I.truth(W.ev(src, a=a, b=b))
            want('%s: %s' % (what, src), x == v, 'is %s' % x)
        W.unchanged(what, ka, a)
        W.unchanged(what, kb, b)
    PAIRS = [x for x in SHAPES] + [('lenA timA masA', 'masA lenA timA'), ('lenA rad', 'rad lenA')]
    for ua, ub in PAIRS:
        if len(ua.split()) + len(ub.split()) <= 2:
            S.add('== of (%s) and (%s)' % (ua, ub), equality, ua, ub)
        for g in '+-':
            S.add('== of (%s) and (%s), exponents %sc' % (ua, ub, g), equality, ua, ub, None, None, g)
        for c in CONC + [((1, -1), (1, -1)), ((-2, 1), (-1, 1)), ((1, 1), (1, 1)), ((2,), (2.0,)), ((-1, -1), (-1, -1)), ((1, 2), (2, 1)), ((0.5, -0.5), (-0.5, 0.5)),
                         ((-1, 2), (-2, 2)), ((1,), (-1,)), ((1, -2), (-1, 2)), ((0.5,), (-0.5,)), ((-1.5,), (-0.5,)), ((-1,), (-1.5,)), ((-2,), (-3,)), ((-1,), (0.5,)), ((-0.25,), (-0.375,)), ((0.125,), (0.25,)), ((1.125, 1), (1.25, 1)), ((2**-30,), (2**-31,)), ((1, 0.5), (1, 0.75))]:
            S.add('== of (%s) and (%s), exponents %s' % (ua, ub, c), equality, ua, ub, c)
    for p in itertools.permutations(range(3)):
        S.add('== with the units in the order %s' % (p,), equality, 'lenA timA masA', 'lenA timA masA', None, p, '-')
        S.add('== of equal ones with the units in the order %s' % (p,), equality, 'frcA timA cmp', 'frcA timA cmp', ((1, -2, 0.5), (1, -2, 0.5)), p)

    # laws over three
    def law(src1, src2, ua, ub, uc):
        a, ea = dimy(ua, 'a')
        b, eb = dimy(ub, 'b')
        c, ec = dimy(uc, 'c')
        x, y = W.ev(src1, a=a, b=b, c=c, one=W.ev('D()', D=D)), W.ev(src2, a=a, b=b, c=c, one=W.ev('D()', D=D))
        what = '%s == %s over (%s), (%s), (%s)' % (src1, src2, ua, ub, uc)
        is_dim(what, x)
        want_dims(what, W.dims(x), W.dims(y))
        want(what, W.I.truth(W.ev('x == y', x=x, y=y)), 'is not true')
        want(what, W.I.truth(W.ev('hash(x) == hash(y)', x=x, y=y)), 'does not hold for the hashes')
    for ua, ub, uc in (('lenA', 'lenA', 'lenA'), ('lenA timA', 'timA', 'lenA'), ('lenA', 'timA', 'masA'), ('lenA timA', 'masA lenA', 'timA'), ('cmp', 'frcA', 'cmp')):
        for l, r in (('a*b', 'b*a'), ('(a*b)*c', 'a*(b*c)'), ('a/b', 'a*b**-1'), ('(a*b)/b', 'a'), ('(a/b)*b', 'a'), ('a*one', 'a'), ('one*a', 'a'), ('a/one', 'a'), ('one/a', 'a**-1'),
                     ('(a*b)**2', 'a**2*b**2'), ('(a**2)**0.5', 'a'), ('a**2', 'a*a'), ('a/a', 'one'), ('a**0', 'one'), ('a**1', 'a'), ('a/(b*c)', 'a/b/c'), ('a*b/c', 'a/c*b'),
                     ('a**2/a', 'a'), ('(a/b)**-1', 'b/a'), ('a.copy()', 'a'), ('a*b*c', 'c*b*a')):
            S.add('%s == %s over (%s), (%s), (%s)' % (l, r, ua, ub, uc), law, l, r, ua, ub, uc)

    # wrong types
    BADOP = ['2', '2.5', 'lenA', "'m'", 'None', '[1]', '{}', 'np.array([1.0])', '{lenA: 1}', '1*lenA']
    def wrong(src, bad):
        a, ea = dimy('lenA timA', 'a')
        ka = W.snap(a)
        try:
            r = W.run(src % bad, a=a)
        except spec.PyRaise as e:
            want(src % bad, any(c.name in ('TypeError', 'ValueError') for c in e.exc.cls.mro), 'raised %s at %s' % (e.exc.cls.name, e.where))
            done('refused')
        else:
            fail(src % bad, 'was accepted')
        W.unchanged(src % bad, ka, a)
    for bad in BADOP:
        for src in ('a + %s', 'a - %s', 'a * %s', 'a / %s', 'a += %s', 'a -= %s', 'a *= %s', 'a /= %s'):
            if bad in ('1*lenA', 'lenA', 'np.array([1.0])') and '=' not in src:
                continue         # (NumPy's reflected operators)
            S.add((src % bad) + ' is refused', wrong, src, bad)
    for bad in ('[2]', '(2,)', 'np.array([2.0])', 'np.array(2.0)', 'a', 'None', '{}', 'lenA', '2*lenA'):
        for src in ('a ** %s', 'a **= %s'):
            if bad in ('None', 'np.array(2.0)', 'np.array([2.0])', 'lenA', '2*lenA') and '=' not in src:
                continue
            S.add((src % bad) + ' is refused', wrong, src, bad)

    # simplified and the number of dimensions
    def simp(src):
        d = W.ev(src)
        k = W.snap(d)
        f, b = W.factor(W.dims(d))
        r = W.ev('d.simplified', d=d)
        is_dim(src + '.simplified', r)
        want_dims(src + '.simplified', W.dims(r), b)
        n = W.ev('d.ndims', d=d)
        want_same(src + '.ndims', W.mag(n), T.add(*[C(abs(x.args[0])) for x in b.values()]) if b else ZERO)
        W.unchanged(src, k, d)
    for src in ('lenA', 'lenA/timA', 'frcA', 'frcA**2*lenB', 'velA/lenA', 'lenA/lenB', 'ratA', 'pq.dimensionless', 'lenA**0.5', 'masA*velA**2', 'frcA**-1', 'frcA*lenA/timB**3',
                'pq.percent*lenA'):
        S.add('(%s).dimensionality.simplified' % src, simp, '(%s).dimensionality' % src)
    return S.items, {}
