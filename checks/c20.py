from .common import *

TITLE = 'an uncertain quantity always carries a matching uncertainty'
LEVEL = 'other'
FLOOR = 500
EXPLAIN = ('abstract interpretation of the construction, conversion, indexing, reshaping, selection and copying of uncertain quantities: '
           'the uncertainty has the shape and units of the value and went through the same elements and the same conversion')

UN = {'lenA': 'lenB', 'pq.m': 'pq.km', 'velA': 'lenA/timA', 'frcA': 'masA*lenB/timB**2', 'ratA': 'ratB', 'pq.dimensionless': 'ratA', 'lenA**2': 'lenB**2', 'lenA**0.5': 'lenB**0.5', 'lenC': 'lenA'}


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    n, k = W.dim('n'), W.dim('k')

    def make(u='lenA', sh=('n',), v=None, dt='float64', name='a'):
        a, e = W.arr(name, shp(W, sh), dt), W.arr('u' + name, shp(W, sh), positive=True)
        return W.uq(a, u, e, v), a, e

    def matches(what, r):
        """its uncertainty is a quantity of the same shape and units"""
        W.want_q(what, r, 'UncertainQuantity')
        e = W.unc(r)
        W.want_q(what + ': uncertainty', e, 'Quantity')
        W.want_units(what + ': uncertainty', e, W.dims(r))
        want_shape(what + ': uncertainty', W.shape(e), W.shape(r))

    def is_(what, r, dims, val, unc, shape):
        """r has these units, this value and uncertainty (both in base units)"""
        matches(what, r)
        W.want_units(what, r, dims)
        s = W.factor(dims)[0]
        want_same(what, T.mul(W.mag(r), s), val)
        want_same(what + ': uncertainty', T.mul(W.mag(W.unc(r)), s), unc)
        want_shape(what, W.shape(r), shape)

    fac = lambda u: W.factor(dims_of(u))[0]

    # ---------------------------------------------------------- construction
    def construct(u, v, src, sh, uval, dt='float64', unit_free=False, uu=None):
        """src over a, e (arrays), q (quantity in u), w (uncertainty in v), x (uncertain, in v)"""
        a, e = W.arr('a', shp(W, sh), dt), W.arr('e', shp(W, sh), positive=True)
        at, et = N.val(a), N.val(e)
        q, w = W.q(a, u), W.q(e, v)
        x = W.uq(a, v, e)
        before = [(o, W.snap(o)) for o in (a, e, q, w, x)]
        s = src.replace('UU', uu or u).replace('U(', 'pq.UncertainQuantity(')
        what = '%s with q in %s, w and x in %s' % (s, u, v)
        r = W.ev(s, what, a=a, e=e, q=q, w=w, x=x)
        dims = {} if unit_free else dims_of(u)
        val = T.mul(at, fac(v if uval == 'x' else u)) if not unit_free else at
        unc = {'e': T.mul(et, ONE if unit_free else fac(u)), 'w': T.mul(et, fac(v)), 'x': T.mul(et, fac(v)), '0': ZERO}[uval]
        is_(what, r, dims, val, unc, shp(W, sh))
        for o, b in before:
            W.unchanged(what, b, o)
    SRC = [('U(a, UU, e)', 'e'), ('U(a, UU, w)', 'w'), ('U(a, UU)', '0'), ('U(a, UU, None)', '0'), ('U(q, uncertainty=e)', 'e'), ('U(q, uncertainty=w)', 'w'), ('U(q)', '0'),
           ('U(q, UU, e)', 'e'), ('U(q, UU, w)', 'w'), ('U(a, units=UU, uncertainty=e)', 'e'), ('U(a, uncertainty=w, units=UU)', 'w'), ('U(x, UU)', 'x'), ('U(x, UU, w)', 'x'),
           ('U(q, (1.0*UU).units, w)', 'w'), ('U(a, (1.0*UU).dimensionality, w)', 'w'), ('U(U(q, uncertainty=w))', 'w'), ('U(U(q, uncertainty=w), UU)', 'w'),
           ('U(a, UU, U(e, UU))', 'e'), ('U(a, UU, w, "d")', 'w'), ('U(a, UU, uncertainty=w, dtype="d")', 'w'), ('U(a, UU, w, dtype=float)', 'w')]
    for u, v in UN.items():
        for src, kind in SRC:
            for sh in ((('n',), (), ('n', 'k'), (1,), (1, 1), (0,)) if u in ('lenA', 'velA') else (('n',),)):
                S.add('%s: %s of %s, %s' % (src, u, v, sh), construct, u, v, src, sh, kind)
        S.add('integers in %s of %s' % (u, v), construct, u, v, 'U(a, UU, w)', ('n',), 'w', 'int64')
    for src, kind in (('U(a, "pq.X", e)', 'e'), ('U(a, "pq.X", w)', 'w'), ('U(q, "pq.X", w)', 'w'), ('U(x, "pq.X")', 'x')):
        S.add(src + ' with a name', construct, 'pq.m', 'pq.km', src.replace('pq.X', 'm'), ('n',), kind)
        S.add(src + ' with text', construct, 'pq.m/pq.s', 'pq.km/pq.s', src.replace('pq.X', 'm/s'), ('n',), kind)
    S.add('no units', construct, 'pq.dimensionless', 'pq.percent', 'U(a, uncertainty=e)', ('n',), 'e')
    S.add('no units, converted', construct, 'pq.dimensionless', 'pq.percent', 'U(a, uncertainty=w)', ('n',), 'w')
    S.add('a number', construct, 'pq.dimensionless', 'pq.percent', 'U(a)', (), '0')

    def literal(src, val, unc, dims, shape):
        kw = {s: W.num(s) for s in 'ab'}
        kw.update({s: W.num(s, positive=True) for s in ('ua', 'ub')})
        r = W.ev(src.replace('U(', 'pq.UncertainQuantity('), **kw)
        l = W.r['A']
        is_(src, r, dims_of(dims), T.mul(l, val), T.mul(l, unc), shape)
    a, b, ua, ub = T.sym('a', True), T.sym('b', True), T.sym('ua', True, True, False, True), T.sym('ub', True, True, False, True)
    arr = lambda *x: T.fn('arr', *x)
    for src, val, unc, shape in (('U(a, lenA, ua)', a, ua, ()), ('U([a, b], lenA, [ua, ub])', arr(a, b), arr(ua, ub), (2,)), ('U((a, b), lenA, (ua, ub))', arr(a, b), arr(ua, ub), (2,)),
                                 ('U([a, b], lenA, [ua, ub]*lenA)', arr(a, b), arr(ua, ub), (2,)), ('U([a*lenA, b*lenA], lenA)', arr(a, b), ZERO, (2,)),
                                 ('U([a, b], lenA, np.array([ua, ub]))', arr(a, b), arr(ua, ub), (2,)), ('U([a], lenA, [ua])', None, None, (1,)),
                                 ('U(a*lenA, uncertainty=ua)', a, ua, ()), ('U(a*lenA, uncertainty=ua*lenA)', a, ua, ()), ('U([a, b]*lenA, uncertainty=[ub, ua])', arr(a, b), arr(ub, ua), (2,)),
                                 ('U([a, b], lenA, [ua, ub])[0]', a, ua, ()), ('U([a, b], lenA, [ua, ub])[1]', b, ub, ()), ('U([a, b], lenA, [ua, ub])[-1]', b, ub, ()),
                                 ('[x for x in U([a, b], lenA, [ua, ub])][1]', b, ub, ()), ('list(U([a, b], lenA, [ua, ub]))[0]', a, ua, ()),
                                 ('(lambda x, y: y)(*U([a, b], lenA, [ua, ub]))', b, ub, ()), ('[y for x, y in [U([a, b], lenA, [ua, ub])]][0]', b, ub, ())):
        if val is not None:
            S.add(src, literal, src, val, unc, 'lenA', shape)

    # ------------------------------------------------------- another uncertainty
    def setter(u, v, src, kind, sh=('n',)):
        x, a, e0 = make(u, sh)
        e = W.arr('e', shp(W, sh), positive=True)
        w, q = W.q(e, v), W.q(e, u)
        before = [(o, W.snap(o)) for o in (e, w, q)]
        val = T.mul(N.val(a), fac(u))
        what = '%s with w in %s, x in %s' % (src, v, u)
        W.do(src, what, x=x, e=e, w=w, q=q)
        is_(what, x, dims_of(u), val, T.mul(N.val(e), fac(v if kind == 'w' else u)), shp(W, sh))
        for o, s in before:
            W.unchanged(what, s, o)
    for u, v in UN.items():
        for sh in ((), ('n',), ('n', 'k'), (1,), (1, 1), (0,)):
            S.add('set in other units: %s, %s, %s' % (u, v, sh), setter, u, v, 'x.uncertainty = w', 'w', sh)
            S.add('set in the same units: %s, %s, %s' % (u, v, sh), setter, u, v, 'x.uncertainty = q', 'q', sh)
    for sh in ((), ('n',), ('n', 'k'), (1,), (1, 1), (0,)):
        S.add('set to plain values: %s' % (sh,), setter, 'pq.dimensionless', 'ratA', 'x.uncertainty = e', 'e', sh)

    def refused(src, u, sh, v, she):
        """an uncertainty of another shape or dimension"""
        x, a, _ = make(u, sh)
        e = W.arr('e', shp(W, she), positive=True)
        w = W.q(e, v)
        q = W.q(W.arr('b', shp(W, sh)), u)
        before = [(o, W.snap(o)) for o in (x, a, e, w, q)]
        s = src.replace('UU', u).replace('U(', 'pq.UncertainQuantity(')
        what = '%s with x in %s of shape %s, e of shape %s, w in %s' % (s, u, sh, she, v)
        W.refuse(s, ('ValueError', 'TypeError'), what, x=x, a=a, e=e, w=w, q=q)
        for o, b in before:
            W.unchanged(what, b, o)
    MIS = [((3,), (2,)), ((3,), ()), ((), (3,)), ((2, 3), (3,)), ((3,), (1,)), ((1,), ()), ((2, 3), (3, 2)), ((2, 3), (6,)), ((3,), (3, 1)), ((2, 3), (2, 1)), ((2, 3), ()), (('n', 2), ('n', 3)),
           (('n', 'k'), ('n',)), (('n',), ('n', 1)), (('n',), ('n', 'k')), (('n',), ()), ((), (1,))]
    for src in ('_r = U(a, UU, e)', '_r = U(a, UU, w)', '_r = U(q, uncertainty=e)', '_r = U(q, UU, w)', 'x.uncertainty = w', '_r = U(x, UU, w)', '_r = U(a, uncertainty=e, units=UU)'):
        for sh, she in MIS:
            S.add('%s refused for the shapes %s and %s' % (src, sh, she), refused, src, 'lenA', sh, 'lenB', she)
    for sh, she in MIS:
        S.add('x.uncertainty = e refused for the shapes %s and %s' % (sh, she), refused, 'x.uncertainty = e', 'pq.dimensionless', sh, 'pq.dimensionless', she)
    for src in ('_r = U(a, UU, w)', '_r = U(q, uncertainty=w)', '_r = U(q, UU, w)', 'x.uncertainty = w', '_r = U(x, UU, w)', '_r = U(x, uncertainty=w)'):
        for u, v in (('lenA', 'timA'), ('lenA', 'lenA**2'), ('lenA', 'pq.dimensionless'), ('velA', 'lenA'), ('pq.dimensionless', 'lenA'), ('ratA', 'timA'), ('frcA', 'masA'), ('lenA', 'lenA**-1')):
            S.add('%s refused for %s of %s' % (src, v, u), refused, src, u, ('n',), v, ('n',))
    for u in ('lenA', 'velA', 'lenA**2'):
        S.add('x.uncertainty = e refused without units for %s' % u, refused, 'x.uncertainty = e', u, ('n',), u, ('n',))
    def xunits(src, u, v):
        x, a, e = make(v)
        b = W.snap(x)
        W.refuse(src.replace('UU', u).replace('U(', 'pq.UncertainQuantity('), ('ValueError',), '%s with x in %s, to %s' % (src, v, u), x=x)
        W.unchanged(src, b, x)
    for u, v in (('lenA', 'timA'), ('lenA', 'lenA**2'), ('pq.dimensionless', 'lenA'), ('velA', 'lenA')):
        for src in ('_r = U(x, UU)', '_r = x.rescale(UU)', 'x.units = UU'):
            S.add('%s refused for %s to %s' % (src, v, u), xunits, src, u, v)

    # ------------------------------------------------------------- conversion
    def convert(src, u, v, sh=('n',), dt='float64'):
        x, a, e = make(u, sh, dt=dt)
        s0 = W.snap(x)
        val, unc = T.mul(N.val(a), fac(u)), T.mul(N.val(e), fac(u))
        src = src.replace('VV', v)
        what = '%s of %s' % (src, u)
        r = W.do('r = x; ' + src, what, x=x)['r']
        is_(what, r, dims_of(v), val, unc, shp(W, sh))
        if r is not x:
            W.unchanged(what, s0, x)
            # and apart
            W.do('r.uncertainty.magnitude[...] = 0' if sh else 'r.uncertainty.magnitude[()] = 0', what, r=r)
            W.unchanged(what + ', then the result changed', s0, x)
    for u, v in UN.items():
        for src in ('r = x.rescale(VV)', 'r = x.rescale((1.0*VV).units)', 'r = x.rescale((1.0*VV).dimensionality)', 'x.units = VV', 'r = x.rescale(VV).rescale(VV)', 'r = x.rescale(VV, dtype=float)',
                    'r = pq.UncertainQuantity(x, VV)', 'r = x.copy(); r.units = VV'):
            for sh in ((('n',), ('n', 'k'), (), (1,), (1, 1), (0,)) if u in ('lenA', 'frcA') else (('n',),)):
                S.add('%s of %s to %s, %s' % (src, u, v, sh), convert, src, u, v, sh)
        S.add('there and back %s, %s' % (u, v), convert, 'r = x.rescale(VV).rescale(%s)' % u, u, u)
        for src in ('r = x.astype(float)', 'r = x.astype("f8", copy=True)', 'r = x.copy()', 'import copy; r = copy.copy(x)', 'import copy; r = copy.deepcopy(x)', 'r = x.rescale(%s)' % u, 'r = x.simplified.rescale(%s)' % u):
            S.add('a copy of %s: %s' % (u, src), convert, src, u, u)
    S.add('no conversion', convert, 'r = x.rescale(lenA)', 'lenA', 'lenA')
    for u, v in (('lenA', 'lenB'), ('frcA', 'masA*lenB/timB**2')):
        S.add('x.units of integers %s' % u, convert, 'r = x.rescale(VV)', u, v, ('n',), 'int64')

    def simplified(u, sh, src='x.simplified'):
        x, a, e = make(u, sh)
        s0 = W.snap(x)
        sc, base = W.factor(dims_of(u))
        r = W.ev(src, x=x)
        is_('%s of %s' % (src, u), r, base, T.mul(N.val(a), sc), T.mul(N.val(e), sc), shp(W, sh))
        W.unchanged('simplified', s0, x)
    for u in list(UN) + ['pq.km', 'pq.percent', 'lenA/timA', 'lenB**2*timA**-1']:
        for sh in (('n',), (), ('n', 'k'), (1,), (1, 1), (0,)):
            S.add('simplified of %s, %s' % (u, sh), simplified, u, sh)
    S.add('simplified twice', simplified, 'frcA', ('n',), 'x.simplified.simplified')
    S.add('simplified of a conversion', simplified, 'lenA', ('n',), 'x.rescale(lenB).simplified')

    # --------------------------------------------- elements, shapes, selections
    def same_op(src, sh, u='frcA', v=None, elsewhere=False):
        """src (over x) does to the uncertainty what it does to plain values"""
        x, a, e = make(u, sh, v)
        i, m = W.arr('i', (4,), 'int64'), W.arr('mm', shp(W, sh[:1]), 'bool')
        kw = dict(i=i, m=m, n=W.num('n', 'int'), three=3)
        s0 = W.snap(x)
        what = '%s with x of shape %s' % (src, sh)
        what += ' in ' + u
        try:
            ra, re = [W.run('_r = ' + src, x=z, **kw)['_r'] for z in (a, e)]
        except spec.PyRaise as exc:      # (too short)
            W.refuse('_r = ' + src, (exc.exc.cls.name,), what, x=x, **kw)
            W.unchanged(what, s0, x)
            return
        r = W.ev(src, what, x=x, **kw)
        matches(what, r)
        W.want_units(what, r, dims_of(u))
        W.want_mag(what, r, W.mag(ra))
        want_shape(what, W.shape(r), W.shape(ra))
        W.want_mag(what + ': uncertainty', W.unc(r), W.mag(re) if v is None else T.mul(W.mag(re), T.div(fac(v), fac(u))))
        W.unchanged(what, s0, x)
    ONE_D = ['x[0]', 'x[-1]', 'x[1:3]', 'x[::2]', 'x[::-1]', 'x[1:]', 'x[:-1]', 'x[...]', 'x[:]', 'x[...,0]', 'x[None]', 'x[:, None]', 'x[np.newaxis, :]', 'x[i]', 'x[[0, 2]]', 'x[np.array([2, 0, 1])]', 'x[(0,)]',
             'x[1:3][0]', 'x[1:][::2]', 'x[i][0]', 'x[::-1][0]', 'x[np.int64(1)]', 'x[slice(1, 3)]', 'x[m]',
             'x.take([0, 2])', 'x.take(i)', 'x.take([0, 2], 0)', 'x.take([2, 0], axis=0)', 'np.take(x, [0, 2])', 'x.repeat(2)', 'x.repeat(2, 0)', 'x.repeat(three, axis=0)', 'np.repeat(x, 2)',
             'x.reshape(-1)', 'x.reshape((-1, 1))', 'x.reshape(1, -1)', 'np.reshape(x, (-1, 1))', 'x.ravel()', 'x.flatten()', 'np.ravel(x)', 'x.T', 'x.transpose()', 'np.transpose(x)', 'x.copy()', 'x.view()',
             'x.swapaxes(0, 0)', 'x[1:3].copy()', 'x[1:3].reshape(-1, 1)', 'x.reshape(-1, 1)[0]', 'x.reshape(-1, 1).T', 'np.expand_dims(x, 0)', 'np.flip(x)', 'np.flip(x, 0)',
             'x.copy("C")', 'x.flatten("C")', 'x.take([0, 1], mode="wrap")', 'np.atleast_1d(x)', 'x.flatten("F")', 'x.ravel("F")', 'x.reshape(-1, order="F")', 'x.copy("F")', 'x.take([7, 0], mode="clip")',
             'x.take([[0, 1], [1, 0]])', 'x.take(0)', 'x.take([0, 2], None)', 'x.repeat([1, 2, 0, 1, 1])', 'x.ravel("K")', 'x.squeeze()']
    TWO_D = ['x[0]', 'x[-1]', 'x[0, 1]', 'x[0][1]', 'x[:, 0]', 'x[:, 1:]', 'x[1:, ::2]', 'x[..., 0]', 'x[0, ...]', 'x[:, None, 0]', 'x[i]', 'x[:, [0, 1]]', 'x[[0, 1], [1, 0]]', 'x[[0, 1], 1]', 'x[::-1, ::-1]', 'x[m]',
             'x[:, -1]', 'x[..., None]', 'x[0:2, 0:2]',
             'x.take([0, 2])', 'x.take([0, 1], 0)', 'x.take([0, 1], axis=1)', 'x.take([1, 0], -1)', 'np.take(x, [1, 0], 1)', 'np.take(x, [1, 0], axis=0)', 'x.take(i, axis=1)',
             'x.repeat(2)', 'x.repeat(2, 0)', 'x.repeat(2, 1)', 'x.repeat(3, axis=-1)', 'np.repeat(x, 2, 1)', 'np.repeat(x, 2, axis=0)',
             'x.T', 'x.transpose()', 'x.transpose(1, 0)', 'x.transpose((1, 0))', 'x.transpose(0, 1)', 'np.transpose(x)', 'np.transpose(x, (1, 0))', 'x.swapaxes(0, 1)', 'x.swapaxes(-1, 0)', 'np.swapaxes(x, 0, 1)',
             'x.ravel()', 'x.flatten()', 'x.reshape(-1)', 'x.reshape((-1,))', 'np.ravel(x)', 'x.T.ravel()', 'x.T[0]', 'x[0].T', 'x.T.T', 'x.T.copy()', 'x.copy().T', 'x.T.reshape(-1)', 'x[:, 1].repeat(2)', 'x.flatten()[3]',
             'x.T[1:].T', 'x.swapaxes(0, 1)[0]', 'x.T.take([0], 0)', 'x.view()[0]', 'np.expand_dims(x, 1)', 'np.flip(x, 1)', 'x.T.swapaxes(0, 1)', 'x.reshape(-1).reshape(1, -1)',
             'x.diagonal()', 'x.diagonal(1)', 'x.diagonal(offset=-1)', 'np.diagonal(x)', 'x.diagonal(0, 1, 0)', 'np.moveaxis(x, 0, 1)', 'np.rollaxis(x, 1)', 'x.take([0, 1], 0, mode="clip")',
             'x.flatten("F")', 'x.ravel("F")', 'x.ravel(order="F")', 'x.flatten(order="F")', 'x.reshape(-1, order="F")', 'x.reshape((-1,), order="F")', 'x.copy("F")', 'x.T.flatten("F")', 'x.T.ravel(order="F")', 'x.flatten("C")', 'x.ravel("C")',
             'np.ravel(x, order="F")', 'np.reshape(x, -1, order="F")', 'x.take([7, 0], 1, mode="clip")', 'x.take([[0, 1], [1, 0]], 1)', 'x.take(1, 1)', 'x.take(0, axis=0)', 'x.repeat([1, 2, 1], 0)', 'x.diagonal(0, 1)', 'x.diagonal(axis1=1, axis2=0)',
             'x.swapaxes(0, 0)', 'x.swapaxes(1, 1)', 'x.swapaxes(-1, 1)', 'x.take([7, -9], 0, mode="wrap")', 'x.take([5, 1], mode="clip")', 'x.take([9], axis=-1, mode="wrap")', 'x.diagonal(-1, 1, 0)', 'x.transpose(-1, 0)', 'x.transpose([1, 0])', 'x.transpose(None)', 'x.copy("F").flatten("F")', 'x.squeeze()', 'x[:, :1].squeeze()', 'x[:1].squeeze(0)', 'x.view().T']
    THREE = ['x[0]', 'x[0, 1, 0]', 'x[..., 0]', 'x[:, 0]', 'x[:, :, 1]', 'x.T', 'x.transpose(2, 0, 1)', 'x.transpose((0, 2, 1))', 'x.swapaxes(1, 2)', 'x.swapaxes(0, -1)', 'x.take([1, 0], 1)', 'x.repeat(2, 1)', 'x.ravel()', 'x.reshape(-1)',
             'x.diagonal(0, 1, 2)', 'x.diagonal(axis1=0, axis2=2)', 'np.transpose(x, (1, 2, 0))', 'x[0].T', 'x.transpose(1, 0, 2)[0]', 'x.flatten("F")', 'x.ravel("F")', 'x.reshape(-1, order="F")', 'x.transpose(1, 2, 0)', 'x.transpose((2, 0, 1)).ravel()', 'x.swapaxes(1, 2).flatten()', 'x.swapaxes(-1, 1)', 'x.swapaxes(1, 1)', 'x.swapaxes(-3, 0)', 'x.take([4, -1], 1, mode="clip")', 'x.take([4, -1], 2, mode="wrap")',
             'x.diagonal(1, 2, 0)', 'x.diagonal(-1, 0, 2)', 'x.diagonal(offset=1, axis1=1, axis2=2)', 'x.take([1, 0], 2)', 'x.take([1, 0], -2)', 'x.take(0, 1)', 'x.repeat(2, -1)', 'x.repeat(3)', 'x.take([3, 1])', 'x[:, 0, :]', 'x[0, ..., 1]', 'x[[0, 1], :, [1, 0]]',
             'x.diagonal()', 'x.reshape(x.shape[0], -1)', 'x.copy("F")', 'np.moveaxis(x, 0, 2)', 'np.rollaxis(x, 2)', 'np.swapaxes(x, 0, 2)', 'np.diagonal(x, 0, 1, 2)']
    ZERO_D = ['x[()]', 'x[...]', 'x[None]', 'x.copy()', 'x.reshape(1)', 'x.reshape((1, 1))', 'x.ravel()', 'x.flatten()', 'x.T', 'x.view()', 'x.reshape(1)[0]', 'x[None][0]', 'x.repeat(3)', 'np.expand_dims(x, 0)']
    for srcs, sh in ((ONE_D, ('n',)), (ONE_D, (5,)), (TWO_D, ('n', 'k')), (TWO_D, (3, 4)), (THREE, ('n', 'k', 2)), (THREE, (2, 3, 4)), (ZERO_D, ())):
        for src in srcs:
            if src in ('np.rollaxis(x, 1)', 'np.moveaxis(x, 0, 1)', 'np.atleast_1d(x)'):
                continue
            S.add('%s %s' % (src, sh), same_op, src, sh)
    for src in ('x.squeeze()', 'np.squeeze(x)', 'x.squeeze(-1)', 'x.squeeze(axis=0)', 'x.ravel()', 'x.T', 'x[0]', 'x[..., 0]', 'x.repeat(2)', 'x.copy()', 'x.take([0])', 'x.reshape(-1)', 'x.flatten()', 'x[None]', 'x.swapaxes(0, -1)'):
        for sh in ((1,), (1, 1), (2, 1), (1, 2), (1, 'n'), (2, 1, 2), (1, 3, 1), ('n', 1)):
            S.add('%s of shape %s' % (src, sh), same_op, src, sh)
    for src in ('x[0]', 'x[1:3]', 'x.take([0, 2])', 'x.reshape((-1, 1))', 'x.T', 'x.ravel()', 'x.repeat(2)', 'x.copy()', 'x.flatten()'):
        for u, v in UN.items():
            S.add('%s of %s with uncertainty in %s' % (src, u, v), same_op, src, ('n',), u, v)
    def memory(src, sh, xo, eo):
        """whatever the order of the elements in memory"""
        a, e = W.ev('_a.copy("%s")' % xo, _a=W.arr('a', shp(W, sh))), W.ev('_a.copy("%s")' % eo, _a=W.arr('ua', shp(W, sh), positive=True))
        x = W.uq(a, 'lenA', e)
        s0 = W.snap(x)
        what = '%s with values in %s order, uncertainties in %s order' % (src, xo, eo)
        e2 = W.ev('_a.copy("%s")' % xo, _a=e)
        ra, re = [W.run('_r = ' + src, x=z)['_r'] for z in (a, e2)]
        r = W.ev(src, what, x=x)
        matches(what, r)
        W.want_mag(what, r, W.mag(ra))
        want_shape(what, W.shape(r), W.shape(ra))
        W.want_mag(what + ': uncertainty', W.unc(r), W.mag(re))
        W.unchanged(what, s0, x)
    for xo in 'CF':
        for eo in 'CF':
            for src in ['x.%s(%s"%s")' % (f, kw, o) for f in ('ravel', 'flatten') for kw in ('', 'order=') for o in 'CFAK'] + ['x.reshape(-1, order="%s")' % o for o in 'CFA'] + \
                    ['x.reshape((4, 3), order="%s")' % o for o in 'CFA'] + ['np.ravel(x, "K")', 'x.T.ravel("K")', 'x.T.flatten("A")', 'x.copy("F").ravel("K")', 'x.copy().ravel("K")', '(1*x).ravel("A")', 'x.T.reshape(-1, order="A")', 'np.ravel(x, "A")', 'x.copy("K").flatten("K")',
                     'x[0].ravel("K")', 'x.ravel()', 'x.reshape(4, 3)', 'x.T.copy("A").ravel("A")']:
                S.add('%s for orders %s %s' % (src, xo, eo), memory, src, (3, 4), xo, eo)
            for src in ('x.ravel("K")', 'x.flatten("A")', 'x.ravel("F")', 'x.T.flatten("K")'):
                S.add('%s for orders %s %s, n by k' % (src, xo, eo), memory, src, ('n', 'k'), xo, eo)
    for src in ('x.compress([True, False, True])', 'np.compress([True, False, True], x)'):
        S.add(src, same_op, src, (3,))

    def boolmask(src, sh):
        """selection by a condition on the values"""
        x, a, e = make('lenA', sh)
        b = W.q(W.arr('b', ()), 'lenA')
        c = W.arr('b', ())
        r = W.ev(src, x=x, b=b)
        ra, re = W.ev(src, x=a, b=c), W.ev(src.replace('x[x', 'e[x'), x=a, b=c, e=e)
        matches(src, r)
        W.want_mag(src, r, W.mag(ra))
        W.want_mag(src + ': uncertainty', W.unc(r), W.mag(re))
    for src in ('x[x > b]', 'x[x <= b]', 'x[x == b]', 'x[x > b][0]'):
        for sh in (('n',), ('n', 'k')):
            S.add('%s with %s' % (src, sh), boolmask, src, sh)

    # ------------------------------------------------------------------ extrema
    def extreme(src, sh, u, where, arg):
        """x's largest or smallest element and the uncertainty of that element"""
        x, a, e = make(u, sh)
        s0 = W.snap(x)
        what = '%s with x of shape %s in %s' % (src, sh, u)
        r = W.ev(src, what, x=x)
        idx = W.ev(arg.replace('(x', '(v'), v=a)
        pick = 'np.take_along_axis(y, np.expand_dims(idx, %s), %s).squeeze(%s)' % (where, where, where) if where is not None else 'y[np.unravel_index(idx, y.shape)]'
        val, unc = W.mag(W.ev(pick, y=a, idx=idx)), W.mag(W.ev(pick, y=e, idx=idx))
        plainval = W.mag(W.ev(_plain(src), v=a))
        matches(what, r)
        W.want_units(what, r, dims_of(u))
        W.want_mag(what, r, plainval)
        W.want_mag(what + ': uncertainty', W.unc(r), unc)
        W.unchanged(what, s0, x)

    def _plain(src):
        import re
        if src.startswith('x.'):
            f, args = re.match(r'x\.(\w+)\((.*)\)$', src).groups()
            return 'np.%s(v%s)' % (f, ', ' + args if args else '')
        f, args = re.match(r'(np\.\w+)\(x(.*)\)$', src).groups()
        return '%s(v%s)' % (f, args)
    for f, g in (('max', 'argmax'), ('min', 'argmin'), ('nanmax', 'nanargmax'), ('nanmin', 'nanargmin')):
        for u in ('lenA', 'ratA', 'pq.dimensionless', 'lenA/timA'):
            for src in ('x.%s()' % f, 'np.%s(x)' % f)[:1 if 'nan' in f else 2]:
                S.add('%s of %s' % (src, u), extreme, src, ('n',), u, None, 'np.%s(x)' % g)
            S.add('x.%s() of %s, two axes' % (f, u), extreme, 'x.%s()' % f, ('n', 'k'), u, None, 'np.%s(x)' % g)
        for ax in (0, 1, -1):
            for src in ('x.%s(%d)', 'x.%s(axis=%d)', 'np.%s(x, axis=%d)')[:2 if 'nan' in f else 3]:
                for sh in (('n', 'k'), (2, 3)):
                    S.add(src % (f, ax) + ' %s' % (sh,), extreme, src % (f, ax), sh, 'lenA', ax, 'np.%s(x, %d)' % (g, ax))
        S.add('x.%s(0), one axis' % f, extreme, 'x.%s(0)' % f, ('n',), 'lenA', 0, 'np.%s(x, 0)' % g)
        S.add('x.%s(1), three axes' % f, extreme, 'x.%s(1)' % f, ('n', 'k', 2), 'lenA', 1, 'np.%s(x, 1)' % g)

    # ------------------------------------------------------------ output arrays
    def into(f, arg, sh, u, kind, ou):
        x, a, e = make(u, sh)
        s0 = W.snap(x)
        call = 'x.%s(%s)' % (f, arg)
        p = W.ev(call, x=x)
        osh = W.shape(p)
        o = W.arr('o', osh)
        if kind == 'quantity':
            o = W.q(o, ou)
        elif kind == 'uncertain':
            o = W.uq(o, ou, W.arr('uo', osh, positive=True))
        what = 'x.%s(%s%sout=o) with o %s in %s' % (f, arg, ', ' if arg else '', kind, ou)
        r = W.ev(what.split(' with')[0], what, x=x, o=o)
        matches(what, r)
        W.want_units(what, r, dims_of(u))
        W.want_mag(what, r, W.mag(p))
        W.want_mag(what + ': uncertainty', W.unc(r), W.mag(W.unc(p)))
        W.want_mag(what + ': the array', o, W.mag(p))
        if kind != 'array':
            W.want_units(what + ': the array', o, dims_of(u))
        if kind == 'uncertain':
            matches(what + ': the array', o)
            W.want_mag(what + ': uncertainty of the array', W.unc(o), W.mag(W.unc(p)))
        W.unchanged(what, s0, x)
    for f in ('sum', 'nansum', 'mean', 'nanmean'):
        for arg, sh in (('0', ('n', 'k')), ('axis=1', ('n', 'k')), ('-1', (2, 3)), ('', ('n',)), ('', ('n', 'k'))):
            for kind, ou in (('uncertain', 'timA'), ('uncertain', 'lenB'), ('uncertain', 'lenA'), ('quantity', 'timA'), ('quantity', 'lenB'), ('quantity', 'lenA'), ('array', '')):
                S.add('%s(%s) of shape %s into %s in %s' % (f, arg, sh, kind, ou), into, f, arg, sh, 'lenA', kind, ou)

    # ------------------------------------------------------------------- copies
    PRE = 'import copy, pickle\n'
    def copied(expr, u, sh, v=None):
        x, a, e = make(u, sh, v)
        s0 = W.snap(x)
        what = '%s of %s with shape %s' % (expr, u, sh)
        r = W.do(PRE + 'r = ' + expr, what, x=x)['r']
        want(what, r is not x, 'is the same object')
        is_(what, r, dims_of(u), T.mul(N.val(a), fac(u)), T.mul(N.val(e), fac(v or u)), shp(W, sh))
        s1 = W.snap(r)
        k = '...' if sh else '()'
        W.do('r.uncertainty.magnitude[%s] = 7; r.magnitude[%s] = 8' % (k, k), what, r=r)
        W.unchanged(what + ', then the copy changed', s0, x)
        r = W.do(PRE + 'r = ' + expr, what, x=x)['r']
        W.do('x.uncertainty.magnitude[%s] = 7; x.magnitude[%s] = 8' % (k, k), what, x=x)
        W.unchanged(what + ', then the original changed', s1, r, 'copy')
    for expr in ('x.copy()', 'copy.copy(x)', 'copy.deepcopy(x)', 'pickle.loads(pickle.dumps(x))', 'copy.deepcopy([x])[0]', 'x.copy().copy()', 'copy.deepcopy(x.copy())', 'pickle.loads(pickle.dumps(copy.deepcopy(x)))'):
        for u, v in (('lenA', None), ('lenA', 'lenB'), ('frcA', None), ('pq.dimensionless', 'ratA'), ('pq.m', None)):
            for sh in ((), ('n',), ('n', 'k'), (1,), (1, 1), (0,)):
                S.add('%s of %s %s %s' % (expr, u, v, sh), copied, expr, u, sh, v)

    def views(src, sh):
        """a view shows the changes of the elements it shares"""
        x, a, e = make('lenA', sh)
        W.do(src, x=x)
        matches(src, x)
    # -------------------------------------------------------------- in the order
    def sort(src, sh, ax):
        x, a, e = make('frcA', sh)
        s0 = W.snap(x)
        what = '%s with x of shape %s' % (src, sh)
        r = W.do('r = x; ' + src, what, x=x)['r']
        idx = W.ev('np.argsort(y, %d)' % ax, y=W.arr('a', shp(W, sh)))
        p = 'np.take_along_axis(y, idx, %d)' % ax
        matches(what, r)
        W.want_mag(what, r, W.mag(W.ev(p, y=W.arr('a', shp(W, sh)), idx=idx)))
        W.want_mag(what + ': uncertainty', W.unc(r), W.mag(W.ev(p, y=W.arr('ua', shp(W, sh), positive=True), idx=idx)))
        if r is not x:
            W.unchanged(what, s0, x)
    for src, sh, ax in (('x.sort()', ('n',), 0), ('x.sort()', ('n', 'k'), 1), ('x.sort(0)', ('n', 'k'), 0), ('x.sort(axis=1)', ('n', 'k'), 1), ('r = np.sort(x)', ('n',), 0), ('r = np.sort(x, 0)', ('n', 'k'), 0),
                        ('r = np.sort(x, axis=-1)', ('n', 'k'), 1), ('r = x.copy(); r.sort()', ('n',), 0), ('x.sort(kind="stable")', ('n',), 0)):
        S.add('%s %s' % (src, sh), sort, src, sh, ax)

    def partition(src, sh, kth, ax):
        x, a, e = make('frcA', sh)
        s0 = W.snap(x)
        what = '%s with x of shape %s' % (src, sh)
        r = W.do('r = x; ' + src, what, x=x)['r']
        idx = W.ev('np.argpartition(y, %s, %d)' % (kth, ax), y=W.arr('a', shp(W, sh)))
        p = 'np.take_along_axis(y, idx, %d)' % ax
        matches(what, r)
        W.want_units(what, r, dims_of('frcA'))
        W.want_mag(what, r, W.mag(W.ev(p, y=W.arr('a', shp(W, sh)), idx=idx)))
        W.want_mag(what + ': uncertainty', W.unc(r), W.mag(W.ev(p, y=W.arr('ua', shp(W, sh), positive=True), idx=idx)))
        if r is not x:
            W.unchanged(what, s0, x)
    for src, sh, kth, ax in (('x.partition(1)', ('n',), 1, 0), ('x.partition(2, axis=0)', ('n', 'k'), 2, 0), ('x.partition(2, 1)', ('n', 'k'), 2, 1), ('x.partition((1, 2))', ('n',), (1, 2), 0),
                             ('r = np.partition(x, 1)', ('n',), 1, 0), ('r = np.partition(x, 1, 0)', ('n', 'k'), 1, 0), ('r = x.copy(); r.partition(3)', ('n',), 3, 0)):
        S.add('%s %s' % (src, sh), partition, src, sh, kth, ax)

    def reshaped(src, sh, to):
        x, a, e = make('frcA', sh)
        r = W.do('r = x; ' + src, x=x)['r']
        want_shape(src, W.shape(r), shp(W, to))
        matches(src, r)
    for src, sh, to in (('x.shape = (3, 1)', (3,), (3, 1)), ('x.shape = (2, 3)', (6,), (2, 3)), ('r = x.copy(); r.shape = (-1,)', ('n', 'k'), None), ('r = np.broadcast_to(x, (2, 3), subok=True)', (3,), (2, 3))):
        if to is not None:
            S.add('%s %s' % (src, sh), reshaped, src, sh, to)

    # ---------------------------------------------------------------- functions
    def any_result(src, u, v, sh=('n',)):
        """whatever comes out is matched by its uncertainty"""
        x, y = make(u, sh)[0], make(v, sh, name='b')[0]
        s0, s1 = W.snap(x), W.snap(y)
        try:
            r = W.run('_r = ' + src, x=x, y=y)['_r']
        except spec.PyRaise:
            return done('refused')
        for z in r if isinstance(r, tuple) else [r]:
            if isinstance(z, AArr) and z.cls.name == 'UncertainQuantity':
                matches('%s of %s and %s' % (src, u, v), z)
        W.unchanged(src, s0, x)
        W.unchanged(src, s1, y)
    UF1 = ('negative absolute fabs sqrt square reciprocal floor ceil rint exp log sin cos tan arcsin arctan sinh conjugate isfinite isnan fix degrees radians deg2rad rad2deg ones_like zeros_like empty_like').split()
    UF2 = ('add subtract multiply divide true_divide floor_divide remainder mod fmod maximum minimum hypot arctan2 power equal less greater not_equal less_equal greater_equal').split()
    for u in ('lenA', 'frcA', 'ratA', 'pq.dimensionless', 'pq.radian', 'pq.degree', 'lenA**2'):
        for f in UF1:
            S.add('np.%s of %s' % (f, u), any_result, 'np.%s(x)' % f, u, u)
        for s in ('abs(x)', '-x', 'x.sqrt()', 'x.clip(x.min(), x.max())', 'x.round(1)', 'x.conj()', 'x.real', 'x.imag', 'x.squeeze()', 'x.cumsum()', 'x.std()', 'x.var()', 'x.prod()', 'x.ptp()', 'np.ptp(x)', 'x.trace()', 'x.sum()', 'x.mean()',
                  'x.nansum()', 'x.nanmean()', 'np.sum(x)', 'np.mean(x)', 'np.std(x)', 'np.var(x)', 'np.prod(x)', 'np.cumsum(x)', 'np.diff(x)', 'np.ediff1d(x)', 'pq.diff(x)', 'pq.ediff1d(x)', 'pq.gradient(x)', 'pq.sum(x)', 'pq.nansum(x)',
                  'pq.cumsum(x)', 'np.squeeze(x)', 'np.real(x)', 'np.around(x, 1)', 'x.astype("f4")', 'x.astype(float)', 'abs(x) + x', 'abs(x)[0]', 'x//x', 'x % x', 'np.sqrt(x) + np.sqrt(x)', 'np.multiply(x, x) - x**2',
                  'abs(x).rescale(x.units)', 'np.add(x, x).simplified', 'np.maximum(x, x)[0]', 'np.sqrt(x)**2 + x', 'np.hypot(x, x) - x', 'x.max() - x.min()', 'x - x.mean()', 'x/x.sum()', 'x[0]*x', 'x + x[0]', '(x*x)[1:]'):
            S.add('%s of %s' % (s, u), any_result, s, u, u)
    for u, v in (('lenA', 'lenB'), ('lenA', 'timA'), ('ratA', 'ratB'), ('pq.dimensionless', 'ratA'), ('frcA', 'masA*lenB/timB**2'), ('pq.radian', 'pq.degree'), ('lenA', 'pq.dimensionless')):
        for f in UF2:
            for s in ('np.%s(x, y)', 'np.%s(x, y[0])', 'np.%s(x[0], y)', 'np.%s(x[:, None], y)', 'np.%s(x, y.view(pq.Quantity))', 'np.%s(x.view(pq.Quantity), y)', 'np.%s(x.magnitude, y)', 'np.%s(x, y.magnitude)'):
                if not thorough and s.endswith(('magnitude)', ', y[0])', 'magnitude, y)')) and f in ('true_divide', 'mod', 'minimum', 'subtract', 'less', 'greater_equal', 'not_equal', 'less_equal'):
                    continue
                S.add((s % f) + ' of %s and %s' % (u, v), any_result, s % f, u, v)
        for s in ('x // y', 'x % y', 'x % y + x', 'x//y + x/y', '(x*y)[0]', '(x/y).simplified', '(x*y).rescale((1.0*x.units*y.units).simplified.units)'):
            S.add(s + ' of %s and %s' % (u, v), any_result, s, u, v)

    # ---------------------------------------------------------------- histories
    STEPS = [('x = x.rescale(VV)', 'u'), ('x = x.simplified', 'b'), ('x = x.copy(); x.units = VV', 'u'), ('x = x[1:]', 'i'), ('x = x[::-1]', 'i'), ('x = x.reshape((-1, 1))', 'i'), ('x = x.T', 'i'), ('x = x.copy()', 'i'),
             ('x = x.ravel()', 'i'), ('x = x*2', 'm2'), ('x = -x', 'm-1'), ('x = x.take([1, 0])', 'i'), ('x = x.repeat(2)', 'i'), ('x = x.astype(float)', ''), ('x = pq.UncertainQuantity(x)', ''),
             ('x = copy.deepcopy(x)', ''), ('x = pickle.loads(pickle.dumps(x))', ''), ('x = x.view()', 'i'), ('x = x[[0, 1]]', 'i'), ('x.uncertainty = x.uncertainty*3', 'e3'), ('x *= 2', 'M2'), ('x = x + x*0', ''), ('x = x.flatten()', 'i'),
             ('x = pq.UncertainQuantity(x, VV)', 'u'), ('x = pq.UncertainQuantity(x.magnitude, x.units, x.uncertainty)', ''), ('x = x.swapaxes(0, -1)', 'i')]

    def history(steps):
        x = make('lenA', ('n',), 'lenB')[0]
        _, a, e = make('lenA', ('n',), 'lenB')
        sv, se = fac('lenA'), fac('lenB')
        dims = dims_of('lenA')
        what = '; '.join(s for s, _ in steps)
        for src, kind in steps:
            r = W.do(PRE + src.replace('VV', 'lenB'), what, x=x)
            x = r['x']
            if kind == 'i':
                a, e = W.do(src, x=a)['x'], W.do(src, x=e)['x']
            elif kind == 'u':
                dims = dims_of('lenB')
            elif kind == 'b':
                dims = W.factor(dims)[1]
            elif kind[:1] in 'mM' and kind:
                c = int(kind[1:])
                sv, se = T.mul(sv, C(c)), T.mul(se, C(abs(c)))
            elif kind == 'e3':
                se = T.mul(se, C(3))
        is_(what, x, dims, T.mul(N.val(a), sv), T.mul(N.val(e), se), N.shape_of(a))
    import itertools
    seqs = list(itertools.product(STEPS, repeat=2))
    if thorough:
        core = [s for s in STEPS if s[0] in ('x = x.rescale(VV)', 'x = x.simplified', 'x = x.copy(); x.units = VV', 'x = x[1:]', 'x = x.reshape((-1, 1))', 'x = x.T', 'x = -x', 'x = x.repeat(2)', 'x = copy.deepcopy(x)',
                                             'x.uncertainty = x.uncertainty*3', 'x *= 2', 'x = x.ravel()')]
        seqs += list(itertools.product(core, repeat=3))
    for q in seqs:
        S.add('; '.join(s for s, _ in q), history, q)
    return S.items, {}
