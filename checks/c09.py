from .common import *

TITLE = 'element access keeps units, element assignment converts'
LEVEL = 'other'
FLOOR = 400
EXPLAIN = ('abstract interpretation of indexing, iteration and element assignment: what an index selects or writes on the '
           'quantity is what the same index selects or writes on the bare array of numbers, with the units of the quantity on '
           'access and the physical value converted to them on assignment; a value of another dimension raises ValueError and '
           'writes nothing')

SH = {'vector': ('n',), 'matrix': ('n', 'k'), 'scalar': (), '3': (3,), '2x3': (2, 3), '3xk': (3, 'k'), '1': (1,), '2x1': (2, 1), '1x2': (1, 2), '1x1': (1, 1), '0': (0,), '2x0': (2, 0), '2x1x2': (2, 1, 2), 'cube': ('n', 'k', 'm')}
# index -> shapes it is tried on
IDX = [('0', ('vector', 'matrix', '3', '2x3')), ('-1', ('vector', 'matrix', '3')), ('1', ('3', '2x3')), ('...', ('vector', 'matrix', 'scalar')),
       ('()', ('vector', 'scalar', 'matrix')), (':', ('vector', 'matrix')), ('1:', ('vector', 'matrix', '3')), ('::2', ('vector', '3')), ('::-1', ('vector', '3')),
       ('-2:', ('vector',)), ('0:0', ('vector',)), ('0, 1', ('matrix', '2x3')), ('0, ...', ('matrix', 'vector')), ('..., 0', ('matrix', 'vector')),
       (':, 1', ('matrix', '2x3')), ('1:, 0', ('matrix',)), (':, 1:', ('matrix', '2x3')), ('[0, 2]', ('vector', '3')), ('[0]', ('vector', 'matrix')),
       ('[-1, 0]', ('vector',)), ('np.array([0, 1])', ('vector', 'matrix')), ('(1, 2)', ('2x3',)), ('np.newaxis', ('vector', 'scalar')),
       (':, np.newaxis', ('vector',)), ('i', ('vector', 'matrix')), ('i, j', ('matrix',)), ('b', ('vector',)), ('b3', ('3',)), ('q > q[0]', ('vector',)),
       ('[True, False, True]', ('3',)), ('[0, 1], [1, 0]', ('matrix', '2x3')), ('np.int64(1)', ('vector',)), ('slice(1, None)', ('vector',)),
       ('[[0, 1], [1, 0]]', ('vector',)), ('q.argmax()', ('vector',)), ('q == q[0]', ('vector',)), ('Ellipsis, 0', ('matrix',))]
SRC = ['lenA', 'frcA', 'ratA', 'pq.dimensionless', 'lenA**-1*timA**0.5']
# values of the dimension of lenA: (expression, what to store in terms of the magnitude x of a scalar / unit factor)
UNITS_V = ['lenA', 'lenB', 'pq.m', 'pq.km', 'lenC', 'velA*timB', 'lenA*ratA', 'lenA**2/lenB', 'lenA*timA*masA*pq.K/timB/masA/pq.K']
BAD = ['2*timA', '2*timC', 'timC', 'pq.Quantity([1.0], timC)', 'timA', 'pq.Quantity([1.0], timA)', '2.0', '3', 'np.array(2.0)', '[1.0]', 'True', '2*ratA', 'ratA', 'lenA*timA', '2*pq.dimensionless', '2*lenA**2',
       'q.magnitude', 'q**2', 'q*q', '1/q', 'pq.UncertainQuantity(1.0, timA, 0.1)', "'m'", 'pq.radian', '3*pq.degree', '0', '0.0', '0*timA', 'np.nan', 'np.inf',
       'pq.constants.natural_unit_of_velocity', 'None']


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'

    def env():
        return dict(i=W.num('i0', 'int', True), j=W.num('j0', 'int', True), b=W.arr('b', (W.dim('n'),), 'bool'), b3=W.arr('b', (3,), 'bool'))

    def q_and_a(u, sh, kind='plain', dt='float64'):
        s = shp(W, SH[sh])
        if kind == 'uncertain':
            q = W.uq(W.arr('q', s), u, W.arr('uq', s, positive=True))
        elif kind == 'slice':
            q = W.ev('_q[...]', _q=W.q(W.arr('q', s), u))
        else:
            q = W.q(W.arr('q', s, dt), u)
        return q, W.arr('q', s, dt)

    def access(u, sh, ix, kind='plain', dt='float64'):
        q, a = q_and_a(u, sh, kind, dt)
        kw = env()
        ref = ix.replace('q', 'a')
        what = 'q[%s]' % ix
        try:
            p = W.tryrun('_r = a[%s]' % ref, a=a, **kw)['_r']
        except Raised as e:
            W.refuse('_r = q[%s]' % ix, names=(e.name,), q=q, **kw)
            return
        before = W.snap(q)
        r = W.ev('q[%s]' % ix, what, q=q, **kw)
        W.want_q(what, r, 'UncertainQuantity' if kind == 'uncertain' else 'Quantity')
        W.want_units(what, r, dims_of(u))
        W.want_mag(what, r, W.mag(p))
        want_shape(what, W.shape(r), W.shape(p))
        if isinstance(p, AArr):
            want(what, r.dtype is p.dtype, 'has the type %s, not %s' % (r.dtype.name, p.dtype.name))
        if kind == 'uncertain':
            pu = W.ev('_u[%s]' % ref, a=a, _u=W.arr('uq', shp(W, SH[sh]), positive=True), **kw)
            x = W.unc(r)
            W.want_units(what + ': uncertainty', x, dims_of(u))
            W.want_mag(what + ': uncertainty', x, W.mag(pu))
            want_shape(what + ': uncertainty', W.shape(x), W.shape(p))
        W.unchanged(what, before, q)

    def store(u, sh, ix, val, kind='plain', dt='float64', vt='float64'):
        """val: an expression for a quantity; p: the bare numbers it stands for"""
        q, a = q_and_a(u, sh, kind, dt)
        kw = env()
        kw.update(x=W.arr('x', (), vt))
        if val.startswith('V'):
            # an array of the shape the index selects
            try:
                s = W.shape(W.tryrun('_r = a[%s]' % ix.replace('q', 'a'), a=a, **kw)['_r'])
            except Raised:
                return
            kw['V'] = W.arr('v', s, vt)
        v = W.ev(val, **kw)
        what = 'q[%s] = %s in %s' % (ix, val, u)
        t, base = W.si(v)
        f, b0 = W.factor(dims_of(u))
        if base != b0 and spec.showdims(base) != spec.showdims(b0):
            raise Undecided('the value has another dimension')
        p = N.plain(T.mul(t, T.inv(f)), W.shape(v), N.DT['complex128'] if v.dtype.kind == 'c' else F8)
        if v.dtype.kind in 'iu' and W.dims(v) == W.dims(q):
            p = N.plain(W.mag(v), W.shape(v), v.dtype)
        vb, qd = W.snap(v), W.dims(q)
        try:
            W.tryrun('a[%s] = p' % ix.replace('q', 'a'), a=a, p=p, **kw)
        except Raised as e:
            W.refuse('q[%s] = v' % ix, names=(e.name, 'ValueError'), q=q, v=v, **kw)
            return
        same = q
        ns = W.do('q[%s] = v' % ix, what, q=q, v=v, **kw)
        want(what, ns['q'] is same, 'is another object')
        W.want_mag(what, q, W.mag(a))
        W.want_units(what, q, qd)
        W.unchanged(what, vb, v, 'the value')

    def bad(u, sh, ix, val, kind='plain', form='q[%s] = %s'):
        q, a = q_and_a(u, sh, kind)
        kw = env()
        what = form % (ix, val)
        before = W.snap(q)
        try:
            W.run(what, q=q, x=W.arr('x', ()), **kw)
        except spec.PyRaise as e:
            want(what, any(c.name in ('ValueError', 'TypeError') for c in e.exc.cls.mro), 'raised %s at %s' % (e.exc.cls.name, e.where))
            done('refused')
            W.unchanged(what, before, q)
            return
        fail(what, 'was accepted, giving %s' % W.show(q))

    for ix, shs in IDX:
        for sh in shs:
            for u in SRC if thorough or sh == 'vector' else SRC[:2]:
                S.add('q[%s] of a %s of %s' % (ix, sh, u), access, u, sh, ix)
            S.add('q[%s] of an uncertain %s' % (ix, sh), access, 'lenA', sh, ix, 'uncertain')
            if 'q' in ix and sh == 'matrix':
                continue
            for n, uv in enumerate(UNITS_V):
                if thorough or sh == 'vector' or n < 3:
                    S.add('q[%s] = x*%s for a %s' % (ix, uv, sh), store, 'lenA', sh, ix, 'x*(%s)' % uv)
                if thorough or n in (0, 1, 4):
                    S.add('q[%s] = array in %s for a %s' % (ix, uv, sh), store, 'lenA', sh, ix, 'V*(%s)' % uv)
            S.add('q[%s] = unit for a %s' % (ix, sh), store, 'lenA', sh, ix, 'lenB')
            S.add('q[%s] = uncertain for a %s' % (ix, sh), store, 'lenA', sh, ix, 'pq.UncertainQuantity(x, lenB, abs(x))')
            S.add('q[%s] = x*lenB for a view of a %s' % (ix, sh), store, 'lenA', sh, ix, 'x*lenB', 'slice')
            S.add('q[%s] = x*lenB for an uncertain %s' % (ix, sh), store, 'lenA', sh, ix, 'x*lenB', 'uncertain')
            S.add('q[%s] = number for a dimensionless %s' % (ix, sh), store, 'pq.dimensionless', sh, ix, 'x')
            S.add('q[%s] = x*ratA for a dimensionless %s' % (ix, sh), store, 'pq.dimensionless', sh, ix, 'x*ratA')
            S.add('q[%s] = number for a scaled %s' % (ix, sh), store, 'ratA', sh, ix, 'x')
            S.add('q[%s] = array for a scaled %s' % (ix, sh), store, 'ratA', sh, ix, 'V*ratB')
            S.add('q[%s] = angle for a %s' % (ix, sh), store, 'pq.degree', sh, ix, 'x*pq.radian')
            S.add('q[%s] = force for a %s' % (ix, sh), store, 'frcA', sh, ix, 'x*masA*velA/timB')
            for n, v in enumerate(BAD):
                if thorough or sh == 'vector' and ix in ('0', '...', '1:', '[0, 2]', 'b') or (n + len(ix)) % 7 == 0:
                    S.add('q[%s] = %s for a %s is refused' % (ix, v, sh), bad, 'lenA', sh, ix, v)
    # numbers of other types, other shapes
    for dt in ('int64', 'float32', 'complex128', 'int32', 'bool'):
        for ix in ('0', '...', '1:', '[0, 2]', 'b', '::-1'):
            S.add('q[%s] of %s' % (ix, dt), access, 'lenA', 'vector', ix, 'plain', dt)
            for vt in ('float64', 'int64') + (('complex128',) if dt == 'complex128' else ()):
                for val in ('x*lenA', 'x*lenB', 'lenB', 'V*lenA', 'V*lenB', 'x*velA*timB', 'x*lenC'):
                    S.add('q[%s] = %s of %s for %s' % (ix, val, vt, dt), store, 'lenA', 'vector', ix, val, 'plain', dt, vt)
                for val in ('x', 'x*ratA', 'V', 'V*ratB'):
                    S.add('dimensionless q[%s] = %s of %s for %s' % (ix, val, vt, dt), store, 'pq.dimensionless', 'vector', ix, val, 'plain', dt, vt)
    for sh, ixs in (('1', ('0', '-1', '...', ':', '1:', '[0]', '[0, 0]', 'None')), ('1x1', ('0', '0, 0', '...', ':, 0', '[[0]]', '0, :', '-1, -1')), ('2x1', ('0', '1, 0', ':, 0', '[1, 0]', '...', '::-1', ':, None, 0')),
                    ('1x2', ('0', '0, 1', ':, 1', ':, ::-1', '[0]')), ('0', ('...', ':', '::-1', 'None', '1:')), ('2x0', ('0', '...', ':, 1:', '[1, 0]')), ('2x1x2', ('0', '1, 0', '1, 0, 1', '..., 0', ':, 0', ':, :, 1', '[0, 1], 0')),
                    ('cube', ('0', '1, 0', '0, 0, 0', '..., 0', ':, 0', ':, :, 1:', 'i', '[0, 1]', '0, ..., 1'))):
        for ix in ixs:
            for kind in ('plain', 'uncertain'):
                S.add('q[%s] of shape %s, %s' % (ix, sh, kind), access, 'lenA', sh, ix, kind)
                for val in ('x*lenB', 'lenB', 'V*lenB', 'pq.UncertainQuantity(x, lenB, abs(x))'):
                    S.add('q[%s] = %s for shape %s, %s' % (ix, val, sh, kind), store, 'lenA', sh, ix, val, kind)
    for v in BAD[:8]:
        S.add('q[0] = %s for an uncertain vector is refused' % v, bad, 'lenA', 'vector', '0', v, 'uncertain')
        S.add('q[...] = %s for a view is refused' % v, bad, 'lenA', 'vector', '...', v, 'slice')
    for v in ('2*lenA', '2*timA', 'lenB', 'q**2'):
        S.add('dimensionless q[0] = %s is refused' % v, bad, 'pq.dimensionless', 'vector', '0', v)
        S.add('scaled q[0] = %s is refused' % v, bad, 'ratA', 'vector', '0', v)

    # put
    def put(u, sh, form, val):
        q, a = q_and_a(u, sh)
        kw = env()
        kw.update(x=W.arr('x', ()), V=W.arr('v', (2,)))
        v = W.ev(val, **kw)
        t, base = W.si(v)
        f, b0 = W.factor(dims_of(u))
        p = N.plain(T.mul(t, T.inv(f)), W.shape(v), F8)
        what = form % val
        W.do(form.replace('q', 'a') % 'p', a=a, p=p, **kw)
        r = W.do('_r = ' + form % 'v', what, q=q, v=v, **kw)['_r']
        want(what, r is None, 'returned %s' % W.show(r))
        W.want_mag(what, q, W.mag(a))
        W.want_units(what, q, dims_of(u))
    for form in ('q.put(0, %s)', 'q.put([0, 1], %s)', 'np.put(q, [0, 2], %s)', 'q.put(np.array([1, 0]), %s)', "q.put([0, 5], %s, mode='clip')"):
        for u, vals in (('lenA', ('x*lenA', 'x*lenB', 'lenB', 'x*velA*timB', 'V*lenB')), ('pq.dimensionless', ('x', 'x*ratA', 'V', 'V*ratA')), ('ratA', ('x', 'x*ratB'))):
            for val in vals:
                if 'put(0' in form and 'V' in val:
                    continue
                S.add('%s into %s' % (form % val, u), put, u, '3', form, val)
        for v in BAD:
            if v in ("'m'", 'None'):
                continue
            S.add('%s is refused' % (form % v), bad, 'lenA', '3', '0', v, 'plain', '%.0s' + form)

    # iteration and listing
    def iterate(u, src, sh, kind='plain'):
        q, a = q_and_a(u, sh, kind)
        p = W.ev(src.replace('q', 'a'), a=a)
        before = W.snap(q)
        r = W.ev(src, q=q)
        elements(src, u, r, p, kind)
        W.unchanged(src, before, q)

    def elements(what, u, r, p, kind):
        if isinstance(p, AList):
            p = p.items
            want(what, isinstance(r, AList), 'is %s' % W.show(r))
            r = r.items
        if isinstance(p, (tuple, list)):
            want(what, len(r) == len(p), 'has %d elements' % len(r))
            for x, y in zip(r, p):
                elements(what, u, x, y, kind)
            return
        W.want_q(what, r, None)
        W.want_units(what, r, dims_of(u))
        W.want_mag(what, r, W.mag(p))
        want_shape(what, W.shape(r), W.shape(p))
    for u in SRC:
        for src, shs in (('list(q)', ('3', '2x3', '3xk')), ('tuple(q)', ('3', '2x3')), ('[x for x in q]', ('3', '2x3', '3xk')), ('q.tolist()', ('3', '2x3', 'scalar')),
                         ('[x for x in reversed(q)]', ('3',)), ('next(iter(q))', ('3', '3xk')), ('[x for y in q for x in y]', ('2x3',)), ('max(q)', ('3',)),
                         ('[q[i] for i in range(len(q))]', ('3', '2x3')), ('dict(enumerate(q))[1]', ('3',)), ('[x for x, y in zip(q, q)]', ('3', '2x3')),
                         ('[*q]', ('3',)), ('sorted(q)[0]', ('3',))):
            for sh in shs:
                if src in ('max(q)', 'sorted(q)[0]') and (u != 'lenA' and not thorough):
                    continue
                S.add('%s of a %s of %s' % (src, sh, u), iterate, u, src, sh)
    for u in SRC[:2]:
        for src in ('list(q)', 'tuple(q)', '[x for x in q]', 'q.tolist()', '[x for y in q for x in y]', '[q[i] for i in range(len(q))]', '[*q]', 'dict(enumerate(q))', '[x for x, y in zip(q, q)]'):
            for sh in ('1', '2x1', '1x2', '1x1', '0', '2x0', '2x1x2'):
                if 'x in y' in src and len(SH[sh]) < 2 or 'dict' in src and (SH[sh][0] != 2 or sh == '2x0'):
                    continue
                S.add('%s of a %s of %s' % (src, sh, u), iterate, u, src + '[1]' if 'dict' in src else src, sh)
    for src, sh in (('list(q)', '1'), ('[x for x in q]', '2x1'), ('q.tolist()', '1'), ('q.tolist()', '2x1'), ('q.tolist()', '1x1'), ('list(q)', '2x1x2'), ('list(q)', '3'), ('[x for x in q]', '3xk'), ('next(iter(q))', '3'), ('q.tolist()', '3')):
        S.add('%s of an uncertain %s' % (src, sh), iterate, 'lenA', src, sh, 'uncertain')

    # a loop over elements writes through views only
    def count():
        q, a = q_and_a('lenA', '3')
        W.want_plain('len(q)', W.ev('len(q)', q=q), C(3))
        W.want_plain('q.size', W.ev('q.size', q=q), C(3))
    S.add('len(q)', count)

    def others(ix, j):
        """the elements not assigned are as they were"""
        q, a = q_and_a('lenA', '3')
        old = W.ev('q.magnitude[%s] + 0' % j, q=q)
        W.do('q[%s] = 5*lenB' % ix, q=q)
        W.want_mag('q[%s] after q[%s] = 5*lenB' % (j, ix), W.ev('q[%s]' % j, q=q), W.mag(old))
        W.want_value('q[%s] after assigning it' % ix, W.ev('q[%s]' % ix, q=q), T.mul(C(5), W.units['lenB'][0]))
    for ix in range(3):
        for j in range(3):
            if ix != j:
                S.add('q[%d] after q[%d] = …' % (j, ix), others, ix, j)

    # sequences of assignments
    def history(code, expect):
        q, a = q_and_a('lenA', '3')
        x, y = W.arr('x', ()), W.arr('y', ())
        W.do(code, q=q, x=x, y=y)
        xb = T.mul(N.val(x), W.r['B'], T.inv(W.r['A']))
        yb = N.val(y)
        e = W.ev(expect, X=N.plain(xb, (), F8), Y=N.plain(yb, (), F8), a=a)
        for k in range(3):
            W.want_mag('%s: element %d' % (code, k), W.ev('q[%d]' % k, q=q), W.mag(W.ev('e[%d]' % k, e=e)))
        W.want_units(code, q, dims_of('lenA'))
    for code, e in (('q[0] = x*lenB\nq[1] = y*lenA', 'np.array([X, Y, a[2]])'), ('q[0] = x*lenB\nq[0] = y*lenA', 'np.array([Y, a[1], a[2]])'),
                    ('q[:2] = x*lenB\nq[1:] = y*lenA', 'np.array([X, Y, Y])'), ('v = q[1:]\nv[0] = x*lenB\nq[0] = v[0]', 'np.array([X, X, a[2]])'),
                    ('q[...] = x*lenB\nq += y*lenA', 'np.array([X + Y, X + Y, X + Y])'), ('q[0], q[1] = q[1], q[0]', 'np.array([a[1], a[0], a[2]])'),
                    ('q[0] = q[1] + x*lenB', 'np.array([a[1] + X, a[1], a[2]])'), ('q[0] += x*lenB', 'np.array([a[0] + X, a[1], a[2]])'),
                    ('q[1] *= 2', 'np.array([a[0], 2*a[1], a[2]])'), ('for i in range(3): q[i] = x*lenB', 'np.array([X, X, X])'),
                    ('q[[0, 2]] = x*lenB\nq[1] = y*lenA', 'np.array([X, Y, X])'), ('q[-1] = x*lenB', 'np.array([a[0], a[1], X])'),
                    ('q[[0, 2]] = pq.Quantity([x, y], lenA)*lenB/lenB', 'np.array([X*0, Y*0, a[2]])')):
        if 'pq.Quantity([x' in code:
            continue
        S.add(code.replace('\n', '; '), history, code, e)
    return S.items, {}
