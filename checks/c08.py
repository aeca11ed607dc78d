from .common import *

TITLE = 'the units of a view cannot be changed through the view'
LEVEL = 'other'
FLOOR = 200
EXPLAIN = ('abstract interpretation with an alias domain (views share a buffer with their base): for every way of obtaining '
           'a view and every unit-changing in-place operation, the operation raises before anything is written; unit-preserving '
           'ones write through to the base with the right physical values')

VIEWS = ['q[0, ...]', 'q[1:]', 'q[:]', 'q[...]', 'q[::2]', 'q[0:2]', 'q[1:][0:1]', 'q.view()', 'q.view(pq.Quantity)', 'pq.Quantity(q)', 'q.ravel()', 'q.T',
         'q.transpose()', 'q.reshape(-1)', 'q.reshape((-1, 1))', 'q.squeeze()', 'q.real', 'q[np.newaxis]', 'q[:, np.newaxis]', 'np.squeeze(q)',
         'np.ravel(q)', 'np.transpose(q)', 'np.reshape(q, (-1, 1))', 'np.expand_dims(q, 0)', 'np.real(q)', 'q.swapaxes(0, -1)',
         'np.asanyarray(q)[1:]', 'q.view(pq.Quantity)[1:]', 'q[1:].view()', 'pq.UncertainQuantity(q)', 'q[1:].real', 'q.astype("d", copy=False)',
         'pq.Quantity(pq.Quantity(q))', 'pq.Quantity(q)[1:]', 'np.swapaxes(q, 0, -1)']
VIEWS0 = ['q.view()', 'q[...]', 'pq.Quantity(q)', 'q.squeeze()', 'q.real', 'q.T', 'q.reshape(())', 'q.view(pq.Quantity)', 'q.ravel()', 'q[np.newaxis]',
          'np.asanyarray(q).view()']
VIEWS2 = ['q[0, 1, ...]', 'q[0]', 'q[0][1:]', 'q[:, 1]', 'q[1:, 0]', 'q[0, ...]', 'q[..., 0]', 'q.T', 'q.T[0]', 'q.ravel()', 'q.reshape(-1)', 'list(q)[0]', 'q[:, np.newaxis]',
          'q.squeeze()', 'q.real', 'q[0].real', 'q.T.view()', 'next(iter(q))', 'q.swapaxes(0, 1)[0]']
# in-place operations that change the units
CHANGE = ['v *= lenB', 'v *= timA', 'v *= 3*timA', 'v *= t', 'v /= timA', 'v /= lenA', 'v /= t', 'v //= timA', 'v //= t', 'v **= 2', 'v **= -1', 'v **= 0.5',
          'v **= 0', 'v.units = lenB', 'v.units = pq.m', "v.units = 'ft'", 'v.units = lenB.dimensionality', 'v.units = timA', 'v.fill(2*lenB)', 'v.fill(2*timA)',
          'v.fill(lenB)', 'v *= ratA', 'v /= ratA']
# in-place operations that do not
KEEP = ['v *= 2', 'v /= 2', 'v += v', 'v -= 3*lenB', 'v += lenB', 'v **= 1', 'v.fill(3)', 'v.fill(3*lenA)', 'v[...] = 3*lenB', 'v %= lenB', 'v *= k',
        'v //= 2', 'v *= pq.dimensionless', 'v[0] = 2*lenB', 'v[...] = lenB']
# with an explicit output array
OUT = ['np.multiply(v, timA, out=v)', 'np.sqrt(v, out=v)', 'np.divide(v, timA, out=v)', 'np.square(v, out=v)', 'np.power(v, 2, out=v)',
       'np.reciprocal(v, out=v)', 'np.multiply(t, t, out=v)', 'np.add(t, t, out=v)']


def build(root, tier):
    S = Suite(root)
    W = S.W

    def base(kind, unit='lenA'):
        n, k = W.dim('n'), W.dim('k')
        if kind == 'uncertain':
            return W.uq(W.arr('q', (n,)), unit, W.arr('uq', (n,), positive=True))
        if kind == 'uncertain2':
            return W.uq(W.arr('q', (n, k)), unit, W.arr('uq', (n, k), positive=True))
        if kind == '2d':
            return W.q(W.arr('q', (n, k)), unit)
        if kind == '0d':
            return W.q(W.arr('q', ()), unit)
        if kind == 'rows':
            return W.q(W.arr('q', (3, k)), unit)
        if kind == 'rowsu':
            return W.uq(W.arr('q', (3, k)), unit, W.arr('uq', (3, k), positive=True))
        if kind == 'own':         # owns its data
            return W.ev('(_a*lenA)', _a=W.arr('q', (n,)))
        if kind == 'complex':
            return W.q(W.arr('q', (n,), 'complex128'), unit)
        return W.q(W.arr('q', (n,)), unit)

    def setup(kind, view):
        q = base(kind)
        kw = dict(q=q, t=W.q(W.arr('t', ()), 'timA'), k=W.num('k0', positive=True))
        try:
            v = W.run('v = ' + view, **kw)['v']
        except spec.PyRaise:
            done('refused')
            return None
        if not W.isq(v) or v is q:
            return None
        kw['v'] = v
        if v.buf is not q.buf:
            kw['copied'] = True
        return kw

    def change(kind, view, code):
        kw = setup(kind, view)
        if kw is None:
            return
        q, v = kw['q'], kw['v']
        before, vb = W.snap(q), W.snap(v)
        what = 'v = %s; %s' % (view, code)
        copied = kw.pop('copied', None)
        try:
            ns = W.run(code, **kw)
        except spec.PyRaise as e:
            W.unchanged(what + ', refused', before, q, 'quantity')
            if not copied:
                want(what, any(c.name in ('ValueError', 'TypeError') for c in e.exc.cls.mro), 'raised %s at %s' % (e.exc.cls.name, e.where))
                W.unchanged(what + ', refused', vb, v, 'view')
            return
        if not copied and ns['v'] is v:
            d, e = W.dims(q), W.dims(v)
            if set(d) != set(e) or any(paths.same(d[x], e[x]) is not True for x in d):
                fail(what, 'was accepted: the view has the units %s, the quantity %s for the same data' % (spec.showdims(e), spec.showdims(d)))
        if copied or ns['v'] is not v:
            W.unchanged(what, before, q, 'quantity')

    def keep(kind, view, code):
        kw = setup(kind, view)
        if kw is None or kw.pop('copied', None):
            return
        q, v = kw['q'], kw['v']
        what = 'v = %s; %s' % (view, code)
        vd = W.dims(v)
        # the expected outcome: the same on an independent copy of the view
        c = W.ev('pq.Quantity(np.array(v.magnitude), v.dimensionality)', v=v)
        kc = dict(kw, v=c)
        try:
            cc = W.run(code, **kc)['v']
        except spec.PyRaise as e:
            cc = None
        try:
            ns = W.run(code, **kw)
        except spec.PyRaise as e:
            if cc is not None:
                fail(what, 'raised %s%s at %s' % (e.exc.cls.name, spec.short(e.exc.attrs.get('args')), e.where))
            return
        want(what, ns['v'] is v, 'gave another object')
        if cc is not None:
            W.want_mag(what, v, W.mag(cc))
        W.want_units(what, v, vd)
        W.want_units(what + ', the quantity', q, dims_of('lenA'))
        # what the quantity shows at the place of the view
        try:
            w = W.run('w = ' + view, **kw)['w']
        except spec.PyRaise as e:
            fail(what, 'the view cannot be taken again: %s at %s' % (e.exc.cls.name, e.where))
        W.want_mag(what + ', seen by the quantity', w, W.mag(v))

    def owner(kind, code):
        """a quantity that is not a view may change units in place"""
        q = base(kind)
        kw = dict(v=q, t=W.q(W.arr('t', ()), 'timA'), k=W.num('k0', positive=True))
        W.do(code, what='v = a quantity of its own; ' + code, **kw)

    def made(make, code):
        """a result that shares no data may change its units in place, and the operand is not affected"""
        q = base('own')
        before = W.snap(q)
        v = W.ev(make, q=q, t=W.q(W.arr('t', ()), 'timA'))
        what = 'v = %s; %s' % (make, code)
        try:
            W.run(code, v=v, t=W.q(W.arr('t', ()), 'timA'))
        except spec.PyRaise:
            want(what, make not in ('q.copy()', 'q*2', 'q + q', 'q.rescale(lenB)', 'q.sum()'), 'a quantity of its own was refused')
        W.unchanged(what, before, q, 'operand')

    quick = tier != 'thorough'
    for i, v in enumerate(VIEWS):
        for j, c in enumerate(CHANGE):
            S.add('v = %s; %s' % (v, c), change, '1d', v, c)
        for j, c in enumerate(KEEP):
            if not quick or (i + j) % 2 == 0:
                S.add('v = %s; %s kept' % (v, c), keep, '1d', v, c)
    for i, v in enumerate(VIEWS2):
        k2, ku = ('rows', 'rowsu') if v in ('list(q)[0]', 'next(iter(q))') else ('2d', 'uncertain2')
        for j, c in enumerate(CHANGE):
            if not quick or (i + j) % 2 == 0:
                S.add('2-d: v = %s; %s' % (v, c), change, k2, v, c)
        for j, c in enumerate(KEEP):
            if not quick or (i + j) % 4 == 0:
                S.add('2-d: v = %s; %s kept' % (v, c), keep, k2, v, c)
            if not quick or (i + j) % 4 == 1:
                S.add('uncertain 2-d: v = %s; %s' % (v, CHANGE[j]), change, ku, v, CHANGE[j])
    for i, v in enumerate(VIEWS):
        for j, c in enumerate(CHANGE):
            if not quick or v in ('q[1:]', 'q[:]', 'q.squeeze()', 'q.real', 'q[1:][0:1]') or (i + j) % 4 == 0:
                S.add('uncertain: v = %s; %s' % (v, c), change, 'uncertain', v, c)
                if i % 2:
                    S.add('owned: v = %s; %s' % (v, c), change, 'own', v, c)
        for c in KEEP[i % 4::4]:
            S.add('owned: v = %s; %s kept' % (v, c), keep, 'own', v, c)
    for v in VIEWS0:
        for c in CHANGE:
            S.add('0-d: v = %s; %s' % (v, c), change, '0d', v, c)
        for c in KEEP:
            S.add('0-d: v = %s; %s kept' % (v, c), keep, '0d', v, c)
    for v in ('q.real', 'q.imag', 'np.real(q)', 'np.imag(q)', 'q[1:].imag', 'q[1:]'):
        for c in CHANGE:
            if c != 'v //= t' and c != 'v //= timA':
                S.add('complex: v = %s; %s' % (v, c), change, 'complex', v, c)
    for v in ('q[1:]',):
        for c in OUT:
            S.add('v = %s; %s' % (v, c), change, '1d', v, c)
    for c in CHANGE:
        if c in ('v.units = timA',):
            continue
        S.add('not a view; %s' % c, owner, 'own', c)
        S.add('not a view of a quantity; %s' % c, owner, '1d', c)
    for m in ('q.copy()', 'q*2', 'q + q', 'q.rescale(lenB)', 'q.simplified', 'pq.Quantity(q, lenB)', '-q', 'q.astype("f")', 'copy.deepcopy(q)', 'q.units',
              'abs(q)', 'np.sqrt(q)', 'q.sum()', 'q.cumsum()', 'q[0]', 'q[[0, 1]]', 'q[q > q[0]]', 'q.flatten()', 'q.round()', 'q.max()', 'q.take([0, 1])',
              'q.repeat(2)', 'np.copy(q, subok=True)', 'q.mean()', 'q.rescale(lenA)', 'q.clip(0*lenA, lenB)', 'q**1'):
        if 'copy.' in m:
            continue
        for c in ('v *= timA', 'v.units = pq.Quantity(1.0, v.dimensionality)', 'v /= t', 'v **= 3', 'v += v', 'v[...] = v + v'):
            S.add('new: v = %s; %s' % (m, c), made, m, c)
    return S.items, {}
