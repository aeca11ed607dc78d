"""An operation that raises has written nothing."""
from .common import *
from .actions import REFUSED, operands

TITLE = 'a refused operation leaves its operands unchanged'
LEVEL = 'other'
FLOOR = 3000
EXPLAIN = ('effect analysis by abstract interpretation: on every path on which an operation ends with an exception, magnitude, units, uncertainty, type and shape of every '
           'operand, of the array it is a view of and of the units involved are those before the operation')

KINDS = {
    'float': "a = pq.Quantity(xa, UA)",
    'view': "whole = pq.Quantity(xb, UA); a = whole[1:]",
    'transposed': "whole = pq.Quantity(xm, UA); a = whole.T",
    'integer': "a = pq.Quantity(xi, UA)",
    'read-only': "a = pq.Quantity(xa, UA); a.flags.writeable = False",
    'frozen': "xa.flags.writeable = False; a = pq.Quantity(xa, UA)",
    'scalar': "a = pq.Quantity(na, UA)",
    'uncertain': "a = pq.UncertainQuantity(xa, UA, xe)",
    'uncertain view': "whole = pq.UncertainQuantity(xb, UA, xf); a = whole[1:]",
    'uncertain integer': "a = pq.UncertainQuantity(xi, UA, xe)",
    'complex': "a = pq.Quantity(xc, UA)",
}
INPLACE = ['a += b', 'a -= b', 'a *= b', 'a /= b', 'a //= b', 'a %= b', 'a **= b']
OTHERS = ["pq.Quantity(xo, %s)" % u for u in ('lenA', 'lenB', 'timA', 'ratA', "'dimensionless'", 'pq.percent', 'frcA')] + [
    "pq.Quantity(no, lenB)", "pq.Quantity(no, timA)", "pq.Quantity(no, 'dimensionless')", 'no', 'xo', 'k', '2', '0.5', '-1', "'a'", 'None', '[1, 2]', '[1, 2, 3]', 'lenA', 'lenB', 'timA', 'pq.m',
    "pq.Quantity(xs, lenB)", "pq.Quantity(xs, timA)", 'xs', "pq.UncertainQuantity(xo, lenB, xg)", "pq.UncertainQuantity(xo, timA, xg)",
    "pq.Quantity(xo, lenB)[::-1]", "{}", "()", "pq.UncertainQuantity(xs, lenB, xh)", "1j", "pq.c"]
STATEMENTS = ['a.units = B', 'a[0] = b', 'a[1:] = b', 'a[...] = b', 'a[[0, 1]] = b', 'a.fill(b)', 'a.put([0], b)', 'a.put([0, 1], b)', 'a.put([9], b)', 'a[9] = b', 'a[a > b] = b', 'a.uncertainty = b', 'a.set_uncertainty(b)',
              'a.sort(b)', 'a.clip(b, b, out=a)', 'a.searchsorted(b)', 'a.rescale(b)', 'a.sum(out=b)', 'a.cumsum(out=b)', 'a.max(out=b)', 'a.mean(out=b)', 'a.round(out=b)',
              'a.prod(out=b)', 'a.std(out=b)', 'a.var(out=b)', 'a.take([0, 1, 1], out=b)', 'a.ptp(out=b)', 'a.cumprod(out=b)', 'a.compress([True, True, True], out=b)', 'pq.Quantity(a, B)', 'pq.UncertainQuantity(a, B, b)', 'pq.UncertainQuantity(a, lenB, b)',
              'a.__setitem__(b, b)', 'a.setflags(b)', 'a.units = b', "a.units = ''", 'a.put(b, b)']
UNITVALUES = ["'s'", 'timA', "'nonsense'", 'lenB', "'mm'", '3', 'None', '2*pq.m', 'timA.dimensionality', 'lenB.dimensionality', "'3*m'", 'b', '[1]', 'pq.s**-1']
UF2 = ['add', 'subtract', 'hypot', 'maximum', 'minimum', 'remainder', 'arctan2', 'floor_divide', 'power', 'multiply', 'divide', 'fmax', 'fmin']
UF1 = ['sin', 'exp', 'log', 'arcsin', 'cosh', 'sqrt', 'square', 'negative', 'deg2rad', 'rad2deg', 'floor']


def build(root, tier):
    S = Suite(root)
    W = S.W
    thorough = tier == 'thorough'
    UNITOBJS = {k: W.ns[k] for k in ('lenA', 'lenB', 'timA', 'ratA', 'frcA')}
    for u in ('m', 's', 'kg', 'dimensionless', 'percent', 'c', 'radian'):
        UNITOBJS['pq.' + u] = W.I.getattr(W.pq, u)

    def refused(src, ns, names):
        """run src; if it raises, nothing has changed"""
        before = {k: (ns[k], W.snap(ns[k])) for k in names}
        units = {k: W.snap(v) for k, v in UNITOBJS.items()}
        try:
            W.run(src, **ns)
        except spec.PyRaise as e:
            for k, (v, b) in before.items():
                W.unchanged('%s, which raised %s' % (src, e.exc.cls.name), b, v, k)
            for k, b in units.items():
                W.unchanged('%s, which raised %s' % (src, e.exc.cls.name), b, UNITOBJS[k], k)
            done('refused')
            return True
        done('accepted')
        return False

    def act(src):
        ns = operands(W, src)
        refused(src, ns, [k for k in ns if k not in ('copy', 'pickle')])
    for src in REFUSED:
        S.add('action: ' + src, act, src)

    def prepare(kind, ua, other):
        A, pos = W.arr, dict(positive=True)
        arrays = dict(xa=A('a', (3,)), xb=A('whole', (4,)), xm=A('m', (3, 3)), xi=A('i', (3,), 'int64'), na=W.num('a'), xe=A('e', (3,), **pos), xf=A('f', (4,), **pos), xc=A('c', (3,), 'complex128'),
                      xo=A('o', (3,)), no=W.num('o'), xs=A('s', (2,)), k=W.num('k', 'int'), xg=A('g', (3,), **pos), xh=A('h', (2,), **pos))
        ns = W.do(KINDS[kind].replace('UA', ua) + '\nb = ' + other, **arrays)
        return ns, [n for n in ('a', 'whole', 'b', 'xo', 'xs') if n in ns]

    def inplace(kind, ua, other, src):
        ns, names = prepare(kind, ua, other)
        refused(src, ns, names)

    uas = ['lenA', 'ratA', "'dimensionless'", 'frcA'] if thorough else ['lenA']
    for kind in KINDS:
        for ua in uas:
            for other in OTHERS:
                for src in INPLACE:
                    S.add('%s in %s: %s with b = %s' % (kind, ua, src, other), inplace, kind, ua, other, src)
            for src in STATEMENTS:
                if ' B' in src:
                    for x in UNITVALUES:
                        S.add('%s in %s: %s' % (kind, ua, src.replace(' B', ' ' + x)), inplace, kind, ua, 'pq.Quantity(xo, timA)', src.replace(' B', ' ' + x))
                    continue
                for other in (OTHERS if thorough or src in ('a.uncertainty = b', 'a[1:] = b', 'a.fill(b)', 'a.put([0, 1], b)') else OTHERS[1:3] + OTHERS[7:12] + OTHERS[20:25]):
                    S.add('%s in %s: %s with b = %s' % (kind, ua, src, other), inplace, kind, ua, other, src)

    # output arrays: which ufuncs refuse only after writing is listed among the
    # known findings, one by one
    def out2(f, kind):
        for other in ("pq.Quantity(xo, timA)", "pq.Quantity(xo, lenB)"):
            for src in ('np.%s(a, b, out=z)' % f, 'np.%s(b, a, out=z)' % f, 'np.%s(a, b, out=a)' % f, 'np.%s(a, b, z)' % f):
                ns, names = prepare(kind, 'lenA', other)
                ns['z'] = W.q(W.arr('z', (3,)), 'lenA')
                refused(src, ns, names + ['z'])

    def out1(f, kind):
        for src in ('np.%s(a, out=z)' % f, 'np.%s(a, out=a)' % f, 'np.%s(a, z)' % f):
            ns, names = prepare(kind, 'lenA', 'None')
            ns['z'] = W.q(W.arr('z', (3,)), 'lenA')
            refused(src, ns, names + ['z'])
    # methods that write into an output quantity and are refused
    def out3(kind, other, src, zu, zshape):
        ns, names = prepare(kind, 'lenA', other)
        ns['z'] = W.q(W.arr('z', zshape), zu)
        refused(src, ns, names + ['z'])
    for kind in ('float', 'matrix', 'uncertain', 'scalar'):
        if kind not in KINDS:
            continue
        for src in ('a.clip(b, b, out=z)', 'a.clip(b, out=z)', 'a.clip(max=b, out=z)', 'a.clip(min=b, max=lenB*9, out=z)', 'a.clip(lenA*1, b, out=z)'):
            for other in OTHERS[:4] + OTHERS[7:12] + OTHERS[17:19] + ["pq.Quantity(xs, lenA)", "'dimensionless'", 'np.array([1., 2.])']:
                for zu, zshape in (('timA', (3,)), ('lenB', (3,)), ('timA', (5,))):
                    S.add('%s: %s with b = %s and z %r in %s' % (kind, src, other, zshape, zu), out3, kind, other, src, zu, zshape)
        for src in ('a.sum(axis=5, out=z)', "a.sum('x', out=z)", 'a.mean(axis=5, out=z)', 'a.std(axis=5, out=z)', 'a.var(axis=5, out=z)', 'a.prod(axis=5, out=z)', 'a.cumsum(axis=5, out=z)', 'a.max(axis=5, out=z)',
                    'a.min(axis=5, out=z)', 'a.ptp(axis=5, out=z)', 'a.take([9], out=z)', 'a.take([0], axis=5, out=z)', 'a.compress([True], axis=5, out=z)', 'a.cumprod(axis=5, out=z)', "a.round('x', out=z)",
                    'a.trace(out=z)', 'a.round(out=z)', 'a.cumsum(out=z)', 'a.take([0, 1, 2], out=z)', 'a.clip(out=z)'):
            for zu, zshape in (('timA', (3,)), ('lenB', ()), ('timA', (5,))):
                S.add('%s: %s with z %r in %s' % (kind, src, zshape, zu), out3, kind, 'None', src, zu, zshape)

    for f in UF2:
        S.add('output of np.%s' % f, out2, f, 'float')
    for f in UF1:
        S.add('output of np.%s' % f, out1, f, 'float')

    def out3(f, one, z):
        other = 'pq.Quantity(xo, %s)' % ('timA' if f in ('multiply', 'divide') else "'dimensionless'" if f in ('power', 'sin', 'exp', 'log', 'arcsin', 'cosh') else 'lenB')
        for src in ('np.%s(b, out=z)', 'np.%s(b, z)') if one else ('np.%s(b, b, out=z)', 'np.%s(b, b, z)'):
            ns, names = prepare('float', 'lenA', other)
            ns['z'] = {'read-only': lambda: W.do('z = pq.Quantity(x, lenA); z.flags.writeable = False', x=W.arr('z', (3,)))['z'], 'unit': lambda: W.ns['lenA'],
                       'constant': lambda: W.I.getattr(W.pq, 'c'), 'shape': lambda: W.q(W.arr('z', (2,)), 'lenA'), 'integer': lambda: W.q(W.arr('z', (3,), 'int64'), 'lenA'),
                       'list': lambda: W.ev('[1., 2., 3.]')}[z]()
            refused(src % f, ns, names + ['z'])
    for z in ('read-only', 'unit', 'constant', 'shape', 'integer', 'list'):
        for f in UF2 + UF1:
            S.add('output of np.%s (%s)' % (f, z), out3, f, f in UF1, z)
    return S.items, {}
