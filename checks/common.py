"""What the checks share."""
from qsa import term as T, paths, npmodel as N, builtins_ as B
from qsa import spec
from qsa.spec import (World, Raised, want, want_same, want_dims, want_shape, fail, done, C, ONE, ZERO, PI, F8, I8)
from qsa.values import *

UNITS = {
    'lenA': {'lenA': 1}, 'lenB': {'lenB': 1}, 'timA': {'timA': 1}, 'timB': {'timB': 1}, 'masA': {'masA': 1}, 'ratA': {'ratA': 1},
    'ratB': {'ratB': 1}, 'frcA': {'frcA': 1}, 'velA': {'velA': 1}, 'lenC': {'lenC': 1}, 'timC': {'timC': 1},
    'pq.m': {'meter': 1}, 'pq.km': {'kilometer': 1}, 'pq.s': {'second': 1}, 'pq.dimensionless': {},
    'pq.K': {'Kelvin': 1}, 'pq.A': {'ampere': 1}, 'pq.mol': {'mole': 1}, 'pq.cd': {'candela': 1}, 'pq.g': {'gram': 1}, 'pq.min': {'minute': 1},
    'pq.percent': {'percent': 1}, 'pq.degree': {'arcdegree': 1}, 'pq.radian': {'radian': 1}, 'pq.kg': {'kilogram': 1},
}


#: lenC and timC are written with the symbol of lenA, but are other units
TWIN_ALIKE = [('lenA', 'lenC'), ('lenC', 'lenA'), ('lenA/timA', 'lenC/timA'), ('lenC**2', 'lenA**2'), ('lenC**-1', 'lenA**-1'), ('lenA*lenC', 'lenC**2')]
TWIN_UNLIKE = [('lenA', 'timC'), ('timC', 'lenA'), ('lenA/timA', 'timC/timA'), ('lenC', 'timC'), ('masA*lenA**-1', 'masA*timC**-1')]


#: default units on one side; products of many units
BASE_ALIKE = [('pq.m', 'lenA'), ('pq.s', 'timA'), ('pq.kg*pq.m/pq.s**2', 'frcA'), ('frcA', 'pq.kg*pq.m/pq.s**2'), ('pq.m/pq.s', 'velA'), ('pq.m**2', 'lenA**2'), ('pq.m', 'pq.m'),
              ('pq.kg', 'pq.g'), ('pq.s', 'pq.min'), ('pq.m/pq.s', 'pq.km/pq.min'), ('pq.g*pq.m', 'pq.kg*pq.km')]
MANY_ALIKE = [('lenA*masA*timA*pq.K', 'lenB*masA*timB*pq.K'), ('lenA**2*masA*timA**-3*pq.A**-1', 'lenB**2*masA*timB**-3*pq.A**-1'),
              ('lenA*masA*timA**-2*pq.K**-1*pq.mol**-1', 'frcA/pq.K/pq.mol'), ('pq.cd*pq.mol**0.5*pq.K*pq.A*lenA', 'pq.cd*pq.mol**0.5*pq.K*pq.A*lenC'),
              ('lenA*lenB*timA*timB*masA', 'lenB**2*timA**2*pq.kg'), ('pq.A*pq.K*pq.mol*pq.cd*pq.kg', 'pq.A*pq.K*pq.mol*pq.cd*pq.g')]
MANY_UNLIKE = [('lenA*masA*timA*pq.K', 'lenA*masA*timA*pq.A'), ('lenA*masA*timA**-2*pq.K', 'lenA*masA*timA**-1*pq.K'), ('lenA*masA*timA*pq.K', 'lenA*masA*timA'),
               ('pq.A*pq.K*pq.mol*pq.cd', 'pq.A*pq.K*pq.mol*pq.cd**2'), ('pq.A', 'pq.K'), ('pq.mol', 'pq.dimensionless'), ('pq.cd*lenA', 'pq.mol*lenA')]
TWIN_ALIKE += BASE_ALIKE + MANY_ALIKE
TWIN_UNLIKE += MANY_UNLIKE


def dims_of(expr):
    """{unit: exponent} of a product written as an expression over units; our
    own reading of it"""
    import ast

    def ev(n):
        if isinstance(n, ast.BinOp):
            a = ev(n.left)
            if isinstance(n.op, ast.Pow):
                k = ast.literal_eval(n.right)
                return {u: T.mul(e, C(k)) for u, e in a.items()}
            b = ev(n.right)
            s = 1 if isinstance(n.op, ast.Mult) else -1
            return comb(a, b, s)
        src = ast.unparse(n)
        return {u: C(e) for u, e in UNITS[src].items()}
    return ev(ast.parse(expr, mode='eval').body)


def comb(a, b, s=1):
    out = dict(a)
    for u, e in b.items():
        out[u] = T.add(out.get(u, ZERO), T.mul(e, C(s)))
    return {u: e for u, e in out.items() if not T.is_const_eq(e, 0)}


def powd(a, k):
    return {u: T.mul(e, k) for u, e in a.items()}


#: a world to use instead of a new one (for checks built from other checks)
SHARED = None


class Suite:
    """the scenarios of a check"""
    def __init__(self, root, optimize=False):
        self.W = SHARED or World(root, optimize=optimize)
        self.items = []

    def add(self, name, f, *a, **k):
        self.items.append((name, (lambda: f(*a, **k))))

    def rule(self, name, *a, **k):
        """decorator: add a scenario"""
        def dec(f):
            self.add(name, f, *a, **k)
            return f
        return dec


SHAPEPAIRS = [(('n',), ('n',)), (('n',), ()), ((), ('n',)), ((), ()), (('n', 'k'), ('k',)), (('n', 1), ('k',)),
              (('k',), ('n', 'k')), ((1,), ('n',)), (('n',), (1,)), ((1,), (1,)), ((), (1,)), ((1,), ()), (('n',), (1, 1)), ((0,), (0,)), ((0,), ()),
              ((), (0,)), ((1,), (0,)), (('n', 0), (0,))]


def shp(W, s):
    return tuple(W.dim(d) if isinstance(d, str) else d for d in s)


def bshape(W, s1, s2):
    n = max(len(s1), len(s2))
    a, b = (1,) * (n - len(s1)) + tuple(s1), (1,) * (n - len(s2)) + tuple(s2)
    return shp(W, [y if x == 1 else x for x, y in zip(a, b)])


def operand(W, name, unit, shape=None, dtype='float64', positive=False):
    shape = (W.dim('n'),) if shape is None else shape
    return W.q(W.arr(name, shape, dtype, positive), unit)


def refused_or(W, src, check, names=('ValueError', 'TypeError'), what=None, **kw):
    """the fragment is refused, or check(result) holds"""
    try:
        ns = W.run(src, **kw)
    except spec.PyRaise as e:
        n = e.exc.cls.name
        want(what or src, any(c.name in names for c in e.exc.cls.mro), 'raised %s at %s' % (n, e.where))
        done('refused')
        return
    if check is None:
        fail(what or src, 'was accepted%s' % (', giving %s' % W.show(ns['_r']) if '_r' in ns else ''))
    check(ns['_r'])


def raw(name, *ts):
    """the value of a NumPy elementwise function on plain numbers"""
    return N.ufunc_term(name, list(ts))


def unit_state(W, x):
    """what the public interface says about a unit"""
    s = {'unit': W.snap(x)}
    for a in ('name', 'symbol', 'u_symbol', 'format_order'):
        s[a] = str(W.I.getattr(x, a))
    s['definition'] = W.snap(W.I.getattr(x, 'definition'))
    s['simplified'] = W.snap(W.I.getattr(x, 'simplified'))
    s['quantity'] = W.snap(W.ev('(3*x).simplified', x=x))
    return s
