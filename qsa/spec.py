"""Specification side: symbolic inputs, observations through the public API,
proof obligations.

The values of the library are read back only through its public attributes
(`magnitude`, `dimensionality`, `uncertainty`, unit names); what they should be
is computed here, from a table of unit scales of our own.
"""
import ast

from . import history, term as T, paths, interp, npmodel as N, builtins_ as B
from .paths import Finding, Undecided
from .values import AArr, ADict, ADtype, AList, AModule, ASet, Obj, OpaqueStr, PyRaise, SNum

obligations = 0      # discharged on this path
rules = {}           # rule -> number discharged on this path

F8 = N.DT['float64']
I8 = N.DT['int64']
C = T.const
ONE, ZERO = T.ONE, T.ZERO


class Raised(Exception):
    def __init__(self, e):
        self.cls = e.exc.cls
        self.name = e.exc.cls.name
        self.exc = e.exc
        self.where = e.where

    def isa(self, *names):
        return any(c.name in names for c in self.cls.mro)


_asts = {}


def _parse(src):
    if src not in _asts:
        _asts[src] = ast.parse(src)
    return _asts[src]


def where():
    """the package functions entered by the operation under analysis"""
    out = []
    for n, (f, l) in interp.trace.items():
        i = (f or '').find('/quantities/')
        out.append('%s:%s %s' % (f[i + 1:] if i >= 0 else f, l, n.split(':')[1]))
    return out


class World:
    def __init__(self, root, optimize=False):
        self.I = interp.Interp(root, optimize=optimize)
        self.root = root
        self.pq = self.I.import_module('quantities')
        self.np = self.I.import_module('numpy')
        self.optimize = optimize
        #: unit name -> (scale, {base unit: exponent})
        self.units = {}
        self.ns = {}
        for n in ('meter', 'kilogram', 'second', 'ampere', 'kelvin', 'mole', 'candela'):
            self.units[n] = (ONE, {n: ONE})
        for n in ('kilometer', 'millimeter', 'centimeter'):
            self.units[n] = (C({'k': 1000, 'm': '1/1000', 'c': '1/100'}[n[0]]), {'meter': ONE})
        self.units['gram'] = (C('1/1000'), {'kilogram': ONE})
        self.units['minute'] = (C(60), {'second': ONE})
        self.units['hour'] = (C(3600), {'second': ONE})
        self.units['dimensionless'] = (ONE, {})
        self.units['percent'] = (C('1/100'), {})
        self.units['radian'] = (ONE, {})
        self.units['arcdegree'] = (T.mul(PI, C('1/180')), {})
        self.units['Kelvin'] = (ONE, {'Kelvin': ONE})
        self.units['bit'] = (ONE, {'bit': ONE})
        self._synth()
        history.run(self, paths.Undecided, PyRaise)

    # ------------------------------------------------- synthetic units
    def _synth(self):
        """user-defined units with symbolic conversion factors"""
        r = {k: T.sym('r' + k, True, True) for k in 'ABTUMKQPFCD'}
        self.r = r
        pre = '''
lenA = pq.UnitLength('lenA', rA*pq.m)
lenB = pq.UnitLength('lenB', rB*pq.m)
timA = pq.UnitTime('timA', rT*pq.s)
timB = pq.UnitTime('timB', rU*pq.s)
masA = pq.UnitMass('masA', rM*pq.kg)
ratA = pq.UnitQuantity('ratA', rK*pq.dimensionless)
ratB = pq.UnitQuantity('ratB', rQ*pq.dimensionless)
frcA = pq.UnitQuantity('frcA', rF*masA*lenA/timA**2)
velA = pq.UnitQuantity('velA', rP*lenB/timA)
lenC = pq.UnitConstant('lenC', rC*pq.m, symbol='lenA')
timC = pq.UnitConstant('timC', rD*pq.s, symbol='lenA')
'''
        ns = self.run(pre, **{'r' + k: SNum(v, 'float') for k, v in r.items()})
        self.ns = {k: ns[k] for k in ('lenA', 'lenB', 'timA', 'timB', 'masA', 'ratA', 'ratB', 'frcA', 'velA', 'lenC', 'timC')}
        L, Ti, M = {'meter': ONE}, {'second': ONE}, {'kilogram': ONE}
        self.units.update({
            'lenA': (r['A'], L), 'lenB': (r['B'], L), 'timA': (r['T'], Ti), 'timB': (r['U'], Ti), 'masA': (r['M'], M),
            'ratA': (r['K'], {}), 'ratB': (r['Q'], {}), 'lenC': (r['C'], L), 'timC': (r['D'], Ti),
            'frcA': (T.mul(r['F'], r['M'], r['A'], T.power(r['T'], C(-2))),
                   {'kilogram': ONE, 'meter': ONE, 'second': C(-2)}),
            'velA': (T.mul(r['P'], r['B'], T.inv(r['T'])), {'meter': ONE, 'second': C(-1)})})

    # ------------------------------------------------- running fragments
    def run(self, src, **kw):
        """abstractly execute a user program fragment; PyRaise on exceptions"""
        ns = {'__name__': 'user', '__builtins__': None, 'pq': self.pq, 'np': self.np, '__package__': ''}
        ns.update(self.ns)
        ns.update(kw)
        m = AModule('user', ns, None)
        env = interp.Env(None, ns, None, 'module', m)
        env.vars = ns
        interp.trace.clear()
        self.I.block(_parse(src).body, env)
        return ns

    def tryrun(self, src, **kw):
        try:
            return self.run(src, **kw)
        except PyRaise as e:
            raise Raised(e)

    def do(self, src, what=None, **kw):
        """run a fragment that has to succeed"""
        try:
            return self.run(src, **kw)
        except PyRaise as e:
            fail(what or src, 'raised %s(%s) at %s' % (e.exc.cls.name, short(e.exc.attrs.get('args')), e.where))

    def ev(self, expr, what=None, **kw):
        return self.do('_r = ' + expr, what or expr, **kw)['_r']

    def refuse(self, src, names=('Exception',), what=None, **kw):
        """a fragment that has to raise one of the named exceptions"""
        try:
            ns = self.run(src, **kw)
        except PyRaise as e:
            if not any(c.name in names for c in e.exc.cls.mro):
                fail(what or src, 'raised %s(%s) at %s instead of %s' % (
                    e.exc.cls.name, short(e.exc.attrs.get('args')), e.where, '/'.join(names)))
            done('refused')
            return e
        fail(what or src, 'was accepted%s' % (', giving %s' % self.show(ns['_r']) if '_r' in ns else ''))

    # ------------------------------------------------- symbolic inputs
    def arr(self, name, shape=(), dtype='float64', positive=False, scalar=False):
        dt = N.DT[dtype]
        return N.plain(T.sym(name, scalar or shape == (), positive, dt.kind in 'iu', positive), shape, dt)

    def vec(self, name, n=None, **kw):
        return self.arr(name, (n if n is not None else self.dim(name),), **kw)

    def dim(self, name):
        return T.sym('len_' + name, True, True, True)

    def num(self, name, kind='float', positive=False):
        return SNum(T.sym(name, True, positive, kind == 'int', positive), kind)

    def q(self, arr, unit, **kw):
        """Quantity(arr, unit); unit is an expression"""
        return self.ev('pq.Quantity(_a, %s)' % unit, _a=arr, **kw)

    def uq(self, arr, unit, unc, uunit=None):
        if uunit is None:
            return self.ev('pq.UncertainQuantity(_a, %s, _u)' % unit, _a=arr, _u=unc)
        return self.ev('pq.UncertainQuantity(_a, %s, pq.Quantity(_u, %s))' % (unit, uunit), _a=arr, _u=unc)

    # ------------------------------------------------- observations
    def isq(self, v):
        return isinstance(v, AArr) and any(c.name == 'Quantity' for c in v.cls.mro)

    def cls(self, v):
        return B.type_of(v).name

    def mag(self, v):
        """magnitude term of a quantity, array or number"""
        if self.isq(v):
            v = self.I.getattr(v, 'magnitude')
        if isinstance(v, AArr):
            return N.val(v)
        n = N.as_number(self.I, v)
        if n is None:
            fail('result', 'is not numeric: %s' % self.show(v))
        return B.term_of(n)

    def shape(self, v):
        return N.shape_of(v) if isinstance(v, AArr) else ()

    def dims(self, v):
        """{unit name: exponent} of a quantity or dimensionality"""
        if self.isq(v):
            v = self.I.getattr(v, 'dimensionality')
        if not isinstance(v, ADict):
            return {}
        out = {}
        for k, x in v.entries.values():
            e = B.term_of(N.as_number(self.I, x))
            out[self.I.getattr(k, 'name')] = paths.facts.norm(e)
        return out

    def factor(self, dims):
        """scale and base dimensions of {unit name: exponent}"""
        s, b = ONE, {}
        for n, e in dims.items():
            if n not in self.units:
                raise Undecided('no reference scale for the unit %r' % (n,))
            f, bd = self.units[n]
            s = T.mul(s, T.power(f, e))
            for k, x in bd.items():
                b[k] = T.add(b.get(k, ZERO), T.mul(x, e))
        return s, {k: x for k, x in b.items() if not T.is_const_eq(x, 0)}

    def si(self, v):
        """physical value: (value in SI base units, base dimensions)"""
        if not self.isq(v):
            return self.mag(v), {}
        s, b = self.factor(self.dims(v))
        return T.mul(self.mag(v), s), b

    def unc(self, v):
        return self.I.getattr(v, 'uncertainty')

    def show(self, v):
        try:
            if self.isq(v):
                d = self.dims(v)
                return '%s of %s with units %s' % (self.cls(v), T.show(paths.facts.norm(self.mag(v)))[:300],
                                                   showdims(d))
            if isinstance(v, AArr):
                return '%s %s' % (self.cls(v), T.show(paths.facts.norm(N.val(v)))[:300])
            if isinstance(v, SNum):
                return T.show(paths.facts.norm(v.t))
            if isinstance(v, ADict) and v.cls.name == 'Dimensionality':
                return 'dimensionality ' + showdims(self.dims(v))
        except Exception:
            pass
        return short(v)

    # ------------------------------------------------- snapshots of state
    def snap(self, v, deep=True):
        """observable state of a value, for 'is unchanged' obligations"""
        if isinstance(v, AArr):
            s = {'cls': v.cls.name, 'val': N.val(v), 'shape': tuple(N.shape_of(v)), 'dtype': v.dtype.name,
                 'writeable': v.writeable}
            if self.isq(v):
                s['dims'] = self.dims(v)
                if v.cls.name == 'UncertainQuantity':
                    s['unc'] = self.snap(self.unc(v))
            return s
        if isinstance(v, AList):
            return ['list'] + [self.snap(x) for x in v.items]
        if isinstance(v, tuple):
            return ['tuple'] + [self.snap(x) for x in v]
        if isinstance(v, ADict):
            return ['dict'] + [(self.snap(k), self.snap(x)) for k, x in v.entries.values()]
        if isinstance(v, SNum):
            return v.t
        if isinstance(v, Obj):
            return id(v)
        return v if isinstance(v, (str, int, float, bool, type(None))) else id(v)

    def unchanged(self, what, before, v, name='operand'):
        now = self.snap(v)
        d = snapdiff(before, now)
        if d:
            fail(what, '%s was changed: %s' % (name, d))
        done('unchanged')

    # ------------------------------------------------- obligations
    def want_q(self, what, v, cls='Quantity'):
        if not self.isq(v) or cls and v.cls.name != cls:
            fail(what, 'is %s, not a %s' % (self.show(v), cls or 'Quantity'))
        done('type')

    def want_value(self, what, v, term, base=None):
        """the physical value of v is `term` (in SI base units)"""
        t, b = self.si(v)
        if base is not None:
            want_dims(what + ': dimensions', b, base)
        want_same(what, t, term)

    def want_units(self, what, v, dims):
        want_dims(what + ': units', self.dims(v), dims)

    def want_mag(self, what, v, term):
        want_same(what, self.mag(v), term)

    def want_q_like(self, what, v, val, dims, cls='Quantity', shape=None):
        """v is a quantity with the given units and physical value"""
        self.want_q(what, v, cls)
        self.want_units(what, v, dims)
        s, _ = self.factor(dims)
        want_same(what, T.mul(self.mag(v), s), val)
        if shape is not None:
            want_shape(what, self.shape(v), shape)

    def want_plain(self, what, v, term=None, kinds=None):
        if self.isq(v):
            fail(what, 'is %s, not a plain array or number' % self.show(v))
        done('type')
        if term is not None:
            want_same(what, self.mag(v), term)


PI = T.const(T.Fraction('3.141592653589793'))


def done(rule, n=1):
    global obligations
    obligations += n
    rules[rule] = rules.get(rule, 0) + n


def fail(what, msg):
    e = Finding('%s: %s' % (what, msg))
    e.where = where()
    raise e


def want(what, cond, msg):
    if not cond:
        fail(what, msg)
    done('fact')


def want_same(what, a, b, tol=1e-7):
    r = paths.same(a, b, tol)
    if r is None:
        raise Undecided('cannot compare %s and %s' % (T.show(a)[:200], T.show(b)[:200]))
    if not r:
        a, b = paths.facts.norm(a), paths.facts.norm(b)
        fail(what, 'has the value %s where %s is right' % (T.show(a)[:400], T.show(b)[:400]))
    done('value')


def nan_truth(t, nan, p):
    """the truth of a predicate at the sample point p when the values that
    depend on the symbol `nan` are not numbers; None: not a plain predicate"""
    if t.op == 'const':
        return t.args[0] != 0
    if t.op != 'fn':
        return None
    n = t.args[0]
    if n in ('lt', 'le', 'eq'):
        if any(nan in T.symbols(a) for a in t.args[1:]):
            return False
        return p.ev(t) != 0
    if n == 'isnan':
        return nan in T.symbols(t.args[1])
    if n == 'not':
        r = nan_truth(t.args[1], nan, p)
        return None if r is None else not r
    if n in ('and', 'or'):
        a, b = nan_truth(t.args[1], nan, p), nan_truth(t.args[2], nan, p)
        if a is None or b is None:
            return None
        return (a and b) if n == 'and' else (a or b)
    return None


def want_same_nan(what, a, b):
    """the predicates a and b agree when an operand is not a number, too"""
    if paths.facts.order:
        return
    a, b = paths.facts.norm(a), paths.facts.norm(b)
    for s in sorted(T.symbols(a) | T.symbols(b), key=lambda s: s.args[0]):
        if s.args[2] or s.args[3]:      # unit scales and integers
            continue
        for p in paths.facts.points():
            x, y = nan_truth(a, s, p), nan_truth(b, s, p)
            if x is None or y is None:
                return
            if x != y:
                fail(what, 'is %s where %s is not a number (it is %s, where %s is right)' % (
                    x, T.show(s), T.show(a)[:200], T.show(b)[:200]))
        done('not-a-number')


def want_dims(what, a, b):
    z = a      # (an entry with the exponent 0 is a unit that should have gone)
    y = {k: x for k, x in b.items() if not T.is_const_eq(paths.facts.norm(x), 0)}
    if set(z) != set(y) or any(paths.same(z[k], y[k]) is False for k in z):
        fail(what, 'are %s instead of %s' % (showdims(a), showdims(b)))
    done('units')


def want_shape(what, a, b):
    if len(a) != len(b) or any(paths.same(N.dterm(x), N.dterm(y)) is False for x, y in zip(a, b)):
        fail(what, 'has the shape %s instead of %s' % (a, b))
    done('shape')


def showdims(d):
    return '*'.join('%s**%s' % (k, T.show(x)) for k, x in sorted(d.items())) or 'dimensionless'


def short(v, n=160):
    s = str(v)
    return s if len(s) <= n else s[:n] + '...'


def snapdiff(a, b, pre=''):
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        r = paths.same(a, b)
        if r is False:
            return '%sfrom %s to %s' % (pre, T.show(a)[:200], T.show(b)[:200])
        return ''
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return '%s%s added' % (pre, k)
            if k not in b:
                return '%s%s removed' % (pre, k)
            d = snapdiff(a[k], b[k], '%s%s ' % (pre, k))
            if d:
                return d
        return ''
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%slength' % pre
        for x, y in zip(a, b):
            d = snapdiff(x, y, pre)
            if d:
                return d
        return ''
    if isinstance(a, T.Term) or isinstance(b, T.Term):
        x = a if isinstance(a, T.Term) else T.const(a) if isinstance(a, (int, float)) else None
        y = b if isinstance(b, T.Term) else T.const(b) if isinstance(b, (int, float)) else None
        if x is not None and y is not None:
            return snapdiff(x, y, pre)
    if a != b:
        return '%sfrom %s to %s' % (pre, short(a), short(b))
    return ''
