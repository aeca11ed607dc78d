"""Term algebra: the value domain of the abstract interpreter.

An abstract number is a hash-consed term over named inputs.  Terms are lightly
normalised when they are built (constants folded, products merged per base,
sums merged per term); two terms are compared by algebraic identity testing:
both are evaluated at sample points of the *terms' own symbols* (Schwartz-Zippel
style), functions outside the algebra being uninterpreted.  No code of the
analysed program is involved in that comparison.
"""
from fractions import Fraction
import hashlib
import math
import random

_cons = {}


class Term:
    __slots__ = ('op', 'args', 'h', '_syms', '__weakref__')

    def __repr__(self):
        return show(self)

    def __reduce__(self):
        return (_mk, (self.op, self.args))


def _mk(op, args):
    key = (op, args)
    t = _cons.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.h = hash(key)
        t._syms = None
        _cons[key] = t
    return t


def const(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x):
            return _mk('inf', (repr(x),))
        x = Fraction(repr(x))
    return _mk('const', (Fraction(x),))


ZERO = const(0)
ONE = const(1)
TWO = const(2)
MINUS_ONE = const(-1)
HALF = const(Fraction(1, 2))


def sym(name, scalar=False, positive=False, integer=False, nonneg=False):
    """scalar: one number (a unit's scale, an exponent), else a generic array
    element."""
    return _mk('sym', (name, scalar, positive, integer, nonneg or positive))


#: homogeneous functions of their first argument (value 0 at 0)
HOMOGENEOUS = set()
#: ... of degree one and linear: every scalar factor can be pulled out
LINEAR = set()


def fn(name, *args):
    if args and args[0] is ZERO and name in HOMOGENEOUS:
        if name not in ('mod', 'fmod', 'floordiv') or strictly_positive(args[1]):
            return ZERO
    if name in IDEMPOTENT and is_scalar(args[0]):
        return args[0]
    if name in ROUNDING and args[0].op == 'const':
        if name != 'round':
            return const(ROUNDING[name](args[0].args[0]))
        if args[1].op == 'const' and args[1].args[0].denominator == 1:
            return const(Fraction(round(args[0].args[0], int(args[1].args[0]))))
    return _mk('fn', (name,) + tuple(args))


ROUNDING = {'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'rint': round, 'round': None}


#: reductions that give back a value repeated
IDEMPOTENT = {'min', 'max', 'nanmin', 'nanmax', 'mean', 'nanmean', 'median', 'sel', 'squeeze', 'reshape', 'expand', 'T', 'take',
              'repeat', 'diagonal', 'takealong', 'roll', 'at', 'sort'}


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.args[0]


def is_const_eq(t, v):
    return t.op == 'const' and t.args[0] == v


# ---------------------------------------------------------------- constructors
def split_coeff(t):
    """t = coeff * rest"""
    if t.op == 'const':
        return t.args[0], ONE
    if t.op == 'mul':
        c = t.args[0]
        if c.op == 'const':
            rest = t.args[1:]
            if len(rest) == 1:
                return c.args[0], rest[0]
            return c.args[0], _mk('mul', rest)
    return Fraction(1), t


def add(*ts):
    acc = {}
    order = []
    for t in ts:
        parts = t.args if t.op == 'add' else (t,)
        for p in parts:
            c, r = split_coeff(p)
            if r not in acc:
                acc[r] = Fraction(0)
                order.append(r)
            acc[r] += c
    out = []
    for r in order:
        c = acc[r]
        if c == 0:
            continue
        out.append(const(c) if r is ONE else (r if c == 1 else mul(const(c), r)))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.h)
    return _mk('add', tuple(out))


def neg(t):
    return mul(MINUS_ONE, t)


def sub(a, b):
    return add(a, neg(b))


def base_exp(t):
    if t.op == 'pow':
        return t.args
    return t, ONE


def mul(*ts):
    coeff = Fraction(1)
    acc = {}
    order = []

    def put(b, e):
        if b not in acc:
            acc[b] = ZERO
            order.append(b)
        acc[b] = add(acc[b], e)

    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t.op == 'const':
            coeff *= t.args[0]
        elif t.op == 'mul':
            stack.extend(reversed(t.args))
        else:
            b, e = base_exp(t)
            put(b, e)
    if coeff == 0:
        return ZERO
    out = []
    for b in order:
        e = acc[b]
        if is_const_eq(e, 0):
            continue
        p = b if is_const_eq(e, 1) else power(b, e)
        if p.op == 'const':
            coeff *= p.args[0]
        elif p.op == 'mul':
            for q in p.args:
                if q.op == 'const':
                    coeff *= q.args[0]
                else:
                    out.append(q)
        else:
            out.append(p)
    if not out:
        return const(coeff)
    out.sort(key=lambda t: t.h)
    if coeff != 1:
        if len(out) == 1 and out[0].op == 'add':
            return add(*[mul(const(coeff), p) for p in out[0].args])
        out.insert(0, const(coeff))
    if len(out) == 1:
        return out[0]
    return _mk('mul', tuple(out))


def nonneg(t):
    """syntactic: t >= 0 for all values of the symbols"""
    if t.op == 'const':
        return t.args[0] >= 0
    if t.op == 'sym':
        return t.args[4]
    if t.op == 'fn':
        if t.args[0] in ('abs', 'size', 'dim', 'len', 'ndim'):
            return True
        if t.args[0] in ('sum', 'mean', 'max', 'min', 'nansum', 'nanmean', 'nanmax',
                         'nanmin', 'item', 'pick', 'cumsum', 'squeeze', 'cast', 'sel', 'at', 'expand', 'T',
                         'reshape', 'take', 'sort', 'repeat', 'diagonal', 'nn', 'takealong', 'trace'):
            return nonneg(t.args[1])
        if t.args[0] == 'arr':
            return all(nonneg(x) for x in t.args[1:])
        return False
    if t.op == 'pow':
        b, e = t.args
        if nonneg(b):
            return True
        return e.op == 'const' and e.args[0].denominator == 1 and e.args[0] % 2 == 0
    if t.op == 'mul':
        return all(nonneg(p) for p in t.args)
    if t.op == 'add':
        return all(nonneg(p) for p in t.args)
    return False


def _iroot(n, k):
    """exact k-th root of a nonnegative int or None"""
    if n < 2:
        return n
    r = round(n ** (1.0 / k)) if n < 2 ** 1000 else int(2 ** (n.bit_length() / k))
    for c in (r - 1, r, r + 1):
        if c >= 0 and c ** k == n:
            return c
    return None


def power(b, e):
    if is_const_eq(e, 0):
        return ONE
    if is_const_eq(e, 1):
        return b
    if e.op == 'const':
        ev = e.args[0]
        if b.op == 'const':
            v = b.args[0]
            if ev.denominator == 1 and abs(ev) < 4096:
                if v == 0 and ev < 0:
                    return _mk('inf', ('zerodiv',))
                return const(v ** int(ev))
            if v >= 0:
                d = ev.denominator
                if d <= 64 and abs(ev.numerator) < 4096:
                    n, m = _iroot(v.numerator, d), _iroot(v.denominator, d)
                    if n is not None and m is not None and (n or ev > 0):
                        return const(Fraction(n, m) ** ev.numerator)
            return _mk('pow', (b, e))
        if b.op == 'pow':
            b2, e2 = b.args
            if nonneg(b2) or ev.denominator == 1:
                return power(b2, mul(e2, e))
            if e2.op == 'const' and e2.args[0].denominator == 1 and e2.args[0] % 2 == 0:
                return power(absolute(b2), mul(e2, e))
            return _mk('pow', (b, e))
        if b.op == 'mul':
            if ev.denominator == 1:
                return mul(*[power(p, e) for p in b.args])
            good = [p for p in b.args if nonneg(p)]
            bad = [p for p in b.args if not nonneg(p)]
            if good:
                rest = mul(*bad) if bad else ONE
                parts = [power(p, e) for p in good]
                if rest is not ONE:
                    parts.append(_mk('pow', (rest, e)) if rest.op in ('mul', 'sym', 'fn', 'add') else power(rest, e))
                return mul(*parts)
            return _mk('pow', (b, e))
    else:
        if b.op == 'pow' and nonneg(b.args[0]):
            return power(b.args[0], mul(b.args[1], e))
        if b.op == 'mul' and all(nonneg(p) for p in b.args):
            return mul(*[power(p, e) for p in b.args])
        if b is ONE:
            return ONE
    return _mk('pow', (b, e))


def inv(t):
    return power(t, MINUS_ONE)


def div(a, b):
    return mul(a, inv(b))


def absolute(t):
    if nonneg(t):
        return t
    if t.op == 'const':
        return const(abs(t.args[0]))
    if t.op == 'mul':
        return mul(*[absolute(p) for p in t.args])
    if t.op == 'fn' and t.args[0] == 'abs':
        return t
    if t.op == 'pow' and t.args[1].op == 'const' and t.args[1].args[0].denominator == 1:
        return power(absolute(t.args[0]), t.args[1])
    return fn('abs', t)


def scalar_factor(t, signed=False):
    """t = s * rest with s the product of the scalar factors (of the
    nonnegative ones unless signed)"""
    parts = t.args if t.op == 'mul' else (t,)
    s, r = [], []
    for p in parts:
        (s if is_scalar(p) and (signed or nonneg(p)) else r).append(p)
    return mul(*s) if s else ONE, mul(*r) if r else ONE


def strictly_positive(t):
    if t.op == 'const':
        return t.args[0] > 0
    if t.op == 'sym':
        return t.args[2]
    if t.op == 'pow':
        return strictly_positive(t.args[0])
    if t.op == 'mul':
        return all(strictly_positive(a) for a in t.args)
    if t.op == 'add':
        return all(nonneg(a) for a in t.args) and any(strictly_positive(a) for a in t.args)
    return False


def positive_factor(t):
    """t = s * rest with s the product of its positive scalar factors"""
    parts = t.args if t.op == 'mul' else (t,)
    s, r = [], []
    for p in parts:
        (s if is_scalar(p) and strictly_positive(p) else r).append(p)
    return mul(*s) if s else ONE, mul(*r) if r else ONE


def is_scalar(t):
    if t.op == 'const':
        return True
    if t.op == 'sym':
        return t.args[1]
    if t.op in ('add', 'mul'):
        return all(is_scalar(a) for a in t.args)
    if t.op == 'pow':
        return is_scalar(t.args[0]) and is_scalar(t.args[1])
    if t.op == 'fn':
        return t.args[0] in ('size', 'dim', 'len', 'ndim', 'pi')
    return False


def hom(name, degree, x, *args):
    """application of a function homogeneous of the given degree in x (for
    nonnegative scalar factors); degree is a Term"""
    if x is ZERO and name in HOMOGENEOUS:
        return ZERO
    s, r = scalar_factor(x, name in LINEAR)
    app = fn(name, r, *args)
    if s is ONE:
        return app
    return mul(power(s, degree), app)


# ------------------------------------------------------------------- traversal
def symbols(t):
    if t._syms is None:
        if t.op == 'sym':
            t._syms = frozenset([t])
        elif t.op in ('const', 'inf'):
            t._syms = frozenset()
        else:
            s = frozenset()
            for a in t.args:
                if isinstance(a, Term):
                    s |= symbols(a)
                elif isinstance(a, tuple):
                    for b in _deep(a):
                        s |= symbols(b)
            t._syms = s
    return t._syms


def _deep(a):
    for x in a:
        if isinstance(x, Term):
            yield x
        elif isinstance(x, tuple):
            yield from _deep(x)


def subst(t, m):
    """replace symbols by terms"""
    if not m:
        return t
    if t.op == 'sym':
        return m.get(t, t)
    if t.op in ('const', 'inf'):
        return t
    if not any(s in m for s in symbols(t)):
        return t
    args = tuple(_subst_arg(a, m) for a in t.args)
    if t.op == 'add':
        return add(*args)
    if t.op == 'mul':
        return mul(*args)
    if t.op == 'pow':
        return power(*args)
    if t.op == 'fn':
        if args[0] == 'abs':
            return absolute(args[1])
        if args[0] in LINEAR:
            return hom(args[0], ONE, *args[1:])
        return fn(*args)
    return _mk(t.op, args)


def _subst_arg(a, m):
    if isinstance(a, Term):
        return subst(a, m)
    if isinstance(a, tuple):
        return tuple(_subst_arg(x, m) for x in a)
    return a


def show(t):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x) for x in t) + ')'
    if not isinstance(t, Term):
        return str(t)
    if t.op == 'const':
        v = t.args[0]
        if v.denominator == 1:
            return str(v.numerator)
        return '%.12g' % float(v) if v.denominator > 1000 else str(v)
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'inf':
        return t.args[0]
    if t.op == 'add':
        return '(' + ' + '.join(show(a) for a in t.args) + ')'
    if t.op == 'mul':
        return '*'.join(show(a) for a in t.args)
    if t.op == 'pow':
        return '%s^%s' % (show(t.args[0]), show(t.args[1]))
    return '%s(%s)' % (t.args[0], ', '.join(show(a) for a in t.args[1:]))


# -------------------------------------------------------- identity testing
class NoValue(Exception):
    pass


def _pymod(a, b):
    return a - b * math.floor(a / b)


def _b(x):
    return 1.0 if x else 0.0


#: elementwise functions, interpreted on the sample element
_REAL = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp,
    'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'arcsin': math.asin, 'arccos': math.acos,
    'arctan': math.atan, 'arcsinh': math.asinh, 'arccosh': math.acosh, 'arctanh': math.atanh, 'log': math.log,
    'log10': math.log10, 'log2': math.log2, 'exp2': lambda x: 2.0 ** x, 'expm1': math.expm1, 'log1p': math.log1p,
    'arctan2': math.atan2, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'maximum': max,
    'minimum': min, 'mod': _pymod, 'fmod': math.fmod, 'floordiv': lambda a, b: float(math.floor(a / b)),
    'sign': lambda x: (x > 0) - (x < 0) + 0.0, 'logaddexp': lambda a, b: math.log(math.exp(a) + math.exp(b)),
    'logaddexp2': lambda a, b: math.log2(2.0 ** a + 2.0 ** b),
    'lt': lambda a, b: _b(a < b and not close(a, b, 1e-9)), 'le': lambda a, b: _b(a < b or close(a, b, 1e-9)),
    'eq': lambda a, b: _b(close(a, b, 1e-9)), 'not': lambda a: _b(not a), 'and': lambda a, b: _b(a and b),
    'or': lambda a, b: _b(a or b),
}


def _canon(x):
    if x == 0:
        return '0'
    return '%.9e' % x


class Point:
    """a sample point: values for the symbols, uninterpreted functions hashed"""

    def __init__(self, seed, fixed=None, shift=1.0):
        self.shift = shift      # a second rounding grid for the arguments
        self.seed = seed
        self.vals = dict(fixed or {})
        self.memo = {}

    def symval(self, s):
        v = self.vals.get(s)
        if v is None:
            rnd = random.Random('%s|%s' % (self.seed, s.args[0]))
            name, scalar, positive, integer, nn = s.args
            if integer:
                v = rnd.choice([1, 2, 3, 4, 5, 6, 7])
                if not nn and rnd.random() < .5:
                    v = -v
                v = float(v)
            else:
                v = math.exp(rnd.uniform(-1.2, 1.2))
                if not nn and rnd.random() < .5:
                    v = -v
            self.vals[s] = v
        return v

    def ev(self, t):
        m = self.memo.get(t)
        if m is None:
            m = self._ev(t)
            if isinstance(m, complex) or m != m or abs(m) > 1e250:
                raise NoValue(show(t))
            self.memo[t] = m
        return m

    def _ev(self, t):
        op = t.op
        if op == 'const':
            return float(t.args[0])
        if op == 'sym':
            return self.symval(t)
        if op == 'inf':
            raise NoValue('inf')
        if op == 'add':
            return math.fsum(self.ev(a) for a in t.args)
        if op == 'mul':
            r = 1.0
            for a in t.args:
                r *= self.ev(a)
            return r
        if op == 'pow':
            b, e = self.ev(t.args[0]), self.ev(t.args[1])
            try:
                r = b ** e
            except (ZeroDivisionError, OverflowError, ValueError):
                raise NoValue(show(t))
            return r
        name = t.args[0]
        if name == 'abs':
            return abs(self.ev(t.args[1]))
        if name == 'pi':
            return math.pi
        f = _REAL.get(name)
        if f is not None and all(isinstance(a, Term) for a in t.args[1:]):
            try:
                return float(f(*[self.ev(a) for a in t.args[1:]]))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                pass
        return self._hashed(t)

    def _key(self, a):
        if isinstance(a, Term):
            return _canon(self.ev(a) * self.shift)
        if isinstance(a, tuple):
            return '(' + ','.join(self._key(x) for x in a) + ')'
        return repr(a) if isinstance(a, (str, int, float, bool, type(None))) else 'o%s' % id(a)

    def _hashed(self, t):
        s = '%s|%s|' % (self.seed, t.args[0]) + '|'.join(self._key(a) for a in t.args[1:])
        d = hashlib.sha256(s.encode()).digest()
        u = int.from_bytes(d[:8], 'big') / 2.0 ** 64
        v = math.exp(2.4 * u - 1.2)
        if d[8] & 1 and t.args[0] not in ('var', 'nanvar') and not nonneg(t):
            v = -v
        return v


def exact(t, vals):
    """the exact value for exact values of the symbols; None: not in reach"""
    op = t.op
    if op == 'const':
        return t.args[0]
    if op == 'sym':
        return vals.get(t)
    if op not in ('add', 'mul', 'pow', 'fn'):
        return None
    xs = [exact(a, vals) if isinstance(a, Term) else None for a in (t.args[1:] if op == 'fn' else t.args)]
    if any(x is None for x in xs):
        return None
    if op == 'add':
        return sum(xs)
    if op == 'mul':
        return math.prod(xs)
    if op == 'pow':
        if xs[1].denominator != 1 or not xs[0]:
            return None
        return xs[0] ** int(xs[1])
    f = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'eq': lambda a, b: a == b, 'not': lambda a: not a, 'abs': abs,
         'and': lambda *z: all(z), 'or': lambda *z: any(z), 'maximum': max, 'minimum': min, 'arr': lambda *z: z[0] if len(z) == 1 else None,
         'sign': lambda a: (a > 0) - (a < 0)}.get(t.args[0])
    if f is None:
        return None
    r = f(*xs)
    return None if r is None else Fraction(r)


def close(a, b, tol=1e-7):
    if a == b:
        return True
    return abs(a - b) <= tol * max(abs(a), abs(b), 1e-12)
