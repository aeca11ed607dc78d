"""Model of the NumPy 2 interface the analysed package builds on.

Arrays are abstract: a buffer holds one term that stands for all elements;
views are paths of selections into it.  Dispatch (array priorities,
__array_wrap__, __array_finalize__, base objects, casting) follows NumPy 2.0.
"""
import math

from . import paths
from . import term as T
from . import builtins_ as B
from . import np_names as NN
from .paths import Undecided, facts
from .values import *

VERSION = '2.0.2'

# ----------------------------------------------------------------- classes
def _cls(name, *bases):
    return AClass(name, bases or (B.OBJECT,), {}, module='numpy')


NDARRAY = _cls('ndarray')
GENERIC = _cls('generic')
NUMBER = _cls('number', GENERIC)
INTEGER = _cls('integer', NUMBER)
SIGNED = _cls('signedinteger', INTEGER)
UNSIGNED = _cls('unsignedinteger', INTEGER)
INEXACT = _cls('inexact', NUMBER)
FLOATING = _cls('floating', INEXACT)
COMPLEXF = _cls('complexfloating', INEXACT)
FLEXIBLE = _cls('flexible', GENERIC)
CHARACTER = _cls('character', FLEXIBLE)
DTYPE = _cls('dtype')
UFUNC = _cls('ufunc')
FLAGS = _cls('flagsobj')

_SPEC = [
    ('bool', 'b', 1, (GENERIC,)),
    ('int8', 'i', 1, (SIGNED,)), ('int16', 'i', 2, (SIGNED,)), ('int32', 'i', 4, (SIGNED,)),
    ('int64', 'i', 8, (SIGNED,)),
    ('uint8', 'u', 1, (UNSIGNED,)), ('uint16', 'u', 2, (UNSIGNED,)), ('uint32', 'u', 4, (UNSIGNED,)),
    ('uint64', 'u', 8, (UNSIGNED,)),
    ('float16', 'f', 2, (FLOATING,)), ('float32', 'f', 4, (FLOATING,)), ('float64', 'f', 8, (FLOATING, B.FLOAT)),
    ('longdouble', 'f', 16, (FLOATING,)),
    ('complex64', 'c', 8, (COMPLEXF,)), ('complex128', 'c', 16, (COMPLEXF, B.COMPLEX)),
    ('object_', 'O', 8, (GENERIC,)), ('str_', 'U', 4, (CHARACTER, B.STR)), ('bytes_', 'S', 1, (CHARACTER, B.BYTES)),
]
DT = {}
SCALAR = {}
for _n, _k, _s, _b in _SPEC:
    DT[_n] = ADtype({'object_': 'object', 'str_': 'str', 'bytes_': 'bytes'}.get(_n, _n), _k, _s)
    SCALAR[DT[_n]] = _cls(_n, *_b)
F8, F4, I8, BL, C16, OB, ST = (DT[x] for x in ('float64', 'float32', 'int64', 'bool', 'complex128', 'object_', 'str_'))
_CODES = {'d': 'float64', 'f': 'float32', 'e': 'float16', 'g': 'longdouble', 'i': 'int32', 'l': 'int64', 'q': 'int64',
          'h': 'int16', 'b': 'int8', 'B': 'uint8', 'H': 'uint16', 'I': 'uint32', 'L': 'uint64', 'Q': 'uint64',
          '?': 'bool', 'D': 'complex128', 'F': 'complex64', 'O': 'object_', 'U': 'str_', 'S': 'bytes_', 'p': 'int64',
          'f8': 'float64', 'f4': 'float32', 'f2': 'float16', 'i8': 'int64', 'i4': 'int32', 'i2': 'int16',
          'i1': 'int8', 'u1': 'uint8', 'u2': 'uint16', 'u4': 'uint32', 'u8': 'uint64', 'c16': 'complex128',
          'c8': 'complex64', 'b1': 'bool', 'float': 'float64', 'int': 'int64', 'complex': 'complex128',
          'double': 'float64', 'single': 'float32', 'object': 'object_', 'str': 'str_', 'bool_': 'bool',
          'long': 'int64', 'intp': 'int64', 'half': 'float16'}
_CHAR = {'float64': 'd', 'float32': 'f', 'float16': 'e', 'longdouble': 'g', 'int32': 'i', 'int64': 'l', 'int16': 'h',
         'int8': 'b', 'uint8': 'B', 'uint16': 'H', 'uint32': 'I', 'uint64': 'L', 'bool': '?', 'complex128': 'D',
         'complex64': 'F', 'object': 'O', 'str': 'U', 'bytes': 'S'}


def to_dtype(I, d):
    if isinstance(d, ADtype):
        return d
    if d is None:
        return F8
    if isinstance(d, str):
        n = d.lstrip('<=|>')
        n = _CODES.get(n, n)
        if n in DT:
            return DT[n]
        raise I.exc('TypeError', 'data type %r not understood' % d)
    if isinstance(d, AClass):
        for k, c in SCALAR.items():
            if c is d:
                return k
        r = {B.FLOAT: F8, B.INT: I8, B.BOOL: BL, B.COMPLEX: C16, B.OBJECT: OB, B.STR: ST}.get(d)
        if r is not None:
            return r
        if d in (FLOATING, INEXACT, NUMBER):
            return F8
        if d in (INTEGER, SIGNED):
            return I8
        return OB
    if isinstance(d, AArr) and 'dtype' not in d.attrs:
        return d.dtype
    a = I.getattr(d, 'dtype', None)
    if isinstance(a, ADtype):
        return a
    raise I.exc('TypeError', 'Cannot interpret %s as a data type' % B.type_of(d).name)


_LEVEL = {'b': 0, 'u': 1, 'i': 1, 'f': 2, 'c': 3, 'U': 8, 'S': 8, 'O': 9}


def promote2(a, b):
    if a is b:
        return a
    la, lb = _LEVEL[a.kind], _LEVEL[b.kind]
    if la > lb:
        a, b, la, lb = b, a, lb, la
    if lb >= 8:
        return b
    if a.kind == 'b':
        return b
    if lb == 1:
        if a.kind == b.kind:
            return a if a.size > b.size else b
        u, s = (a, b) if a.kind == 'u' else (b, a)
        if s.size > u.size:
            return s
        return {1: DT['int16'], 2: DT['int32'], 4: DT['int64']}.get(u.size, F8)
    if lb == 2:
        if la == 2:
            return a if a.size > b.size else b
        need = {1: 2, 2: 4}.get(a.size, 8)
        if b.size >= need:
            return b
        return {4: F4, 8: F8}[need]
    fs = a.size if la == 2 else {1: 2, 2: 4}.get(a.size, 8)
    if la == 3:
        return a if a.size > b.size else b
    return C16 if fs > 4 or b.size == 16 else b


_WEAK = {'b': BL, 'i': I8, 'f': F8, 'c': C16}


def result_dtype(items):
    """items: (dtype, weak)"""
    strong = [d for d, w in items if not w]
    weak = [d for d, w in items if w]
    if not strong:
        r = weak[0]
        for d in weak[1:]:
            r = promote2(r, d)
        return r
    r = strong[0]
    for d in strong[1:]:
        r = promote2(r, d)
    for d in weak:
        if _LEVEL[d.kind] > _LEVEL[r.kind]:
            if d.kind == 'c':
                r = DT['complex64'] if r.kind == 'f' and r.size <= 4 else C16
            elif d.kind == 'f':
                r = F8
            else:
                r = I8 if r.kind == 'b' else promote2(r, d)
    return r


def can_cast(a, b, casting='same_kind'):
    if a is b or casting == 'unsafe':
        return True
    if casting in ('no', 'equiv'):
        return False
    if casting == 'safe':
        return promote2(a, b) is b
    if promote2(a, b) is b:
        return True
    return _LEVEL[a.kind] <= _LEVEL[b.kind] and not (a.kind == 'i' and b.kind == 'u')


# ------------------------------------------------------------------- values
T.HOMOGENEOUS.update((
    'sel', 'at', 'expand', 'T', 'reshape', 'sum', 'nansum', 'nanmean', 'max', 'min', 'nanmax', 'nanmin', 'cumsum',
    'trace', 'diff', 'ediff1d', 'gradient', 'gradientx', 'cross', 'take', 'sort', 'repeat', 'diagonal', 'nn',
    'conj', 'real', 'imag', 'var', 'nanvar', 'ptp', 'trunc', 'floor', 'ceil', 'rint', 'round', 'mod', 'fmod',
    'floordiv', 'sin', 'tan', 'arcsin', 'arctan', 'sinh', 'tanh', 'arcsinh', 'arctanh', 'expm1', 'log1p', 'sign',
    'squeeze', 'prod', 'cumprod', 'median', 'dot', 'num', 'takealong'))
T.LINEAR.update((
    'sel', 'at', 'expand', 'T', 'reshape', 'sum', 'nansum', 'nanmean', 'cumsum', 'trace', 'diff', 'gradient', 'take',
    'repeat', 'diagonal', 'nn', 'conj', 'real', 'imag', 'squeeze', 'takealong', 'gradientx'))


def is_int_term(t):
    if t.op == 'const':
        return t.args[0].denominator == 1
    if t.op == 'sym':
        return t.args[3]
    if t.op in ('add', 'mul'):
        return all(is_int_term(a) for a in t.args)
    if t.op == 'fn':
        return t.args[0] in ('trunc', 'floor', 'ceil', 'rint', 'floordiv', 'argmax', 'argmin', 'len', 'eq', 'lt',
                             'le', 'not', 'and', 'or')
    if t.op == 'pow':
        return is_int_term(t.args[0]) and t.args[1].op == 'const' and t.args[1].args[0] >= 0 and is_int_term(t.args[1])
    return False


def trunc_t(t):
    if is_int_term(t):
        return t
    if t.op == 'const':
        return T.const(math.trunc(t.args[0]))
    if t.op == 'fn' and t.args[0] == 'arr':
        return T.fn('arr', *[trunc_t(x) for x in t.args[1:]])
    return T.fn('trunc', t)


def cast_t(t, a, b):
    if a is b:
        return t
    if b.kind in 'iu' and a.kind in 'fc':
        return trunc_t(t)
    if b.kind == 'b' and a.kind != 'b':
        return _fold(T.fn('not', T.fn('eq', t, T.ZERO)))
    return t


def _fold(p):
    if p.op == 'fn':
        r = B.fold_pred(p)
        if r is not None:
            return T.ONE if r else T.ZERO
    return p


def linear(name, t, *args):
    """application of a linear function; uniform arrays handled by the caller"""
    s, r = T.scalar_factor(t, True)
    app = _apply(name, r, args)
    return app if s is T.ONE else T.mul(s, app)


def _apply(name, r, args):
    if r is T.ZERO:
        return r
    return T.fn(name, r, *args)


ELEMENTWISE = {'maximum', 'minimum', 'abs', 'trunc', 'floor', 'ceil', 'rint', 'mod', 'fmod', 'floordiv', 'sin', 'cos',
               'tan', 'exp', 'log', 'eq', 'lt', 'le', 'not', 'and', 'or', 'isnan', 'round', 'arcsin', 'arccos',
               'arctan', 'sinh', 'cosh', 'tanh', 'log10', 'log2', 'exp2', 'sign', 'arctan2',
               'arcsinh', 'arccosh', 'arctanh', 'expm1', 'log1p'}


def element(t, i):
    """element i of an array term built from known elements, or None"""
    if T.is_scalar(t):
        return t
    if t.op == 'fn':
        n = t.args[0]
        if n == 'arr':
            k = len(t.args) - 1
            if -k <= i < k:
                return t.args[1:][i]
            return None
        if n in ELEMENTWISE:
            a = [element(x, i) if isinstance(x, T.Term) else x for x in t.args[1:]]
            if any(x is None for x in a):
                return None
            if n == 'abs':
                return T.absolute(a[0])
            return T.fn(n, *a)
        return None
    if t.op in ('add', 'mul', 'pow'):
        a = [element(x, i) for x in t.args]
        if any(x is None for x in a):
            return None
        return {'add': T.add, 'mul': T.mul, 'pow': T.power}[t.op](*a)
    return None


def _interval(e):
    """[from, to) an index entry stays within, counted from the front"""
    if e[0] == 'i' and isinstance(e[1], int) and e[1] >= 0:
        return e[1], e[1] + 1
    if e[0] == 'sl':
        a, b, c = e[1:4]
        if all(x is None or isinstance(x, int) for x in (a, b, c)) and (c is None or c > 0) and \
                (a is None or a >= 0) and (b is None or b >= 0):
            return a or 0, b
    return None


def _disjoint(p, q):
    if p[0] != 'sel' or q[0] != 'sel':
        return False
    for a, b in zip(p[1], q[1]):
        if a[0] == 'i' and b[0] == 'i' and isinstance(a[1], int) and isinstance(b[1], int) \
                and a[1] != b[1] and (a[1] < 0) == (b[1] < 0):
            return True
        x, y = _interval(a), _interval(b)
        if x and y and (x[1] is not None and x[1] <= y[0] or y[1] is not None and y[1] <= x[0]):
            return True
    return False


_ARG = {'argmax': 'max', 'argmin': 'min', 'nanargmax': 'nanmax', 'nanargmin': 'nanmin'}


def at(r, a):
    """elements of r at the positions found by argmax-like a"""
    s, r = T.scalar_factor(r, True)
    if r is T.ONE:
        return s
    if a.op == 'fn' and a.args[0] in _ARG and T.scalar_factor(r)[1] is a.args[1]:
        v = extremum(_ARG[a.args[0]], r, a.args[2])
    else:
        v = T.fn('at', r, a)
    return T.mul(s, v)


def _nesting(t):
    """how deep the lists of an array of known elements go"""
    if t.op == 'fn' and t.args[0] == 'arr':
        return 1 + max(map(_nesting, t.args[1:]))
    return max([_nesting(x) for x in t.args if isinstance(x, T.Term)], default=0)


def _constants(t):
    """the elements of an array of known numbers, or None"""
    if t.op == 'const':
        return [t.args[0]]
    if t.op == 'fn' and t.args[0] in ('eq', 'lt', 'le', 'not', 'and', 'or'):
        l = [_constants(x) for x in t.args[1:]]
        if None in l or len({len(x) for x in l} - {1}) > 1 or len({_nesting(x) for x in t.args[1:]} - {0}) > 1:
            return None
        n = max(map(len, l))
        f = {'eq': lambda x, y: x == y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'not': lambda x: not x,
             'and': lambda x, y: x and y, 'or': lambda x, y: x or y}[t.args[0]]
        return [T.Fraction(1 if f(*x) else 0) for x in zip(*[x * n if len(x) < n else x for x in l])]
    if t.op != 'fn' or t.args[0] != 'arr':
        n = _length(t)
        l = [element(t, i) for i in range(n)]
    else:
        l = t.args[1:]
    if not l or any(e is None or e is t for e in l):
        return None
    out = []
    for e in l:
        x = _constants(e)
        if x is None:
            return None
        out += x
    return out


def extremum(name, t, axkey):
    if T.is_scalar(t):
        return t
    c, r0 = T.split_coeff(t)
    if c < 0:
        flip = {'max': 'min', 'min': 'max', 'nanmax': 'nanmin', 'nanmin': 'nanmax'}[name]
        return T.neg(extremum(flip, T.neg(t), axkey))
    if axkey == 'all':
        els = _constants(t)
        if els:
            return T.const(min(els) if name in ('min', 'nanmin') else max(els))
    return T.hom(name, T.ONE, t, axkey)


def select(t, p):
    if T.is_scalar(t):
        return t
    s, r = T.scalar_factor(t, True)
    if r is T.ONE:
        return t
    return T.mul(s, _select(r, p))


def _select(r, p):
    name = p[0]
    if r.op == 'fn' and r.args[0] == 'upd' and r.args[2] == p:
        return r.args[3]
    if name == 'sel':
        if r.op == 'fn' and r.args[0] == 'upd':
            q = r.args[2]
            if q == p:
                return r.args[3]
            if _disjoint(q, p):
                return select(r.args[1], p)
            v = _through(q, p, r.args[3])
            if v is not None:
                return v
        k = p[1]
        if k and r.op == 'fn' and r.args[0] == 'sel' and len(r.args) == 3 and r.args[2] and all(e[0] == 'i' for e in r.args[2]):
            return select(r.args[1], ('sel', tuple(r.args[2]) + tuple(k)))
        if len(k) >= 1 and k[0][0] == 'i' and type(k[0][1]) is int and r.op == 'fn' and r.args[0] == 'sel' and len(r.args) == 3:
            # an element of a slice
            o = r.args[2]
            if len(o) == 1 and o[0][0] == 'sl' and all(type(x) is int for x in o[0][1:4]) and o[0][3] > 0:
                g = range(*o[0][1:4])
                if -len(g) <= k[0][1] < len(g):
                    return select(r.args[1], ('sel', (('i', g[k[0][1]]),) + tuple(k[1:])))
        if len(k) == 1 and k[0][0] == 'sl' and all(type(x) is int for x in k[0][1:4]) and k[0][3] > 0 and not T.is_scalar(r):
            els = [element(r, i) for i in range(*k[0][1:4])]
            if els and all(e is not None for e in els):
                return T.fn('arr', *els)
        if k and k[0][0] == 'i' and isinstance(k[0][1], int):
            e = element(r, k[0][1])
            if e is not None:
                return e if len(k) == 1 else select(e, ('sel', k[1:]))
        a = _arg_index(k)
        if a is not None:
            return at(r, a)
        if len(k) == 1 and k[0][0] == 'i' and type(k[0][1]) is int and r.op == 'add' and _alike_slices(r):
            return T.add(*[select(x, p) for x in r.args])
    if name in ('real', 'imag') and r.op == 'fn' and r.args[0] == 'upd' and r.args[2][0] in ('real', 'imag'):
        return r.args[3] if r.args[2][0] == name else select(r.args[1], p)
    if name == 'reshape' and isinstance(p[1], str) and p[1].startswith('unit(') and p[1].count(',') == 1 and p[1].endswith(',)'):
        # one unit dimension
        return _select(r, ('expand', (int(p[1][5:-2]),)))
    if p in (('reshape', 'unit()'), ('reshape', 'one')) and r.op == 'fn' and r.args[0] == 'expand':
        # (up to unit dimensions, which the shapes tell)
        return r.args[1]
    if p == ('reshape', 'unit()') and r.op == 'fn' and r.args[0] == 'arr' and len(r.args) == 2:
        return _select(r.args[1], p)
    return T.fn(name, r, *p[1:])


def _alike_slices(r):
    """a sum of slices of one array, all with as many elements"""
    seen = set()
    for x in r.args:
        q = T.scalar_factor(x, True)[1]
        if q.op != 'fn' or q.args[0] != 'sel' or len(q.args) != 3 or len(q.args[2]) != 1:
            return False
        e = q.args[2][0]
        if e[0] != 'sl' or not all(type(i) is int for i in e[1:4]) or e[3] <= 0:
            return False
        seen.add((q.args[1], len(range(*e[1:4]))))
    return len(seen) == 1


def _through(q, p, v):
    """the element p of what was written at q, if p lies in q"""
    if q[0] != 'sel' or len(q[1]) != 1 or p[1][0][0] != 'i' or not isinstance(p[1][0][1], int):
        return None
    i, e = p[1][0][1], q[1][0]
    if e[0] == 'sl' and all(type(x) is int for x in e[1:4]) and e[3] > 0 and i in range(*e[1:4]):
        j = range(*e[1:4]).index(i)
    elif e[0] == 'arr' and e[1].op == 'fn' and e[1].args[0] == 'arr' and any(T.is_const_eq(x, i) for x in e[1].args[1:]):
        j = None
    else:
        return None
    if T.is_scalar(v):
        return v
    if j is not None and v.op == 'fn' and v.args[0] == 'upd':
        # (written through a view: has the extent of the slice)
        return select(v, ('sel', (('i', j),) + tuple(p[1][1:])))
    return None


def _arg_index(k):
    """the argmax term behind an index obtained from it"""
    def arg(x):
        return isinstance(x, T.Term) and x.op == 'fn' and x.args[0] in _ARG
    if len(k) == 1 and k[0][0] == 'i' and arg(k[0][1]):
        return k[0][1]
    if all(e[0] == 'i' and isinstance(e[1], T.Term) and e[1].op == 'fn' and e[1].args[0] == 'unravel' for e in k) and k:
        a = k[0][1].args[1]
        if arg(a) and all(e[1].args[1] is a and e[1].args[2] == i for i, e in enumerate(k)):
            return a
    return None


def update(bt, path, v):
    if not path:
        return v
    p = path[0]
    if len(path) > 1:
        v = update(select(bt, p), path[1:], v)
    if bt.op == 'fn' and bt.args[0] == 'upd' and bt.args[2] == p:
        bt = bt.args[1]
    if p[0] == 'sel' and len(p[1]) == 1 and p[1][0][0] == 'i' and isinstance(p[1][0][1], int) and \
            bt.op == 'fn' and bt.args[0] == 'arr':
        i = p[1][0][1]
        l = list(bt.args[1:])
        if -len(l) <= i < len(l):
            l[i] = v
            return T.fn('arr', *l)
    return T.fn('upd', bt, p, v)


def val(a):
    t = a.buf.t
    for p in a.path:
        t = select(t, p)
    return t


def write(I, a, t):
    if not a.writeable:
        raise I.exc('ValueError', 'assignment destination is read-only')
    a.buf.t = update(a.buf.t, a.path, t)
    a.buf.writes += 1


def dim(d):
    if isinstance(d, T.Term):
        d = facts.norm(d)
        if d.op == 'const':
            return int(d.args[0])
    return d


def shape_of(a):
    s = a.shape
    for d in s:
        if isinstance(d, T.Term):
            return tuple(dim(d) for d in s)
    return s


def dterm(d):
    return d if isinstance(d, T.Term) else T.const(d)


def pydim(d):
    d = dim(d)
    return SNum(d, 'int') if isinstance(d, T.Term) else d


def count(shape):
    return T.mul(*[dterm(d) for d in shape]) if shape else T.ONE


_fresh = [0]


_dims = {}


def fresh_dim(label='', key=None):
    """an unknown length; the same one for the same key"""
    if key is not None and (label, key) in _dims:
        return _dims[label, key]
    _fresh[0] += 1
    d = T.sym('dim%d%s' % (_fresh[0], label), True, True, True)
    if key is not None:
        _dims[label, key] = d
    return d


# ----------------------------------------------------------- construction
def plain(t, shape, dtype):
    return AArr(NDARRAY, Buffer(t), tuple(shape), dtype)


def scalar(t, dtype):
    return AArr(SCALAR[dtype], Buffer(t), (), dtype, writeable=False)


def ret0(t, shape, dtype):
    """result of a function returning scalars instead of 0-d arrays"""
    if not shape:
        return scalar(t, dtype)
    return plain(t, shape, dtype)


def finalize(I, a, obj):
    m = a.cls.lookup('__array_finalize__')
    if m is None or m is MISSING or isinstance(m, NativeFn):
        return a
    I.call(I.bind(m, a, a.cls), [obj])
    return a


def set_base(a, obj):
    while isinstance(obj, AArr):
        if obj.owns:
            break
        nxt = obj.base
        if nxt is None or not isinstance(nxt, AArr) or nxt.cls is not a.cls:
            break
        obj = nxt
    a.base = obj


def is_generic(a):
    return GENERIC in a.cls.mro


def mkview(I, a, cls=None, sel=None, shape=None, writeable=None):
    cls = cls or a.cls
    if is_generic(a):
        a = plain(val(a), (), a.dtype)
        if cls.issub(GENERIC):
            cls = NDARRAY
    v = AArr(cls, a.buf, shape_of(a) if shape is None else tuple(shape), a.dtype, None,
             a.path + ((sel,) if sel else ()), a.writeable if writeable is None else writeable, owns=False)
    set_base(v, a)
    return finalize(I, v, a)


def layout(a):
    """the order of the elements of a in memory: rows first, columns first,
    or what the way there says"""
    if a.buf.layout not in ('C', 'F'):
        return (a.buf.layout,) + a.path if a.path else a.buf.layout
    k = a.buf.layout == 'F'
    for p in a.path:
        if p[0] == 'reshape' and not k:
            continue
        if p != ('T',):
            return (a.buf.layout,) + a.path
        k = not k
    return 'F' if k else 'C'


def laid(r, a, order='K'):
    """r, in the order of a"""
    if not is_generic(r) and not is_generic(a) and not r.path:
        l = layout(a)
        r.buf.layout = order if order in 'CF' else l if order == 'K' or l == 'F' else 'C'
    return r


def mkcopy(I, a, t=None, shape=None, dtype=None, cls=None):
    """fresh array of a's class (finalized with a)"""
    dtype = dtype or a.dtype
    c = cls or a.cls
    shape = shape_of(a) if shape is None else tuple(shape)
    t = val(a) if t is None else t
    if c.issub(GENERIC):
        return ret0(t, shape, dtype)
    v = AArr(c, Buffer(t), shape, dtype)
    return finalize(I, v, a)


def py_dtype(v):
    if isinstance(v, bool):
        return BL
    if isinstance(v, int):
        return I8
    return {'int': I8, 'float': F8, 'complex': C16, 'bool': BL}[v.kind]


def is_pynum(v):
    return isinstance(v, (int, SNum))


def pynum(t, dtype):
    """Python number for an element"""
    if dtype.kind == 'b':
        t = _fold(t)
        if t.op == 'const':
            return bool(t.args[0])
        return SNum(t, 'bool')
    return B.mknum(t, {'i': 'int', 'u': 'int', 'f': 'float', 'c': 'complex'}.get(dtype.kind, 'float'))


def as_array(I, v, dtype=None):
    """AArr for any value; the class is kept for arrays"""
    if isinstance(v, AArr):
        return v
    if is_pynum(v):
        return plain(B.term_of(v), (), py_dtype(v))
    if isinstance(v, (AList, tuple, range)):
        return seq_array(I, list(I.iterate(v)), v)
    if isinstance(v, (str, OpaqueStr)):
        return plain(T.fn('str', v if isinstance(v, str) else 'numeric'), (), ST)
    if v is not None and not isinstance(v, (ADict, ASet, AClass, AFunc, NativeFn)):
        m = I.special(v, '__array__') if isinstance(v, Obj) else MISSING
        if m is not MISSING:
            return as_array(I, I.call(m, []))
    a = plain(T.fn('object', id(v)), (), OB)
    a.buf.elems = v
    return a


def seq_array(I, items, src):
    if not items:
        return plain(T.fn('empty'), (0,), F8)
    parts = []
    for x in items:
        if isinstance(x, AArr) and x is not None:
            parts.append((val(x), shape_of(x), x.dtype, False))
        else:
            a = as_array(I, x)
            parts.append((val(a), a.shape, a.dtype, is_pynum(x)))
    shapes = [p[1] for p in parts]
    s0 = shapes[0]
    for s in shapes[1:]:
        if len(s) != len(s0):
            raise I.exc('ValueError', 'setting an array element with a sequence. The requested array has an '
                                      'inhomogeneous shape')
        for d, e in zip(s, s0):
            if d != e and not (isinstance(d, T.Term) or isinstance(e, T.Term)):
                raise I.exc('ValueError', 'setting an array element with a sequence (inhomogeneous shape)')
            if d != e and not paths.truth(T.fn('eq', dterm(d), dterm(e))):
                raise I.exc('ValueError', 'setting an array element with a sequence (inhomogeneous shape)')
    dt = parts[0][2]
    for p in parts[1:]:
        dt = promote2(dt, p[2])
    t = T.fn('arr', *[p[0] for p in parts])
    return plain(t, (len(parts),) + tuple(s0), dt)


def base_array(I, v, dtype=None, copy=None):
    """np.asarray"""
    if isinstance(v, AArr) and not is_generic(v):
        dt = v.dtype if dtype is None else dtype
        if dt is not v.dtype or copy is True:
            return laid(plain(cast_t(val(v), v.dtype, dt), shape_of(v), dt), v)
        if v.cls is NDARRAY:
            return v
        return mkview(I, v, NDARRAY)
    a = as_array(I, v)
    dt = a.dtype if dtype is None else dtype
    if dtype is not None and a.dtype.kind in 'OUS' and dt.kind not in 'OUS':
        raise I.exc('TypeError' if a.dtype.kind == 'O' else 'ValueError', 'could not convert to number')
    r = plain(cast_t(val(a), a.dtype, dt), a.shape, dt)
    r.buf.elems = a.buf.elems
    return r


def any_array(I, v, dtype=None, copy=None):
    """np.asanyarray"""
    if isinstance(v, AArr) and not is_generic(v):
        dt = v.dtype if dtype is None else dtype
        if dt is v.dtype and copy is not True:
            return v
        return laid(mkcopy(I, v, cast_t(val(v), v.dtype, dt), None, dt), v)
    return base_array(I, v, dtype)


# ------------------------------------------------------------------ numbers
def as_number(I, v):
    """SNum of a number-like value, else None"""
    if isinstance(v, SNum):
        return v
    if isinstance(v, (bool, int)):
        return SNum(T.const(int(v)), 'bool' if isinstance(v, bool) else 'int')
    if isinstance(v, AArr):
        for n in ('__float__',):
            m = v.cls.lookup(n)
            if isinstance(m, AFunc):
                return as_number(I, I.call(BoundMethod(m, v), []))
        return elem_number(I, v)
    if isinstance(v, Obj):
        m = I.special(v, '__float__')
        if m is not MISSING:
            return as_number(I, I.call(m, []))
    return None


def need_one(I, v, exc='TypeError'):
    s = shape_of(v)
    c = count(s)
    if T.is_const_eq(c, 1):
        return
    if c.op == 'const' or not paths.truth(T.fn('eq', c, T.ONE)):
        raise I.exc(exc, 'only length-1 arrays can be converted to Python scalars')


def elem_number(I, v):
    need_one(I, v)
    if v.dtype.kind in 'OUS':
        if is_pynum(v.buf.elems):
            return as_number(I, v.buf.elems)
        raise I.exc('TypeError', 'float() argument must be a number')
    t = val(v)
    return SNum(item_t(t, v), {'b': 'bool', 'i': 'int', 'u': 'int', 'f': 'float', 'c': 'complex'}[v.dtype.kind])


def item_t(t, v):
    """the element of a one-element array"""
    for _ in v.shape:
        t = select(t, ('sel', (('i', 0),)))
    return t


def as_index(I, v):
    if v.dtype.kind not in 'iub':
        raise I.exc('TypeError', 'only integer scalar arrays can be converted to a scalar index')
    if shape_of(v):
        raise I.exc('TypeError', 'only integer scalar arrays can be converted to a scalar index')
    t = facts.norm(val(v))
    if t.op == 'const':
        return int(t.args[0])
    return SNum(t, 'int')


def is_scalar_cls(c):
    return GENERIC in c.mro


# ------------------------------------------------------------- broadcasting
def broadcast(I, shapes):
    out = []
    n = max([len(s) for s in shapes] or [0])
    for i in range(n):
        d = 1
        for s in shapes:
            j = i - (n - len(s))
            if j < 0:
                continue
            e = dim(s[j])
            if e == 1 or e == d:
                continue
            if d == 1:
                d = e
                continue
            if isinstance(d, int) and isinstance(e, int):
                raise I.exc('ValueError', 'operands could not be broadcast together')
            if paths.truth(T.fn('eq', dterm(d), dterm(e))):
                continue
            if isinstance(e, T.Term) and paths.truth(T.fn('eq', e, T.ONE)):
                continue
            if isinstance(d, T.Term) and paths.truth(T.fn('eq', d, T.ONE)):
                d = e
                continue
            raise I.exc('ValueError', 'operands could not be broadcast together')
        out.append(d)
    return tuple(out)


# ------------------------------------------------------------------- ufuncs
_COMM = {'maximum', 'minimum', 'fmax', 'fmin', 'logaddexp', 'logaddexp2', 'hypot'}


def _strict_pos(t):
    return paths.strictly_positive(t)


def ufunc_term(name, a):
    x = a[0]
    y = a[1] if len(a) > 1 else None
    inf = any(t.op == 'inf' for t in a)
    if name == 'add':
        return (B._inf2('add', x, y) if inf else None) or T.add(x, y)
    if name == 'subtract':
        return (B._inf2('sub', x, y) if inf else None) or T.sub(x, y)
    if name == 'multiply':
        if inf:
            if x.op == 'inf' and _strict_pos(y):
                return x
            if y.op == 'inf' and _strict_pos(x):
                return y
            return B._inf2('mul', x, y) or T.mul(x, y)
        return T.mul(x, y)
    if name in ('divide', 'true_divide'):
        if x.op == 'inf' and _strict_pos(y):
            return x
        return (B._inf2('div', x, y) if inf else None) or T.div(x, y)
    if name in ('power', 'float_power', 'pow'):
        return T.power(x, y)
    if name == 'square':
        return T.power(x, T.TWO)
    if name == 'sqrt':
        return T.power(x, T.HALF)
    if name == 'cbrt':
        return T.power(x, T.const(T.Fraction(1, 3)))
    if name == 'reciprocal':
        return T.inv(x)
    if name == 'negative':
        if x.op == 'inf' and x.args[0] in ('inf', '-inf', 'nan'):
            return T.const(-float(x.args[0]))
        return T.neg(x)
    if name in ('positive',):
        return x
    if name in ('absolute', 'fabs'):
        return T.absolute(x)
    if name in ('remainder', 'mod'):
        return B.mod_t(x, y)
    if name == 'fmod':
        s, r = T.positive_factor(y)
        return T.mul(s, T.fn('fmod', T.div(x, s), r))
    if name == 'floor_divide':
        return B.floordiv_t(x, y)
    if name in ('degrees', 'rad2deg'):
        return T.mul(x, T.const(180 / T.Fraction(repr(math.pi))))
    if name in ('radians', 'deg2rad'):
        return T.mul(x, T.const(T.Fraction(repr(math.pi)) / 180))
    if name == 'hypot':
        return T.power(T.add(T.power(x, T.TWO), T.power(y, T.TWO)), T.HALF)
    if name in ('maximum', 'minimum', 'fmax', 'fmin'):
        if x is y:
            return x
        big = name in ('maximum', 'fmax')
        for p, q in ((x, y), (y, x)):
            if p.op == 'inf' and p.args[0] in ('inf', '-inf'):
                return p if (p.args[0] == 'inf') == big else q
        if x.op == 'const' and y.op == 'const':
            return max(x, y, key=lambda t: t.args[0]) if big else min(x, y, key=lambda t: t.args[0])
        s, _ = T.positive_factor(x)
        if s.op == 'const':
            s, _ = T.positive_factor(y)
        x, y = T.div(x, s), T.div(y, s)
        if y.h < x.h:
            x, y = y, x
        return T.mul(s, T.fn('maximum' if big else 'minimum', x, y))
    if name == 'clip':
        return ufunc_term('minimum', [ufunc_term('maximum', [x, y]), a[2]])
    if name in ('equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal'):
        op = {'equal': 'eq', 'not_equal': 'ne', 'less': 'lt', 'less_equal': 'le', 'greater': 'gt',
              'greater_equal': 'ge'}[name]
        if inf:
            p = B.cmp_pred('eq' if op == 'ne' else op, x, y)
            r = paths._decide(p)
            if r is None:
                return T.fn('not', p) if op == 'ne' else p
            return T.ONE if r != (op == 'ne') else T.ZERO
        return _fold(B.cmp_pred(op, x, y))
    if name in ('logical_not',):
        return _not(_truth_term(x))
    if name == 'invert':
        return _not(x)
    if name in ('logical_and', 'bitwise_and'):
        x, y = _truth_term(x), _truth_term(y)
        if x is T.ZERO or y is T.ZERO:
            return T.ZERO
        if x is T.ONE:
            return y
        if y is T.ONE:
            return x
        return T.fn('and', x, y)
    if name in ('logical_or', 'bitwise_or'):
        x, y = _truth_term(x), _truth_term(y)
        if x is T.ONE or y is T.ONE:
            return T.ONE
        if x is T.ZERO:
            return y
        if y is T.ZERO:
            return x
        return T.fn('or', x, y)
    if name in ('isnan', 'isinf', 'isfinite'):
        if x.op == 'inf':
            return T.ONE if {'isnan': x.args[0] == 'nan', 'isinf': x.args[0] in ('inf', '-inf'),
                             'isfinite': False}[name] else T.ZERO
        if T.is_scalar(x) and x.op in ('const', 'sym'):
            return T.ONE if name == 'isfinite' else T.ZERO
        s, r = T.scalar_factor(x, True)
        if r.op == 'fn' and r.args[0] == 'arr':
            els = [fold_isnan(name, e) for e in r.args[1:]]
            if all(e is not None for e in els):
                return els[0] if len(set(els)) == 1 else T.fn('arr', *els)
        return T.fn(name, r)
    if name == '_ones_like':
        return T.ONE
    if name in ('floor', 'ceil', 'trunc', 'rint', 'fix'):
        if is_int_term(x):
            return x
        if x.op == 'const':
            v = x.args[0]
            return T.const({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'fix': math.trunc,
                            'rint': round}[name](v))
        return T.fn('trunc' if name == 'fix' else 'round' if name == 'rint' else name, x,
                    *([T.ZERO] if name == 'rint' else []))
    if name in ('conjugate', 'conj'):
        return x
    if name == 'sign' and _strict_pos(x):
        return T.ONE
    if name in ('exp', 'cos', 'cosh', 'exp2') and x is T.ZERO:
        return T.ONE
    if name in ('log', 'log2', 'log10') and x is T.ONE:
        return T.ZERO
    if name == 'arctan2':
        # only the ratio matters for positive factors
        s, _ = T.scalar_factor(y)
        return T.fn('arctan2', T.div(x, s), T.div(y, s))
    return T.fn(name, *a)


def fold_isnan(name, e):
    if e.op == 'inf':
        return T.ONE if {'isnan': e.args[0] == 'nan', 'isinf': e.args[0] in ('inf', '-inf'),
                         'isfinite': False}[name] else T.ZERO
    if T.is_scalar(e) and e.op in ('const', 'sym'):
        return T.ONE if name == 'isfinite' else T.ZERO
    if T.is_scalar(e) and e.op in ('mul', 'add', 'pow') and not any(x.op not in ('const', 'sym') for x in leaves(e)):
        return T.ONE if name == 'isfinite' else T.ZERO
    return None


def leaves(t):
    if t.op in ('mul', 'add', 'pow'):
        for x in t.args:
            if isinstance(x, T.Term):
                yield from leaves(x)
    elif t.op == 'fn' and t.args[0] == 'abs':
        yield from leaves(t.args[1])
    else:
        yield t


def _not(p):
    if p.op == 'const':
        return T.ZERO if p.args[0] else T.ONE
    if p.op == 'fn' and p.args[0] == 'arr' and all(e.op == 'const' for e in p.args[1:]):
        return T.fn('arr', *[_not(e) for e in p.args[1:]])
    if p.op == 'fn' and p.args[0] == 'not':
        return p.args[1]
    return T.fn('not', p)


_PREDS = {'eq', 'lt', 'le', 'not', 'and', 'or', 'any', 'all', 'isnan', 'isinf', 'isfinite'}


def _truth_term(t):
    if t.op == 'fn' and t.args[0] in _PREDS or t.op == 'const':
        return t if t.op == 'fn' else (T.ONE if t.args[0] else T.ZERO)
    return _fold(T.fn('not', T.fn('eq', t, T.ZERO)))


_BOOLOUT = {'equal', 'not_equal', 'less', 'less_equal', 'greater', 'greater_equal', 'logical_and', 'logical_or',
            'logical_not', 'logical_xor', 'isnan', 'isinf', 'isfinite', 'isnat', 'signbit'}
_FLOATOUT = {'sqrt', 'cbrt', 'exp', 'exp2', 'expm1', 'log', 'log2', 'log10', 'log1p', 'sin', 'cos', 'tan', 'arcsin',
             'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arccosh', 'arctanh', 'degrees', 'radians',
             'deg2rad', 'rad2deg', 'hypot', 'arctan2', 'logaddexp', 'logaddexp2', 'divide', 'true_divide', 'fabs',
             'spacing', 'nextafter', 'copysign', 'float_power', 'rint', 'ldexp', 'heaviside', 'frexp', 'modf'}


def ufunc_dtype(name, items):
    if name in _BOOLOUT:
        return BL
    r = result_dtype(items)
    if name in _FLOATOUT and r.kind in 'biu':
        r = F8 if r.size >= 4 or r.kind == 'b' else {1: DT['float16'], 2: F4}[r.size]
    if name == 'absolute' and r.kind == 'c':
        return F8
    if name in ('power', 'square') and r.kind == 'b':
        return DT['int8']
    return r


class UFunc:
    native_type = UFUNC

    def __init__(self, name, nin, nout):
        self.name = name
        self.nin = nin
        self.nout = nout

    def __repr__(self):
        return '<ufunc %s>' % self.name

    def native_getattr(self, I, name):
        if name == '__name__' or name == '__qualname__':
            return self.name
        if name in ('nin', 'nout'):
            return getattr(self, name)
        if name == 'nargs':
            return self.nin + self.nout
        if name == '__doc__':
            return OpaqueStr()
        if name == '__class__':
            return UFUNC
        if name == '__call__':
            return NativeFn('__call__', lambda I, *a, **k: self.native_call(I, list(a), k), bind=False)
        if name == 'reduce':
            return NativeFn('reduce', lambda I, *a, **k: ufunc_reduce(I, self, *a, **k), bind=False)
        if name == 'identity':
            return {'add': 0, 'multiply': 1}.get(self.name)
        if name == 'outer' and self.nin == 2:
            return NativeFn('outer', lambda I, a, b, **k: ufunc_outer(I, self, a, b, k), bind=False)
        if name == 'accumulate' and self.name in ('add', 'multiply'):
            return NativeFn('accumulate', lambda I, a, axis=0, dtype=None, out=None: ufunc_accumulate(I, self, a, axis, dtype, out), bind=False)
        if name in ('accumulate', 'outer', 'at', 'reduceat', 'types', 'ntypes', 'signature', 'resolve_dtypes'):
            def bad(I, *a, **k):
                raise Undecided('ufunc.%s' % name)
            return NativeFn(name, bad, bind=False)
        if name == '__module__':
            return 'numpy'
        raise I.exc('AttributeError', "'numpy.ufunc' object has no attribute %r" % name)

    def native_call(self, I, args, kwargs):
        return ufunc_call(I, self, args, dict(kwargs))


def ufunc_outer(I, uf, a, b, kw):
    if any(isinstance(x, (AArr, Obj)) and not (isinstance(x, AArr) and (x.cls is NDARRAY or is_generic(x))) for x in (a, b)):
        raise Undecided('ufunc.outer on an array subclass')
    a, b = as_array(I, a), as_array(I, b)
    x = mkview(I, a, NDARRAY, sel=('outer', len(shape_of(b))) if len(shape_of(a)) and len(shape_of(b)) else None,
               shape=shape_of(a) + (1,) * len(shape_of(b))) if not is_generic(a) else a
    if len(shape_of(a)) == 1 and len(shape_of(b)) == 1:
        x = I.call(I.getattr(a, 'reshape'), [(-1, 1)])
    return ufunc_call(I, uf, [x, b], kw)


def ufunc_accumulate(I, uf, a, axis, dtype, out):
    if isinstance(a, (AArr, Obj)) and not (isinstance(a, AArr) and a.cls is NDARRAY):
        raise Undecided('ufunc.accumulate on an array subclass')
    a = as_array(I, a)
    if not shape_of(a):
        raise I.exc('TypeError', 'cannot accumulate on a scalar')
    return I.call(I.getattr(a, {'add': 'cumsum', 'multiply': 'cumprod'}[uf.name]), [],
                  {'axis': axis, 'dtype': dtype, 'out': out})


def _over(I, v):
    if not isinstance(v, (AArr, Obj)):
        return None
    m = B.type_of(v).lookup('__array_ufunc__')
    return m if isinstance(m, AFunc) or m is None else None


def ufunc_call(I, uf, args, kwargs, override=True):
    if len(args) < uf.nin or len(args) > uf.nin + uf.nout:
        raise I.exc('TypeError', '%s() takes from %d to %d positional arguments but %d were given'
                    % (uf.name, uf.nin, uf.nin + uf.nout, len(args)))
    ins = args[:uf.nin]
    outs = list(args[uf.nin:])
    if 'out' in kwargs:
        if outs:
            raise I.exc('TypeError', 'cannot specify out in both positional and keyword')
        o = kwargs.pop('out')
        outs = list(o) if isinstance(o, tuple) else [o]
        if len(outs) != uf.nout:
            raise I.exc('ValueError', "The 'out' tuple must have exactly %d entries" % uf.nout)
    outs = outs + [None] * (uf.nout - len(outs))
    given = any(o is not None for o in outs)
    if override:
        done = []
        for v in ins + [o for o in outs if o is not None]:
            m = _over(I, v)
            if isinstance(m, AFunc):
                c = B.type_of(v)
                if c not in [B.type_of(x) for x in done]:
                    done.append(v)
        done.sort(key=lambda v: -len(B.type_of(v).mro))
        for v in done:
            kw = dict(kwargs)
            if given:
                kw['out'] = tuple(outs)
            r = I.call(I.bind(B.type_of(v).lookup('__array_ufunc__'), v, B.type_of(v)),
                       [uf, '__call__'] + ins, kw)
            if r is not NotImplemented:
                return r
        if done:
            raise I.exc('TypeError', 'operand type(s) all returned NotImplemented')
    casting = kwargs.pop('casting', 'same_kind')
    for k in ('where', 'dtype', 'subok', 'order', 'sig', 'signature', 'extobj'):
        if k in kwargs:
            v = kwargs.pop(k)
            if k == 'where' and v is not True or k == 'dtype' and v is not None or k == 'subok' and v is not True:
                raise Undecided('ufunc argument %s' % k)
    if kwargs:
        raise I.exc('TypeError', '%s() got an unexpected keyword argument %r' % (uf.name, list(kwargs)[0]))
    arrs = []
    items = []
    for v in ins:
        a = as_array(I, v)
        if a.dtype.kind in 'OUS':
            x = a.buf.elems
            if isinstance(x, Obj):
                if x.cls.lookup('__rmul__') is not MISSING or x.cls.lookup('__radd__') is not MISSING:
                    raise Undecided('ufunc on objects')
            if a.dtype.kind == 'O' and uf.name in ('equal', 'not_equal'):
                return ret0(T.ZERO if uf.name == 'equal' else T.ONE,
                            broadcast(I, [shape_of(as_array(I, w)) for w in ins]), BL)
            raise I.exc('TypeError', 'ufunc %r not supported for the input types' % uf.name)
        arrs.append(a)
        items.append((a.dtype, is_pynum(v)))
    for o in outs:
        if o is not None and not (isinstance(o, AArr) and not is_generic(o)):
            raise I.exc('TypeError', 'return arrays must be of ArrayType')
    shapes = [shape_of(a) for a in arrs]
    if uf.name in ('matmul', 'vecdot', 'matvec'):
        shape = tuple(s for s in shapes[0][:-1]) + tuple(s for s in shapes[1][1:])
    else:
        shape = broadcast(I, shapes)
    for o in outs:
        if o is not None:
            so = shape_of(o)
            if len(so) < len(shape):
                raise I.exc('ValueError', "non-broadcastable output operand")
            for d, e in zip(so[len(so) - len(shape):], shape):
                if d != e and (isinstance(d, int) and isinstance(e, int) or
                               not paths.truth(T.fn('eq', dterm(d), dterm(e)))):
                    if e != 1:
                        raise I.exc('ValueError', "non-broadcastable output operand")
            shape = so
    if uf.name == 'isnat':
        raise I.exc('TypeError', "ufunc 'isnat' is only defined for np.datetime64 and np.timedelta64.")
    dt = ufunc_dtype(uf.name, items)
    if uf.name == 'power' and dt.kind in 'iu':
        e = val(arrs[1])
        neg = e.op == 'const' and e.args[0] < 0
        if not neg and e.op != 'const' and not T.nonneg(e):
            neg = paths.truth(T.fn('any', T.fn('lt', e, T.ZERO)) if not T.is_scalar(e) else T.fn('lt', e, T.ZERO))
        if neg:
            raise I.exc('ValueError', 'Integers to negative integer powers are not allowed.')
    if dt.kind == 'c' and uf.name in ('maximum', 'floor', 'ceil', 'remainder', 'floor_divide', 'arctan2', 'hypot',
                                     'fmod', 'degrees', 'radians', 'deg2rad', 'rad2deg'):
        if uf.name not in ('maximum',):
            raise I.exc('TypeError', 'ufunc not supported for complex')
    ts = [val(a) for a in arrs]
    if uf.nout == 1:
        if dt.kind == 'c' and uf.name in ('conjugate',):
            t = linear('conj', ts[0])
            res = [t if not (t.op == 'fn' and t.args[1].op == 'fn' and t.args[1].args[0] == 'conj') else t.args[1].args[1]]
        elif dt.kind in 'iu' and uf.name in ('invert', 'bitwise_and', 'bitwise_or', 'bitwise_xor'):
            res = [T.fn(uf.name, *ts)]
        else:
            res = [ufunc_term(uf.name, ts)]
    elif uf.name == 'divmod':
        res = [B.floordiv_t(*ts), B.mod_t(*ts)]
    else:
        res = [T.fn('%s#%d' % (uf.name, i), *ts) for i in range(uf.nout)]
    for o in outs:
        if o is not None:
            if not o.writeable:
                raise I.exc('ValueError', 'output array is read-only')
            if not can_cast(dt, o.dtype, casting):
                raise I.exc(UFUNC_TYPE_ERROR, "Cannot cast ufunc %r output from %s to %s" % (uf.name, dt.name, o.dtype.name))
    objs = []
    for o, t in zip(outs, res):
        if o is not None:
            write(I, o, cast_t(t, dt, o.dtype))
            objs.append(o)
        else:
            x = plain(t, shape, dt)
            ls = {layout(a) for a in arrs if len(a.shape) > 1 and a.shape == x.shape and not is_generic(a)} - {'C'}
            if ls:
                full_ = [a for a in arrs if len(shape_of(a)) > 0]
                x.buf.layout = min(ls) if ls == {"F"} and all(layout(a) == "F" for a in full_) else fresh_dim().args[0]
            objs.append(x)
    # ---- wrapping
    wrap, wrapper, pri = None, None, None
    for v in ins:
        if isinstance(v, AArr) and v.cls is NDARRAY:
            p, w = 0, None
        elif is_pynum(v) or isinstance(v, AArr) and is_generic(v):
            p, w = -1000000, None
        elif isinstance(v, (AArr, Obj)):
            m = I.special(v, '__array_wrap__')
            if m is MISSING:
                continue
            p = I.getattr(v, '__array_priority__', 0)
            p = as_number(I, p).t
            if p.op != 'const':
                raise Undecided('array priority')
            p = p.args[0]
            w = m
        else:
            continue
        if pri is None or p > pri:
            pri, wrap, wrapper = p, w, v
    full = tuple(ins) + (tuple(outs) if given else ())
    r = []
    for i, (o, obj) in enumerate(zip(outs, objs)):
        if o is not None:
            if o.cls is NDARRAY:
                r.append(o)
            else:
                r.append(I.call(I.special(o, '__array_wrap__'), [o, (uf, full, i), False]))
        elif wrap is None:
            r.append(obj if obj.shape and not obj.path else ret0(val(obj), obj.shape, obj.dtype))
        else:
            r.append(I.call(wrap, [obj, (uf, full, i), not shape]))
    return r[0] if len(r) == 1 else tuple(r)


UFUNC_TYPE_ERROR = AClass('UFuncTypeError', (B.EXC['TypeError'],), {}, module='numpy')
AXIS_ERROR = AClass('AxisError', (B.EXC['ValueError'], B.EXC['IndexError']), {}, module='numpy')


def array_wrap(I, self, arr, context=None, return_scalar=False):
    if return_scalar and self.cls is NDARRAY and not shape_of(arr):
        return scalar(val(arr), arr.dtype)
    if arr.cls is not self.cls:
        v = AArr(self.cls, arr.buf, shape_of(arr), arr.dtype, None, arr.path, arr.writeable, owns=False)
        set_base(v, arr)
        return finalize(I, v, self)
    return arr


def simple_wrap(I, self, arr):
    """result of a reduction over self"""
    if self.cls is NDARRAY or is_generic(self):
        return ret0(val(arr), shape_of(arr), arr.dtype)
    return I.call(I.special(self, '__array_wrap__'), [arr, None, not arr.shape])


# --------------------------------------------------------------- reductions
def norm_axis(I, axis, nd):
    """None or tuple of axes"""
    if axis is None:
        return None
    if isinstance(axis, (tuple, AList)):
        ax = [B.concrete_index(I, x) for x in I.iterate(axis)]
    else:
        ax = [B.concrete_index(I, axis)]
    out = []
    for x in ax:
        if nd == 0 and x in (0, -1) and not isinstance(axis, (tuple, AList)):
            return None
        if not -nd <= x < nd:
            raise I.exc(AXIS_ERROR, 'axis %d is out of bounds for array of dimension %d' % (x, nd))
        out.append(x % nd)
    return tuple(sorted(out))


def reduce_plan(I, a, axis, keepdims=False):
    s = shape_of(a)
    ax = norm_axis(I, axis, len(s))
    if ax is None:
        ax = tuple(range(len(s)))
    n = count([s[i] for i in ax])
    if keepdims:
        shape = tuple(1 if i in ax else d for i, d in enumerate(s))
    else:
        shape = tuple(d for i, d in enumerate(s) if i not in ax)
    key = 'all' if len(ax) == len(s) else ax
    return ax, key, n, shape


def _strip_nn(t):
    if t.op == 'fn':
        if t.args[0] == 'nn':
            return t.args[1]
        return t
    if t.op in ('mul', 'add', 'pow'):
        a = [_strip_nn(x) for x in t.args]
        return {'add': T.add, 'mul': T.mul, 'pow': T.power}[t.op](*a)
    return t


def reduce_t(name, t, key, n, ddof=T.ZERO):
    """term of a reduction over axes (key), n elements each"""
    if name in ('nansum', 'nanmean', 'nanvar'):
        t = _strip_nn(t)
    if name in ('sum', 'nansum'):
        if T.is_scalar(t):
            return T.mul(t, n)
        els = _elements(t, key)
        if els is not None and (name == 'sum' or not any(x.op not in ('const', 'sym', 'inf') for e in els
                                                         for x in leaves(e))):
            return T.add(T.ZERO, *[e for e in els if name == 'sum' or not (
                e.op == 'inf' and e.args[0] == 'nan')])
        return linear(name, t, key)
    if name == 'mean':
        if T.is_scalar(t):
            return t
        return T.div(reduce_t('sum', t, key, n), n)
    if name == 'nanmean':
        if T.is_scalar(t):
            return t
        return linear(name, t, key)
    if name in ('max', 'min', 'nanmax', 'nanmin'):
        return extremum(name, t, key)
    if name == 'prod':
        if T.is_scalar(t):
            return T.power(t, n)
        els = _elements(t, key)
        if els is not None:
            return T.mul(*els)
        s, r = T.scalar_factor(t, True)
        p = T.fn('prod', r, key)
        return p if s is T.ONE else T.mul(T.power(s, n), p)
    if name in ('var', 'nanvar'):
        if T.is_scalar(t):
            return T.ZERO
        s, r = T.scalar_factor(t, True)
        return T.mul(T.power(s, T.TWO), T.fn(name, r, key, ddof))
    if name == 'ptp':
        return T.sub(extremum('max', t, key), extremum('min', t, key))
    if name in _ARG:
        if T.is_scalar(t):
            return T.ZERO
        els = _constants(t) if key == 'all' else None
        if els:
            return T.const(els.index((min if name in ('argmin', 'nanargmin') else max)(els)))
        c, r0 = T.split_coeff(t)
        if c < 0:
            flip = {'argmax': 'argmin', 'argmin': 'argmax', 'nanargmax': 'nanargmin', 'nanargmin': 'nanargmax'}[name]
            return T.fn(flip, T.scalar_factor(T.neg(t))[1], key)
        return T.fn(name, T.scalar_factor(t)[1], key)
    if name in ('any', 'all'):
        q = _truth_term(t)
        if q.op == 'const':
            return q
        els = _constants(q) if key == 'all' else None
        if els:
            return T.ONE if (any if name == 'any' else all)(els) else T.ZERO
        return T.fn(name, q) if key == 'all' else T.fn(name, q, key)
    raise Undecided('reduction %s' % name)


def _length(t):
    """the number of elements of a vector built from known elements"""
    if t.op == 'fn':
        if t.args[0] == 'arr':
            return len(t.args) - 1
        l = t.args[1:] if t.args[0] in ELEMENTWISE else ()
    else:
        l = t.args if t.op in ('add', 'mul', 'pow') else ()
    for x in l:
        if isinstance(x, T.Term) and not T.is_scalar(x):
            return _length(x)
    return 0


def _elements(t, key):
    if key != 'all':
        return None
    els = [element(t, i) for i in range(_length(t))]
    if not els or any(e is None or e.op == 'fn' and e.args[0] == 'arr' or not T.is_scalar(e) for e in els):
        return None
    return els


def _rdtype(name, dt, dtype):
    if dtype is not None:
        return dtype
    if name in ('sum', 'nansum', 'prod') and dt.kind in 'biu':
        return DT['uint64'] if dt.kind == 'u' else I8
    if name in ('mean', 'nanmean', 'var', 'std', 'nanvar', 'nanstd'):
        if dt.kind in 'biu':
            return F8
        if name in ('var', 'std', 'nanvar', 'nanstd') and dt.kind == 'c':
            return F8
    if name in _ARG:
        return I8
    if name in ('any', 'all'):
        return BL
    return dt


def put_out(I, out, t, dt, shape):
    if not (isinstance(out, AArr) and not is_generic(out)):
        raise I.exc('TypeError', 'output must be an array')
    so = shape_of(out)
    if len(so) != len(shape):
        raise I.exc('ValueError', 'output parameter has the wrong number of dimensions')
    for d, e in zip(so, shape):
        if d != e and not (isinstance(d, T.Term) or isinstance(e, T.Term)):
            raise I.exc('ValueError', 'output array has wrong dimensions')
        if d != e and not paths.truth(T.fn('eq', dterm(d), dterm(e))):
            raise I.exc('ValueError', 'output array has wrong dimensions')
    if not out.writeable:
        raise I.exc('ValueError', 'output array is read-only')
    if not can_cast(dt, out.dtype):
        raise I.exc(UFUNC_TYPE_ERROR, 'Cannot cast output from %s to %s' % (dt.name, out.dtype.name))
    write(I, out, cast_t(t, dt, out.dtype))
    return out


def reduction(I, name, a, axis=None, dtype=None, out=None, keepdims=False, ddof=0, plainonly=False):
    if a.dtype.kind in 'OUS':
        raise I.exc('TypeError', 'cannot perform reduce with flexible type')
    dtype = None if dtype is None else to_dtype(I, dtype)
    ax, key, n, shape = reduce_plan(I, a, axis, I.truth(keepdims))
    if name in ('mean', 'var', 'std') and axis is not None and axis != () and not shape_of(a):
        raise I.exc(AXIS_ERROR, 'axis out of bounds')
    t = val(a)
    base = name
    if name in ('std', 'nanstd'):
        base = {'std': 'var', 'nanstd': 'nanvar'}[name]
    if name in ('max', 'min', 'argmax', 'argmin', 'ptp') and T.is_const_eq(n, 0):
        raise I.exc('ValueError', 'zero-size array to reduction operation which has no identity')
    r = reduce_t(base, t, key, n, B.term_of(ddof) if is_pynum(ddof) else as_number(I, ddof).t)
    if name != base:
        r = T.power(r, T.HALF)
    dt = _rdtype(name, a.dtype, dtype)
    if dtype is not None and dtype.kind in 'iu' and a.dtype.kind in 'fc':
        r = trunc_t(r)
    if out is not None:
        return put_out(I, out, r, dt, shape)
    res = plain(r, shape, dt)
    if a.cls is NDARRAY or is_generic(a):
        return ret0(r, shape, dt)
    if plainonly:
        raise Undecided('%s on an array subclass' % name)
    return simple_wrap(I, a, res)


def ufunc_reduce(I, uf, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
    name = {'add': 'sum', 'multiply': 'prod', 'maximum': 'max', 'minimum': 'min', 'fmax': 'nanmax', 'fmin': 'nanmin',
            'logical_and': 'all', 'logical_or': 'any'}.get(uf.name)
    if name is None or initial is not None or where is not True:
        raise Undecided('%s.reduce' % uf.name)
    a = as_array(I, a)
    if out is not None and isinstance(out, tuple):
        out = out[0]
    if out is not None:
        r = reduction(I, name, mkview(I, a, NDARRAY) if a.cls is not NDARRAY else a, axis, dtype,
                      out, keepdims)
        if out.cls is not NDARRAY:
            return I.call(I.special(out, '__array_wrap__'), [out, None, False])
        return r
    return reduction(I, name, a, axis, dtype, None, keepdims)


# ---------------------------------------------------------------- indexing
def parse_index(I, a, key):
    """(kind, selection, shape): kind 'scalar', 'view', 'copy' or 'same'"""
    shape = shape_of(a)
    items = list(key) if isinstance(key, tuple) else [key]
    conv = []
    for k in items:
        if isinstance(k, (AList, range)):
            k = seq_array(I, list(I.iterate(k)), k)
            if T.is_const_eq(count(k.shape), 0):
                k = plain(val(k), k.shape, I8)
        if isinstance(k, AArr) and not shape_of(k) and k.dtype.kind in 'iu':
            k = as_index(I, k)
        elif isinstance(k, AArr) and k.dtype.kind in 'fcOUS':
            raise I.exc('IndexError', 'arrays used as indices must be of integer (or boolean) type')
        elif isinstance(k, SNum) and k.kind in ('float', 'complex') or isinstance(k, str):
            raise I.exc('IndexError', 'only integers, slices, ellipsis, numpy.newaxis and integer or boolean '
                                      'arrays are valid indices')
        elif isinstance(k, Obj):
            m = I.special(k, '__index__')
            if m is MISSING:
                raise I.exc('IndexError', 'only integers, slices, ... are valid indices')
            k = I.call(m, [])
        conv.append(k)

    def consumes(k):
        if k is None or k is Ellipsis:
            return 0
        if isinstance(k, bool):
            return 0
        if isinstance(k, AArr) and k.dtype.kind == 'b':
            return len(k.shape)
        return 1
    used = sum(consumes(k) for k in conv)
    if used > len(shape):
        raise I.exc('IndexError', 'too many indices for array: array is %d-dimensional, but %d were indexed'
                    % (len(shape), used))
    if not any(k is Ellipsis for k in conv):
        conv.append(Ellipsis)
        implicit = True
    else:
        implicit = False
    out, nshape, entries = [], [], []
    pos = 0
    adv = []
    ints = 0
    advpos = None
    for k in conv:
        if k is Ellipsis:
            for _ in range(len(shape) - used):
                entries.append(('full',))
                nshape.append(shape[pos])
                pos += 1
            continue
        if k is None:
            entries.append(('new',))
            nshape.append(1)
            continue
        if isinstance(k, bool) or isinstance(k, SNum) and k.kind == 'bool':
            raise Undecided('boolean scalar index')
        d = shape[pos] if pos < len(shape) else None
        if isinstance(k, (int, SNum)):
            if isinstance(k, int):
                if isinstance(d, int):
                    if not -d <= k < d:
                        raise I.exc('IndexError', 'index %d is out of bounds for axis with size %d' % (k, d))
                    k %= d
                else:
                    ok = T.fn('lt', T.const(k), d) if k >= 0 else T.fn('le', T.const(-k), d)
                    if not paths.truth(ok):
                        raise I.exc('IndexError', 'index out of bounds')
                entries.append(('i', k))
            else:
                entries.append(('i', k.t))
            ints += 1
            pos += 1
            continue
        if isinstance(k, slice):
            e, nd = parse_slice(I, k, d)
            entries.append(e)
            nshape.append(nd)
            pos += 1
            continue
        if isinstance(k, AArr):
            if advpos is None:
                advpos = len(nshape)
            adv.append(k)
            if k.dtype.kind == 'b':
                for i, (x, y) in enumerate(zip(shape_of(k), shape[pos:])):
                    if x != y and isinstance(x, int) and isinstance(y, int):
                        raise I.exc('IndexError', 'boolean index did not match indexed array')
                entries.append(('mask', val(k)))
                pos += len(k.shape)
            else:
                entries.append(('arr', val(k)))
                pos += 1
            continue
        raise I.exc('IndexError', 'only integers, slices, ... are valid indices')
    while entries and entries[-1] == ('full',):
        entries.pop()
    sel = ('sel', tuple(entries))
    if adv:
        shs = []
        for k in adv:
            shs.append((fresh_dim('m', val(k)),) if k.dtype.kind == 'b' else shape_of(k))
        bs = broadcast(I, shs) if len(shs) > 1 else shs[0]
        nshape[advpos:advpos] = list(bs)
        return 'copy', sel, tuple(nshape)
    if not entries:
        if not shape and not isinstance(key, tuple) and key is not Ellipsis:
            pass
        if not shape and (implicit):
            return 'scalar', None, ()
        return 'same', None, tuple(nshape)
    if implicit and not nshape:
        return 'scalar', sel, ()
    return 'view', sel, tuple(nshape)


def parse_slice(I, k, d):
    def c(x):
        if x is None or isinstance(x, int):
            return x
        if isinstance(x, AArr):
            x = as_index(I, x)
        if isinstance(x, SNum) and x.kind == 'int':
            x = facts.norm(x.t)
            return int(x.args[0]) if x.op == 'const' else x
        return B.concrete_index(I, x)
    st, sp, step = c(k.start), c(k.stop), c(k.step)
    if step == 0:
        raise I.exc('ValueError', 'slice step cannot be zero')
    if isinstance(d, int) and all(not isinstance(x, T.Term) for x in (st, sp, step)):
        r = range(*slice(st, sp, step).indices(d))
        if r == range(d):
            return ('full',), d
        return ('sl', r.start, r.stop if step is None or step > 0 else sp, r.step, d), len(r)
    if step in (None, 1):
        step = None
        if st == 0:
            st = None
        if isinstance(sp, T.Term) and isinstance(d, T.Term) and paths.same(sp, d):
            sp = None
        if st is None and sp is None:
            return ('full',), d
        if isinstance(st, int) and st > 0 and sp is None:
            return ('sl', st, None, None), T.sub(dterm(d), T.const(st))
        if st is None and isinstance(sp, int) and sp < 0:
            return ('sl', None, sp, None), T.add(dterm(d), T.const(sp))
    elif step == -1 and st is None and sp is None:
        return ('sl', None, None, -1), d
    return ('sl', st, sp, step), fresh_dim('s', (st, sp, step, d))


def nd_getitem(I, a, key):
    if is_generic(a):
        if key in ((), Ellipsis):
            return a
        raise I.exc('IndexError', 'invalid index to scalar variable.')
    kind, sel, shape = parse_index(I, a, key)
    if kind == 'same':
        return mkview(I, a, shape=shape)
    if kind == 'view':
        return mkview(I, a, sel=sel, shape=shape)
    t = val(a) if sel is None else select(val(a), sel)
    if kind == 'scalar':
        return scalar(t, a.dtype)
    return mkcopy(I, a, t, shape)


def nd_setitem(I, a, key, value):
    if is_generic(a):
        raise I.exc('TypeError', 'object does not support item assignment')
    if not a.writeable:
        raise I.exc('ValueError', 'assignment destination is read-only')
    kind, sel, shape = parse_index(I, a, key)
    v = as_array(I, value)
    assign_check(I, v, a, shape)
    t = cast_t(val(v), v.dtype, a.dtype)
    if sel is None:
        write(I, a, t)
    else:
        a.buf.t = update(a.buf.t, a.path + (sel,), t)
        a.buf.writes += 1


def assign_check(I, v, a, shape):
    if v.dtype.kind in 'OUS' and a.dtype.kind not in 'OUS':
        raise I.exc('TypeError' if v.dtype.kind == 'O' else 'ValueError', 'could not convert value to float')
    vs = [d for d in shape_of(v)]
    if len(vs) > len(shape):
        if not all(d == 1 for d in vs[:len(vs) - len(shape)]):
            raise I.exc('ValueError', 'could not broadcast input array into shape')
        vs = vs[len(vs) - len(shape):]
    for d, e in zip(vs[::-1], list(shape)[::-1]):
        d, e = dim(d), dim(e)
        if d == e or d == 1:
            continue
        if isinstance(d, int) and isinstance(e, int):
            raise I.exc('ValueError', 'could not broadcast input array')
        if not paths.truth(T.fn('eq', dterm(d), dterm(e))):
            if isinstance(d, T.Term) and paths.truth(T.fn('eq', d, T.ONE)):
                continue
            raise I.exc('ValueError', 'could not broadcast input array')


class Flags:
    native_type = FLAGS

    def __init__(self, a):
        self.a = a

    def get(self, I, name):
        a = self.a
        n = name.lower()
        if n in ('writeable', 'w'):
            return a.writeable
        if n in ('owndata', 'o'):
            return a.owns
        if n in ('aligned', 'behaved'):
            return True
        if n in ('c_contiguous', 'contiguous', 'c', 'f_contiguous', 'fortran', 'f', 'fnc', 'forc', 'carray'):
            l = layout(a)
            flat = sum(1 for d in shape_of(a) if d != 1) <= 1
            if not isinstance(l, str):
                # a part of an array
                c, f = (False, False) if not flat else (True, True)
            else:
                c, f = l == 'C' or flat, l == 'F' or flat
            return {'f_contiguous': f, 'fortran': f, 'f': f, 'fnc': f and not c, 'forc': f or c}.get(n, c)
        raise Undecided('flag %s' % name)

    def native_getattr(self, I, name):
        if name == '__class__':
            return FLAGS
        if name in ('writeable', 'owndata', 'c_contiguous', 'contiguous', 'aligned', 'f_contiguous', 'behaved', 'fnc', 'forc', 'fortran', 'carray'):
            return self.get(I, name)
        raise I.exc('AttributeError', name)

    def native_setattr(self, I, name, v):
        if name != 'writeable':
            raise I.exc('AttributeError', name)
        set_writeable(I, self.a, v)


def set_writeable(I, a, v):
    v = I.truth(v)
    if v and not a.writeable and not a.owns:
        b = a.base
        while isinstance(b, AArr):
            if b.writeable:
                break
            if b.owns:
                # the owner of the data may be made writeable again
                raise I.exc('ValueError', 'cannot set WRITEABLE flag to True of this array')
            b = b.base
        else:
            raise I.exc('ValueError', 'cannot set WRITEABLE flag to True of this array')
    a.writeable = v


FLAGS.ns['__getitem__'] = NativeFn('__getitem__', lambda I, f, k: f.get(I, k))
FLAGS.ns['__setitem__'] = NativeFn('__setitem__', lambda I, f, k, v: set_writeable(I, f.a, v))


def flatten_t(t, shape):
    if len(shape) <= 1:
        return t
    return t if T.is_scalar(t) else linear('reshape', t, 'flat')


def to_list(I, a, t=None, shape=None):
    if t is None:
        t, shape = val(a), shape_of(a)
    if not shape:
        return pynum(t, a.dtype)
    if isinstance(shape[0], T.Term):
        raise Undecided('list of a symbolic number of elements')
    return AList([to_list(I, a, select(t, ('sel', (('i', i),))), shape[1:]) for i in range(shape[0])], B.LIST)


def parse_shape(I, s):
    if isinstance(s, (tuple, AList)):
        items = list(I.iterate(s))
    else:
        items = [s]
    out = []
    for x in items:
        if isinstance(x, AArr):
            x = as_index(I, x)
        if isinstance(x, SNum) and x.kind == 'int':
            out.append(dim(x.t))
        elif isinstance(x, (bool, int)):
            out.append(int(x))
        else:
            raise I.exc('TypeError', 'expected a sequence of integers or a single integer')
    return tuple(out)


from . import npfuncs  # noqa: E402
install = npfuncs.install
np_trapezoid = npfuncs.np_trapezoid
