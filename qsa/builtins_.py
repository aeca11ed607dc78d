"""Builtin types and functions of the abstract interpreter."""
import ast
import builtins as _b
import re
from fractions import Fraction

from . import paths
from . import term as T
from .paths import Undecided
from .values import *

# ----------------------------------------------------------------- classes
OBJECT = AClass('object', (), {})


def _c(name, base=None):
    return AClass(name, (base or OBJECT,), {})


TYPE = _c('type')
INT = _c('int')
BOOL = _c('bool', INT)
FLOAT = _c('float')
COMPLEX = _c('complex')
STR = _c('str')
BYTES = _c('bytes')
LIST = _c('list')
TUPLE = _c('tuple')
DICT = _c('dict')
SET = _c('set')
FROZENSET = _c('frozenset')
SLICE = _c('slice')
RANGE = _c('range')
NONETYPE = _c('NoneType')
ELLIPSIS = _c('ellipsis')
NOTIMPL = _c('NotImplementedType')


class UnionType:
    native_type = _c('UnionType')

    def __init__(self, union):
        self.union = union


PROPERTY = _c('property')
CLASSMETHOD = _c('classmethod')
STATICMETHOD = _c('staticmethod')
SUPER = _c('super')
FUNCTION = _c('function')
METHOD = _c('method')
NATIVEF = _c('builtin_function_or_method')
MODULE = _c('module')
ITER = _c('iterator')
HOST = _c('hostobject')
HASHT = _c('hashvalue', INT)
MEMVIEW = _c('mappingproxy')

EXC = {}


def _mkexc():
    for name in dir(_b):
        t = getattr(_b, name)
        if isinstance(t, type) and issubclass(t, BaseException) and t.__name__ == name:
            _exc_class(t)


def _exc_class(t):
    if t.__name__ in EXC:
        return EXC[t.__name__]
    bases = tuple(OBJECT if b is object else _exc_class(b) for b in t.__bases__
                  if b is object or issubclass(b, BaseException))
    c = AClass(t.__name__, bases or (OBJECT,), {})
    c.host = t
    EXC[t.__name__] = c
    return c


_mkexc()

_types = {
    int: INT, bool: BOOL, str: STR, OpaqueStr: STR, bytes: BYTES, tuple: TUPLE,
    type(None): NONETYPE, type(Ellipsis): ELLIPSIS, type(NotImplemented): NOTIMPL,
    slice: SLICE, range: RANGE, AFunc: FUNCTION, NativeFn: NATIVEF, BoundMethod: METHOD,
    AModule: MODULE, AProperty: PROPERTY, NProperty: PROPERTY, AClassMethod: CLASSMETHOD,
    AStaticMethod: STATICMETHOD, AIter: ITER, AHash: HASHT, AClass: TYPE, ASuper: SUPER,
}
_kinds = {'int': INT, 'float': FLOAT, 'complex': COMPLEX, 'bool': BOOL}


def type_of(v):
    t = type(v)
    c = _types.get(t)
    if c is not None:
        return c
    if t is SNum:
        return _kinds[v.kind]
    if t is AArr or t is Obj or t is ADict or t is ASet:
        return v.cls
    if t is AList:
        return v.cls or LIST
    if t is HostObj:
        return getattr(v, 'cls', None) or HOST
    c = getattr(v, 'native_type', None)
    if c is not None:
        return c
    raise Undecided('type of %r' % (v,))


# ------------------------------------------------------------------ numbers
def is_num(v):
    return isinstance(v, (int, SNum))


def term_of(v):
    """term of a number"""
    if isinstance(v, SNum):
        return v.t
    if isinstance(v, (int, bool)):
        return T.const(int(v))
    raise Undecided('not a number: %r' % (v,))


def kind_of(v):
    if isinstance(v, SNum):
        return v.kind
    return 'bool' if isinstance(v, bool) else 'int'


def mknum(t, kind):
    if t.op == 'const':
        if kind == 'int' and t.args[0].denominator == 1:
            return int(t.args[0])
        if kind == 'bool':
            return bool(t.args[0])
    return SNum(t, kind)


def mod_t(a, b):
    if a.op == 'const' and b.op == 'const' and b.args[0] != 0:
        return T.const(a.args[0] - b.args[0] * (a.args[0] // b.args[0]))
    s, r = T.positive_factor(b)
    return T.mul(s, T.fn('mod', T.div(a, s), r))


def floordiv_t(a, b):
    if a.op == 'const' and b.op == 'const' and b.args[0] != 0:
        return T.const(a.args[0] // b.args[0])
    s, r = T.positive_factor(b)
    return T.fn('floordiv', T.div(a, s), r)


def _pow_kind(a, b, kind):
    return kind


def num_binop(I, op, a, b):
    """arithmetic of Python numbers, at least one symbolic or a float"""
    ka, kb = kind_of(a), kind_of(b)
    x, y = term_of(a), term_of(b)
    order = {'bool': 0, 'int': 1, 'float': 2, 'complex': 3}
    k = max(ka, kb, 'int', key=lambda z: order[z])
    if op == 'add':
        return mknum(_inf2('add', x, y) or T.add(x, y), k)
    if op == 'sub':
        return mknum(_inf2('sub', x, y) or T.sub(x, y), k)
    if op == 'mul':
        return mknum(_inf2('mul', x, y) or T.mul(x, y), k)
    if op in ('truediv', 'floordiv', 'mod'):
        if y.op != 'inf' and paths.truth(T.fn('eq', y, T.ZERO)):
            raise I.exc('ZeroDivisionError', 'division by zero')
        if op == 'truediv':
            return mknum(_inf2('div', x, y) or T.div(x, y), 'complex' if k == 'complex' else 'float')
        if op == 'floordiv':
            return mknum(floordiv_t(x, y), k)
        return mknum(mod_t(x, y), k)
    if op == 'pow':
        r = T.power(x, y)
        if k == 'int':
            if not (T.nonneg(y) or y.op == 'const' and y.args[0] >= 0):
                k = 'float'
        return mknum(r, k)
    if op in ('and', 'or', 'xor', 'lshift', 'rshift'):
        if ka == 'bool' and kb == 'bool':
            if op == 'and':
                return SNum(T.fn('and', x, y), 'bool')
            if op == 'or':
                return SNum(T.fn('or', x, y), 'bool')
        if k == 'float':
            raise I.exc('TypeError', 'unsupported operand')
        return SNum(T.fn(op, x, y), 'int')
    raise I.exc('TypeError', 'unsupported operand type(s) for %s' % op)


def _inf2(op, x, y):
    if x.op != 'inf' and y.op != 'inf':
        return None
    f = float
    try:
        a = f(x.args[0]) if x.op == 'inf' else (f(x.args[0]) if x.op == 'const' else None)
        b = f(y.args[0]) if y.op == 'inf' else (f(y.args[0]) if y.op == 'const' else None)
    except ValueError:
        return T.fn(op, x, y)
    if a is None or b is None:
        if op in ('add', 'sub') and (a is None) != (b is None):
            if a is not None:
                return x
            return T.const(-b)
        z = T.nonneg(x if a is None else y)
        return T.fn(op, x, y)
    try:
        return T.const({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                        'div': lambda: a / b}[op]())
    except ZeroDivisionError:
        return T.fn(op, x, y)


def cmp_pred(op, x, y):
    """predicate term"""
    if op == 'eq':
        return T.fn('eq', x, y)
    if op == 'ne':
        return T.fn('not', T.fn('eq', x, y))
    if op == 'lt':
        return T.fn('lt', x, y)
    if op == 'le':
        return T.fn('le', x, y)
    if op == 'gt':
        return T.fn('lt', y, x)
    return T.fn('le', y, x)


def fold_pred(p):
    """constant value of a predicate when it is decided syntactically"""
    n = p.args[0]
    if n == 'not':
        r = fold_pred(p.args[1])
        return None if r is None else not r
    if n in ('eq', 'lt', 'le'):
        a, b = p.args[1], p.args[2]
        if a.op == 'const' and b.op == 'const':
            x, y = a.args[0], b.args[0]
            if n == 'eq':
                # floats: a value known to 1e-12 is the same number
                return x == y
            return x < y if n == 'lt' else x <= y
        if a is b and a.op != 'inf':
            return n != 'lt'
    return None


def prim_binop(I, op, a, b):
    ta, tb = type(a), type(b)
    if (ta is AHash or tb is AHash) and not (op == 'mod' and ta is str):
        return hash_binop(I, op, a, b)
    if ta is SNum or tb is SNum:
        if (ta is SNum or ta is int or ta is bool) and (tb is SNum or tb is int or tb is bool):
            return num_binop(I, op, a, b)
        if op == 'mod' and ta is str:
            return str_mod(I, a, b)
        if op == 'mul' and (ta in (str, tuple) or tb in (str, tuple)):
            n = a if ta is SNum else b
            if n.kind == 'int':
                raise Undecided('sequence repeated a symbolic number of times')
        raise I.exc('TypeError', 'unsupported operand type(s) for %s' % op)
    if op == 'mod' and ta is str:
        return str_mod(I, a, b)
    if ta is OpaqueStr or tb is OpaqueStr:
        if op == 'add' and ta in (str, OpaqueStr) and tb in (str, OpaqueStr):
            return str_concat([a, b])
        if op == 'mul' and (ta is int or tb is int):
            return OpaqueStr()
        if op == 'mod' and ta is OpaqueStr:
            return OpaqueStr()
        raise I.exc('TypeError', 'unsupported operand')
    if ta in (int, bool) and tb in (int, bool):
        try:
            if op == 'truediv':
                return SNum(T.const(Fraction(a, b)), 'float')
            if op == 'pow':
                if b < 0:
                    return SNum(T.const(Fraction(a) ** b), 'float')
                if b > 5000:
                    raise Undecided('huge power')
                return a ** b
            return _OPS[op](a, b)
        except ZeroDivisionError as e:
            raise I.exc('ZeroDivisionError', str(e))
        except KeyError:
            raise I.exc('TypeError', op)
    try:
        return _OPS[op](a, b)
    except (TypeError, KeyError) as e:
        raise I.exc('TypeError', str(e))


import operator as _o
_OPS = {'add': _o.add, 'sub': _o.sub, 'mul': _o.mul, 'floordiv': _o.floordiv, 'mod': _o.mod,
        'xor': _o.xor, 'and': _o.and_, 'or': _o.or_, 'lshift': _o.lshift, 'rshift': _o.rshift,
        'truediv': _o.truediv, 'pow': _o.pow}


def prim_unary(I, op, v):
    if isinstance(v, SNum):
        if op == 'neg':
            if v.t.op == 'inf':
                return SNum(T.const(-float(v.t.args[0])), v.kind)
            return mknum(T.neg(v.t), 'int' if v.kind == 'bool' else v.kind)
        if op == 'pos':
            return v
        if op == 'invert' and v.kind == 'int':
            return mknum(T.sub(T.MINUS_ONE, v.t), 'int')
        if op == 'invert' and v.kind == 'bool':
            raise Undecided('~bool')
        raise I.exc('TypeError', 'bad operand type for unary %s' % op)
    if isinstance(v, int):
        return {'neg': _o.neg, 'pos': _o.pos, 'invert': _o.invert}[op](v)
    raise I.exc('TypeError', 'bad operand type for unary %s' % op)


def prim_compare(I, op, a, b):
    ta, tb = type(a), type(b)
    num = (int, bool, SNum)
    if ta in num and tb in num and (ta is SNum or tb is SNum):
        x, y = term_of(a), term_of(b)
        for z in (a, b):
            if isinstance(z, SNum) and z.kind == 'bool' and z.t.op == 'fn':
                o = y if z is a else x
                if op in ('eq', 'ne') and o.op == 'const':
                    r = paths.truth(z.t) == bool(o.args[0])
                    return r if op == 'eq' else not r
        if x.op == 'inf' or y.op == 'inf':
            r = paths._decide(T.fn('eq', x, y) if op in ('eq', 'ne') else cmp_pred(op, x, y))
            if r is None:
                raise Undecided('comparison with infinity')
            return (not r) if op == 'ne' else r
        p = cmp_pred(op, x, y)
        r = fold_pred(p)
        if r is not None:
            return r
        return SNum(p, 'bool')
    if ta is AHash or tb is AHash:
        r = hash_eq(I, a, b)
        if op == 'eq':
            return r
        if op == 'ne':
            return not r
        raise Undecided('hash order')
    if ta is OpaqueStr or tb is OpaqueStr:
        if ta in (str, OpaqueStr) and tb in (str, OpaqueStr):
            if a is b:
                return op in ('eq', 'le', 'ge')
            if opaque_same(a, b):
                return op in ('eq', 'le', 'ge')
            raise Undecided('comparison of numeric strings')
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        raise I.exc('TypeError', 'not supported')
    if ta is tuple and tb is tuple:
        return seq_compare(I, op, a, b)
    try:
        return {'eq': _o.eq, 'ne': _o.ne, 'lt': _o.lt, 'le': _o.le, 'gt': _o.gt, 'ge': _o.ge}[op](a, b)
    except TypeError as e:
        raise I.exc('TypeError', str(e))


def opaque_same(a, b):
    def parts(x):
        return tuple(x.parts) if isinstance(x, OpaqueStr) else (x,)
    pa, pb = parts(a), parts(b)
    if not pa or not pb or len(pa) != len(pb):
        return False
    return all(p is q or (isinstance(p, str) and p == q) for p, q in zip(pa, pb))


def seq_compare(I, op, a, b):
    for x, y in zip(a, b):
        if not I.is_(x, y) and not I.truth(I.compare('eq', x, y)):
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return I.compare(op, x, y)
    return {'eq': _o.eq, 'ne': _o.ne, 'lt': _o.lt, 'le': _o.le, 'gt': _o.gt, 'ge': _o.ge}[op](len(a), len(b))


# ---------------------------------------------------------------- hashing
def hkey(I, v):
    """key of an abstract hash value: equal keys <=> equal hashes"""
    t = type(v)
    if t is str:
        return ('s', v)
    if t is int or t is bool:
        return ('i', hash(v))
    if t is SNum:
        if v.t.op == 'const':
            return ('i', hash(v.t.args[0]))
        return ('t', paths.facts.norm(v.t))
    if v is None or v is Ellipsis or v is NotImplemented:
        return ('k', repr(v))
    if t is tuple:
        return ('T',) + tuple(hkey(I, x) for x in v)
    if t is bytes:
        return ('b', v)
    if t is AHash:
        return v.key()
    if t is BoundMethod:
        return ('m', id(v.func), id(v.self))
    if t is OpaqueStr:
        raise Undecided('hash of a numeric string')
    if t is slice:
        raise I.exc('TypeError', "unhashable type: 'slice'")
    if t is ADtype:
        return ('dt', v.name)
    cls = type_of(v)
    h = cls.lookup('__hash__')
    if h is None:
        raise I.exc('TypeError', 'unhashable type: %r' % cls.name)
    if h is MISSING or h is OBJECT.ns.get('__hash__'):
        return ('o', id(v))
    c = _hash_cache_key(I, h, v, cls)
    if c is not None and c in I.hash_cache:
        return I.hash_cache[c]
    k = _called_hkey(I, h, v, cls)
    if c is not None:
        I.hash_cache[c] = k
    return k


def _hash_cache_key(I, h, v, cls):
    """for a __hash__ that only reads string attributes of the instance"""
    if type(h) is not AFunc:
        return None
    names = h.info.reads
    if names is False:
        names = h.info.reads = _hash_reads(h)
    if names is None:
        return None
    attrs = I.instance_attrs(v)
    if attrs is None:
        return None
    out = [h, cls]
    for n in names:
        x = attrs.get(n)
        if type(x) is not str or cls.lookup(n) is not MISSING:
            return None
        out.append(x)
    return tuple(out)


def _hash_reads(h):
    node = h.node
    if type(node) is not ast.FunctionDef or len(node.args.args) != 1 or 'hash' in h.glob or 'type' in h.glob:
        return None
    me = node.args.args[0].arg
    body = [s for s in node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None:
        return None
    names = []

    def ok(n):
        if isinstance(n, ast.Constant):
            return True
        if isinstance(n, ast.Tuple):
            return all(ok(x) for x in n.elts)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('hash', 'type') and len(n.args) == 1 and not n.keywords:
            return n.func.id == 'type' and isinstance(n.args[0], ast.Name) and n.args[0].id == me or n.func.id == 'hash' and ok(n.args[0])
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
            names.append(n.attr)
            return True
        return False
    return names if ok(body[0].value) else None


def _called_hkey(I, h, v, cls):
    r = I.call(I.bind(h, v, cls), [])
    if isinstance(r, AHash):
        return r.key() if r.atoms else ('i', r.const)
    if isinstance(r, int):
        return ('i', hash(r))
    if isinstance(r, SNum):
        return ('t', r.t)
    raise I.exc('TypeError', '__hash__ method should return an integer')


def hash_of(I, v):
    k = hkey(I, v)
    if k[0] == 'i':
        return k[1]
    if k[0] == 'h':
        return AHash(k[1], k[2])
    return AHash(0, frozenset([k]))


def hash_binop(I, op, a, b):
    if op == 'xor':
        ca, sa = (a.const, a.atoms) if isinstance(a, AHash) else (int(a), frozenset())
        cb, sb = (b.const, b.atoms) if isinstance(b, AHash) else (int(b), frozenset())
        s = sa ^ sb
        return AHash(ca ^ cb, s) if s else ca ^ cb

    def k(x):
        if isinstance(x, AHash):
            return x.key()
        if isinstance(x, int):
            return ('i', x)
        if isinstance(x, SNum) and x.kind in ('int', 'bool'):
            return ('i', int(x.t.args[0])) if x.t.op == 'const' else ('t', paths.facts.norm(x.t))
        if isinstance(x, SNum) and op not in ('xor', 'and', 'or', 'lshift', 'rshift'):
            raise Undecided('arithmetic of a hash with a float')
        raise I.exc('TypeError', 'unsupported operand type(s) for %s' % op)
    x, y = k(a), k(b)
    if op in ('add', 'mul', 'and', 'or'):
        x, y = sorted((x, y), key=repr)
    return AHash(0, frozenset([('op', op, x, y)]))


def hash_eq(I, a, b):
    if not (isinstance(a, AHash) and isinstance(b, AHash)):
        return False
    if a.const != b.const:
        return False
    if a.atoms == b.atoms:
        return True
    pairs = _hash_match(a.atoms, b.atoms)
    if pairs is None:
        return False
    for u, v in pairs:
        if u is v or u == v:
            continue
        if not paths.truth(T.fn('eq', _num_term(u), _num_term(v))):
            return False
    return True


def _hash_match(x, y):
    """the pairs of numbers that have to be equal for the keys x and y to be;
    None if they differ whatever the numbers are"""
    if _is_num(x) and _is_num(y):
        return [(x, y)]
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return None
        out = []
        for u, v in zip(x, y):
            m = _hash_match(u, v)
            if m is None:
                return None
            out += m
        return out
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        l, r = list(x - y), list(y - x)
        if len(l) != len(r):
            return None     # (two elements with symbolic numbers may be one: not met)
        out, used = [], set()
        for u in l:
            # numbers may be symbolic on one side only
            c = [(i, m) for i, v in enumerate(r) for m in (_hash_match(u, v),) if m is not None]
            if not c:
                return None
            if len(c) != 1:
                raise Undecided('symbolic hash comparison')
            if c[0][0] in used:
                return None
            used.add(c[0][0])
            out += c[0][1]
        return out
    return [] if x == y else None


def _is_num(k):
    return isinstance(k, tuple) and len(k) == 2 and k[0] in ('i', 't')


def _num_term(k):
    return k[1] if k[0] == 't' else T.const(k[1])


# ------------------------------------------------------------------ dicts
def _trivial(k):
    return type(k) in (str, int, bool, type(None), bytes)


def dfind(I, d, k):
    """serial of the entry with key k, or None"""
    hk = hkey(I, k)
    ss = d.table.get(hk)
    if not ss:
        if hk[0] == 't':
            # a symbolic number may equal a stored number
            for s, e in d.entries.items():
                if is_num(e[0]) and I.truth(I.compare('eq', e[0], k)):
                    return s
        return None
    for s in ss:
        kk = d.entries[s][0]
        if kk is k or _trivial(kk) and _trivial(k) or I.is_(kk, k):
            return s
        if I.truth(I.compare('eq', kk, k)):
            return s
    return None


def dget(I, d, k, default=MISSING):
    s = dfind(I, d, k)
    return default if s is None else d.entries[s][1]


def dset(I, d, k, v):
    s = dfind(I, d, k)
    if s is not None:
        d.entries[s][1] = v
    else:
        hk = hkey(I, k)
        d.serial += 1
        d.entries[d.serial] = [k, v]
        d.table.setdefault(hk, []).append(d.serial)
    ns = d.attrs.get('ns')
    if type(ns) is dict and isinstance(k, str):
        ns[k] = v


def ddel(I, d, k):
    s = dfind(I, d, k)
    if s is None:
        return MISSING
    e = d.entries.pop(s)
    for hk, ss in d.table.items():
        if s in ss:
            ss.remove(s)
            if not ss:
                del d.table[hk]
            break
    ns = d.attrs.get('ns')
    if type(ns) is dict and isinstance(k, str):
        ns.pop(k, None)
    return e[1]


def dict_pairs(I, v):
    if isinstance(v, ADict):
        return [tuple(e) for e in v.entries.values()]
    keys = I.getattr(v, 'keys', None)
    if keys is None:
        raise I.exc('TypeError', '%r object is not a mapping' % type_of(v).name)
    return [(k, I.getitem(v, k)) for k in I.iterate(I.call(keys, []))]


def make_dict(I, pairs=(), cls=None):
    d = ADict(cls or DICT)
    for k, v in pairs:
        dset(I, d, k, v)
    return d


def make_set(I, items, cls=None):
    d = ADict(DICT)
    for x in items:
        dset(I, d, x, None)
    return ASet(d, cls or SET)


def ns_view(I, ns):
    d = make_dict(I, list(ns.items()))
    d.attrs['ns'] = ns
    return d


def dict_to_ns(I, d):
    ns = {}
    for k, v in d.entries.values():
        ns[k] = v
    d.attrs['ns'] = ns
    return ns


def namespace_dict(I, env, glob):
    ns = env.glob if glob else env.vars
    return ns_view(I, ns)


# ----------------------------------------------------------------- strings
def str_concat(parts):
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    out = []
    for p in parts:
        if isinstance(p, OpaqueStr):
            out.extend(p.parts if p.parts else (p,))
        else:
            out.append(p)
    return OpaqueStr(tuple(out))


def float_text(t):
    if t.op == 'const':
        return repr(float(t.args[0]))
    if t.op == 'inf':
        return t.args[0]
    return OpaqueStr((('num', t),))


def str_(I, v):
    t = type(v)
    if t is str or t is OpaqueStr:
        return v
    if t is int or t is bool or v is None:
        return str(v)
    if t is SNum:
        if v.kind == 'bool':
            return str(paths.truth(v.t))
        if v.kind == 'int':
            return OpaqueStr((('num', v.t),))
        return float_text(v.t)
    cls = type_of(v)
    m = cls.lookup('__str__')
    if m is not MISSING and m is not OBJECT.ns.get('__str__'):
        r = I.call(I.bind(m, v, cls), [])
        if not isinstance(r, (str, OpaqueStr)):
            raise I.exc('TypeError', '__str__ returned non-string')
        return r
    if t is Obj and cls.issub(EXC['BaseException']):
        args = v.attrs.get('args', ())
        if not args:
            return ''
        if len(args) == 1:
            return str_(I, args[0])
    return repr_(I, v)


def repr_(I, v):
    t = type(v)
    if t is str:
        return repr(v)
    if t is OpaqueStr:
        return OpaqueStr(("'",) + tuple(v.parts) + ("'",))
    if t is int or t is bool or v is None or t is bytes or v is Ellipsis:
        return repr(v)
    if t is SNum:
        return str_(I, v)
    if t is tuple:
        parts = [repr_(I, x) for x in v]
        if all(isinstance(p, str) for p in parts):
            return '(' + ', '.join(parts) + (',)' if len(parts) == 1 else ')')
        return OpaqueStr()
    if t is AList:
        parts = [repr_(I, x) for x in v.items]
        if all(isinstance(p, str) for p in parts):
            return '[' + ', '.join(parts) + ']'
        return OpaqueStr()
    if t is AClass:
        return "<class '%s.%s'>" % (v.module, v.name)
    if t in (AFunc, NativeFn, BoundMethod, AModule, HostObj, AIter, AProperty, ASuper, slice, range, ADtype, AHash):
        return OpaqueStr()
    cls = type_of(v)
    m = cls.lookup('__repr__')
    if m is not MISSING and m is not OBJECT.ns.get('__repr__'):
        return I.call(I.bind(m, v, cls), [])
    if t is ADict:
        parts = []
        for k, x in v.entries.values():
            parts += [repr_(I, k), ': ', repr_(I, x), ', ']
        return str_concat(['{'] + parts[:-1] + ['}'])
    if t is Obj and cls.issub(EXC['BaseException']):
        return OpaqueStr()
    return OpaqueStr()


def format_(I, v, spec):
    if isinstance(v, (str, OpaqueStr)) and spec == '':
        return v
    if isinstance(v, str) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError as e:
            raise I.exc('ValueError', str(e))
    if isinstance(v, OpaqueStr):
        return OpaqueStr()
    if isinstance(v, int) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError as e:
            raise I.exc('ValueError', str(e))
    if isinstance(v, SNum):
        if v.t.op == 'const' and v.kind == 'float' and isinstance(spec, str):
            try:
                return format(float(v.t.args[0]), spec)
            except ValueError as e:
                raise I.exc('ValueError', str(e))
        if spec == '':
            return str_(I, v)
        return OpaqueStr((('fmt', v.t, spec),))
    cls = type_of(v)
    m = cls.lookup('__format__')
    if m is not MISSING and m is not OBJECT.ns.get('__format__'):
        return I.call(I.bind(m, v, cls), [spec])
    if spec not in ('',):
        if isinstance(spec, str):
            raise I.exc('TypeError', 'unsupported format string passed to %s.__format__' % cls.name)
    return str_(I, v)


_PCT = re.compile(r'%(\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(\.(?P<prec>\*|\d+))?[hlL]?(?P<t>.)', re.S)


def str_mod(I, fmt, args):
    if isinstance(args, tuple):
        seq, i = args, [0]
    else:
        seq, i = (args,), [0]
    mapping = args if isinstance(args, ADict) else None

    def nxt():
        if i[0] >= len(seq):
            raise I.exc('TypeError', 'not enough arguments for format string')
        i[0] += 1
        return seq[i[0] - 1]
    out = []
    pos = 0
    usedmap = False
    for m in _PCT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        t = m.group('t')
        if t == '%':
            out.append('%')
            continue
        if m.group('key') is not None:
            if mapping is None:
                raise I.exc('TypeError', 'format requires a mapping')
            usedmap = True
            v = I.getitem(mapping, m.group('key'))
        else:
            if m.group('width') == '*' or m.group('prec') == '*':
                raise Undecided('%* format')
            v = nxt()
        if t in 'sra':
            s = str_(I, v) if t == 's' else repr_(I, v)
            if isinstance(s, str):
                spec = '%' + m.group('flags') + (m.group('width') or '') + \
                    ('.' + m.group('prec') if m.group('prec') else '') + 's'
                s = spec % s
            out.append(s)
        elif t in 'diufFeEgGxXoc':
            if isinstance(v, int) or (isinstance(v, str) and t == 'c'):
                try:
                    out.append(('%' + (m.group('flags') or '') + (m.group('width') or '') +
                                ('.' + m.group('prec') if m.group('prec') else '') + t) % v)
                except TypeError as e:
                    raise I.exc('TypeError', str(e))
            else:
                from . import npmodel
                s = npmodel.as_number(I, v)
                if s is None:
                    raise I.exc('TypeError', '%%%s format: a real number is required' % t)
                if s.t.op == 'const':
                    out.append(('%' + (m.group('flags') or '') + (m.group('width') or '') +
                                ('.' + m.group('prec') if m.group('prec') else '') + t) % float(s.t.args[0]))
                else:
                    out.append(OpaqueStr((('fmt', s.t, m.group(0)),)))
        else:
            raise I.exc('ValueError', 'unsupported format character')
    out.append(fmt[pos:])
    if i[0] < len(seq) and mapping is None and not usedmap:
        raise I.exc('TypeError', 'not all arguments converted during string formatting')
    return str_concat(out)


def str_format(I, fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        first, rest = _split_field(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int) or first.isdigit():
            j = int(first)
            if j >= len(args):
                raise I.exc('IndexError', 'Replacement index out of range')
            v = args[j]
        else:
            if first not in kwargs:
                raise I.exc('KeyError', first)
            v = kwargs[first]
        for isattr, nm in rest:
            v = I.getattr(v, nm) if isattr else I.getitem(v, nm)
        if conv == 'r' or conv == 'a':
            v = repr_(I, v)
        elif conv == 's':
            v = str_(I, v)
        if spec and '{' in spec:
            spec = str_format(I, spec, args, kwargs)
        out.append(format_(I, v, spec or ''))
    return str_concat(out)


def _split_field(field):
    import _string
    first, rest = _string.formatter_field_name_split(field)
    return first, list(rest)


# ----------------------------------------------------------------- sequences
def concrete_index(I, k):
    if isinstance(k, bool):
        return int(k)
    if isinstance(k, int) or k is None:
        return k
    if isinstance(k, SNum):
        if k.kind == 'float':
            raise I.exc('TypeError', 'indices must be integers')
        raise Undecided('symbolic index')
    if isinstance(k, AArr):
        from . import npmodel
        n = npmodel.as_index(I, k)
        if isinstance(n, int):
            return n
        raise Undecided('symbolic index')
    m = I.special(k, '__index__')
    if m is not MISSING:
        return concrete_index(I, I.call(m, []))
    raise I.exc('TypeError', 'indices must be integers or slices')


def cslice(I, s):
    return slice(concrete_index(I, s.start), concrete_index(I, s.stop), concrete_index(I, s.step))


def seq_getitem(I, v, k):
    if isinstance(k, slice):
        return v[cslice(I, k)]
    try:
        return v[concrete_index(I, k)]
    except IndexError as e:
        raise I.exc('IndexError', str(e))


# ------------------------------------------------------------ host conversion
def to_host(I, v):
    """concrete host value or Undecided"""
    if v is None or isinstance(v, (int, str, bytes)):
        return v
    if isinstance(v, tuple):
        return tuple(to_host(I, x) for x in v)
    if isinstance(v, AList):
        return [to_host(I, x) for x in v.items]
    if isinstance(v, SNum) and v.t.op == 'const':
        return float(v.t.args[0])
    if isinstance(v, SNum) and v.t.op == 'inf' and v.t.args[0] in ('inf', '-inf', 'nan'):
        return float(v.t.args[0])
    if isinstance(v, HostObj):
        return v.v
    if isinstance(v, ADict):
        return {to_host(I, k): to_host(I, x) for k, x in v.entries.values()}
    if isinstance(v, slice):
        return v
    if isinstance(v, AClass) and v.host:
        return v.host
    raise Undecided('not concrete: %r' % (v,))


def from_host(I, v):
    if v is None or isinstance(v, (bool, int, str, bytes)):
        return v
    if isinstance(v, float):
        return SNum(T.const(v), 'float')
    if isinstance(v, Fraction):
        return SNum(T.const(v), 'float')
    if isinstance(v, tuple):
        return tuple(from_host(I, x) for x in v)
    if isinstance(v, list):
        return AList([from_host(I, x) for x in v], LIST)
    if isinstance(v, dict):
        return make_dict(I, [(from_host(I, k), from_host(I, x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return make_set(I, [from_host(I, x) for x in sorted(v, key=repr)])
    from . import stdlib
    return stdlib.wrap_host(I, v)


# --------------------------------------------------------------- installation
NATIVE_LOCALS = None
NATIVE_GLOBALS = None


def install(I):
    global NATIVE_LOCALS, NATIVE_GLOBALS
    B = {}

    def native(name):
        def dec(f):
            B[name] = NativeFn(name, f, bind=False)
            return f
        return dec

    def method(cls, name):
        def dec(f):
            cls.ns[name] = NativeFn(name, f)
            return f
        return dec

    for c, n in ((OBJECT, 'object'), (TYPE, 'type'), (INT, 'int'), (BOOL, 'bool'), (FLOAT, 'float'),
                 (COMPLEX, 'complex'), (STR, 'str'), (BYTES, 'bytes'), (LIST, 'list'), (TUPLE, 'tuple'),
                 (DICT, 'dict'), (SET, 'set'), (FROZENSET, 'frozenset'), (SLICE, 'slice'),
                 (RANGE, 'range'), (PROPERTY, 'property'), (CLASSMETHOD, 'classmethod'),
                 (STATICMETHOD, 'staticmethod'), (SUPER, 'super')):
        B[n] = c
    for n, c in EXC.items():
        B[n] = c
    for n, v in (('None', None), ('True', True), ('False', False), ('Ellipsis', Ellipsis),
                 ('NotImplemented', NotImplemented), ('__debug__', not I.optimize)):
        B[n] = v

    # ---- object
    def obj_new(I, cls, *a, **k):
        if not isinstance(cls, AClass):
            raise I.exc('TypeError', 'object.__new__(X): X is not a type object')
        if (a or k) and cls.lookup('__init__') is OBJECT.ns['__init__'] \
                and _newof(cls) is OBJECT.ns['__new__']:
            raise I.exc('TypeError', '%s() takes no arguments' % cls.name)
        return Obj(cls)
    OBJECT.ns['__new__'] = NativeFn('__new__', obj_new, bind=False)

    def _newof(cls):
        n = cls.lookup('__new__')
        return n
    OBJECT.ns['__init__'] = NativeFn('__init__', lambda I, self, *a, **k: None)
    OBJECT.ns['__hash__'] = NativeFn('__hash__', lambda I, self: AHash(0, frozenset([('o', id(self))])))
    OBJECT.ns['__repr__'] = NativeFn('__repr__', lambda I, self: OpaqueStr())
    OBJECT.ns['__str__'] = NativeFn('__str__', lambda I, self: repr_(I, self))
    OBJECT.ns['__eq__'] = NativeFn('__eq__', lambda I, self, o: True if self is o else NotImplemented)

    def obj_ne(I, self, o):
        m = type_of(self).lookup('__eq__')
        r = I.call(I.bind(m, self, type_of(self)), [o])
        if r is NotImplemented:
            return r
        return not I.truth(r)
    OBJECT.ns['__ne__'] = NativeFn('__ne__', obj_ne)
    OBJECT.ns['__setattr__'] = NativeFn('__setattr__', lambda I, self, n, v: I.plain_setattr(self, n, v))
    OBJECT.ns['__delattr__'] = NativeFn('__delattr__', lambda I, self, n: I.delattr(self, n))
    OBJECT.ns['__getattribute__'] = NativeFn('__getattribute__', lambda I, self, n: I._getattr(self, n))
    OBJECT.ns['__format__'] = NativeFn('__format__', lambda I, self, spec: str_(I, self))
    OBJECT.ns['__init_subclass__'] = AClassMethod(NativeFn('__init_subclass__', lambda I, cls, **k: None))
    OBJECT.ns['__doc__'] = None

    def reduce_ex(I, self, proto=2):
        r = type_of(self).lookup('__reduce__')
        if r is not MISSING and r is not OBJECT.ns['__reduce__']:
            return I.call(I.bind(r, self, type_of(self)), [])
        return obj_reduce(I, self)
    OBJECT.ns['__reduce_ex__'] = NativeFn('__reduce_ex__', reduce_ex)

    def obj_reduce(I, self):
        from . import stdlib
        return stdlib.default_reduce(I, self)
    OBJECT.ns['__reduce__'] = NativeFn('__reduce__', obj_reduce)

    # ---- exceptions
    BE = EXC['BaseException']

    def exc_new(I, cls, *a, **k):
        return Obj(cls, {'args': tuple(a)})
    BE.ns['__new__'] = NativeFn('__new__', exc_new, bind=False)

    def exc_init(I, self, *a, **k):
        self.attrs['args'] = tuple(a)
    BE.ns['__init__'] = NativeFn('__init__', exc_init)
    BE.ns['with_traceback'] = NativeFn('with_traceback', lambda I, self, tb: self)
    BE.ns['add_note'] = NativeFn('add_note', lambda I, self, s: None)
    BE.ns['__traceback__'] = None
    BE.ns['__cause__'] = None
    BE.ns['__context__'] = None
    BE.ns['__suppress_context__'] = False
    EXC['StopIteration'].ns['value'] = NProperty('value', lambda I, s: s.attrs['args'][0] if s.attrs['args'] else None)

    # ---- type
    def type_new(I, cls, *a):
        if len(a) == 1:
            return type_of(a[0])
        name, bases, ns = a
        return I.make_class(name, list(bases), {k: v for k, v in dict_pairs(I, ns)}, None)
    TYPE.ns['__new__'] = NativeFn('__new__', type_new, bind=False)

    def type_or(I, a, b):
        parts = []
        for x in (a, b):
            if isinstance(x, UnionType):
                parts += x.union
            elif isinstance(x, AClass):
                parts.append(x)
            elif x is None:
                parts.append(NONETYPE)
            elif getattr(getattr(x, 'native_type', None), 'module', '') == 'typing':
                parts.append(OBJECT)
            else:
                return NotImplemented
        return UnionType(tuple(parts))
    for c in (TYPE, UnionType.native_type):
        c.ns['__or__'] = NativeFn('__or__', type_or)
        c.ns['__ror__'] = NativeFn('__ror__', lambda I, a, b: type_or(I, b, a))

    # ---- numbers
    from . import npmodel

    def int_new(I, cls, x=0, base=10):
        if isinstance(x, str):
            try:
                return int(x, base)
            except ValueError as e:
                raise I.exc('ValueError', str(e))
        if isinstance(x, OpaqueStr):
            raise Undecided('int of a numeric string')
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        n = npmodel.as_number(I, x)
        if n is None:
            m = I.special(x, '__int__')
            if m is MISSING:
                m = I.special(x, '__index__')
            if m is MISSING:
                raise I.exc('TypeError', 'int() argument must be a number')
            return I.call(m, [])
        if n.t.op == 'const':
            return int(n.t.args[0])
        if n.t.op == 'inf':
            raise I.exc('OverflowError', 'cannot convert float infinity to integer')
        if n.kind == 'int':
            return mknum(n.t, 'int')
        if n.kind == 'bool':
            return int(paths.truth(n.t))
        return SNum(npmodel.trunc_t(n.t), 'int')
    INT.ns['__new__'] = NativeFn('__new__', int_new, bind=False)

    def float_new(I, cls, x=None):
        if x is None:
            return SNum(T.ZERO, 'float')
        if isinstance(x, str):
            try:
                return SNum(T.const(float(x)), 'float')
            except ValueError as e:
                raise I.exc('ValueError', str(e))
        if isinstance(x, OpaqueStr):
            if len(x.parts) == 1 and isinstance(x.parts[0], tuple) and x.parts[0][0] == 'num':
                return SNum(x.parts[0][1], 'float')
            raise Undecided('float of a numeric string')
        m = MISSING
        if isinstance(x, Obj):
            m = I.special(x, '__float__')
        n = npmodel.as_number(I, x) if m is MISSING else I.call(m, [])
        if n is None:
            raise I.exc('TypeError', 'float() argument must be a string or a real number')
        if n.kind == 'complex':
            raise I.exc('TypeError', 'float() argument must not be complex')
        return SNum(n.t, 'float')
    FLOAT.ns['__new__'] = NativeFn('__new__', float_new, bind=False)
    BOOL.ns['__new__'] = NativeFn('__new__', lambda I, cls, x=False: I.truth(x), bind=False)

    def complex_new(I, cls, re=0, im=0):
        a, b = npmodel.as_number(I, re), npmodel.as_number(I, im)
        if T.is_const_eq(b.t, 0):
            return SNum(a.t, 'complex')
        return SNum(T.fn('complex', a.t, b.t), 'complex')
    COMPLEX.ns['__new__'] = NativeFn('__new__', complex_new, bind=False)

    for c in (INT, FLOAT, COMPLEX, STR, TUPLE, BYTES, NONETYPE, HASHT):
        for op in _OPS:
            def f(I, self, o, op=op):
                if type(o) in I_PRIM:
                    try:
                        return prim_binop(I, op, self, o)
                    except PyRaise as e:
                        if e.exc.cls is EXC['TypeError']:
                            return NotImplemented
                        raise
                return NotImplemented

            def g(I, self, o, op=op):
                if type(o) in I_PRIM:
                    try:
                        return prim_binop(I, op, o, self)
                    except PyRaise as e:
                        if e.exc.cls is EXC['TypeError']:
                            return NotImplemented
                        raise
                return NotImplemented
            if c is NONETYPE:
                continue
            if c in (STR, TUPLE, BYTES) and op not in ('add', 'mul', 'mod'):
                continue
            c.ns['__%s__' % op] = NativeFn('__%s__' % op, f)
            if c in (INT, FLOAT, COMPLEX):
                c.ns['__r%s__' % op] = NativeFn('__r%s__' % op, g)
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            def h(I, self, o, op=op):
                if type(o) in I_PRIM:
                    if op in ('eq', 'ne') or _comparable(self, o):
                        return prim_compare(I, op, self, o)
                return NotImplemented
            c.ns['__%s__' % op] = NativeFn('__%s__' % op, h)
        c.ns['__hash__'] = NativeFn('__hash__', lambda I, self: hash_of(I, self))
    I_PRIM = {int, bool, str, SNum, tuple, type(None), bytes, OpaqueStr, AHash}

    def _comparable(a, b):
        num = (int, SNum)
        s = (str, OpaqueStr)
        return isinstance(a, num) and isinstance(b, num) or isinstance(a, s) and isinstance(b, s) or \
            isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, bytes) and isinstance(b, bytes)

    for c in (INT, FLOAT):
        for u in ('neg', 'pos', 'invert'):
            c.ns['__%s__' % u] = NativeFn('__%s__' % u, lambda I, self, u=u: prim_unary(I, u, self))
        c.ns['__abs__'] = NativeFn('__abs__', lambda I, self: abs_(I, self))
        c.ns['__bool__'] = NativeFn('__bool__', lambda I, self: I.truth(self))
        c.ns['__float__'] = NativeFn('__float__', lambda I, self: SNum(term_of(self), 'float'))
        c.ns['__int__'] = NativeFn('__int__', lambda I, self: int_new(I, INT, self))
        c.ns['conjugate'] = NativeFn('conjugate', lambda I, self: self)
        c.ns['real'] = NProperty('real', lambda I, self: self)
        c.ns['imag'] = NProperty('imag', lambda I, self: 0 if isinstance(self, int) else SNum(T.ZERO, 'float'))
    INT.ns['__index__'] = NativeFn('__index__', lambda I, self: self)
    FLOAT.ns['is_integer'] = NativeFn('is_integer', lambda I, self: float_is_integer(I, self))
    INT.ns['is_integer'] = NativeFn('is_integer', lambda I, self: True)
    INT.ns['bit_length'] = NativeFn('bit_length', lambda I, self: to_host(I, self).bit_length())
    INT.ns['numerator'] = NProperty('numerator', lambda I, self: self)
    INT.ns['denominator'] = NProperty('denominator', lambda I, self: 1)

    def as_integer_ratio(I, self):
        if isinstance(self, SNum) and self.t.op != 'const':
            raise Undecided('as_integer_ratio')
        t = term_of(self).args[0]
        return (t.numerator, t.denominator)
    FLOAT.ns['as_integer_ratio'] = NativeFn('as_integer_ratio', as_integer_ratio)
    INT.ns['as_integer_ratio'] = FLOAT.ns['as_integer_ratio']

    def float_is_integer(I, self):
        if self.t.op == 'const':
            return self.t.args[0].denominator == 1
        return paths.truth(T.fn('eq', self.t, npmodel.trunc_t(self.t)))

    # ---- str
    def str_new(I, cls, x='', encoding=None, errors=None):
        return str_(I, x)
    STR.ns['__new__'] = NativeFn('__new__', str_new, bind=False)
    STR.ns['__len__'] = NativeFn('__len__', lambda I, s: len(to_str(s)))
    STR.ns['__contains__'] = NativeFn('__contains__', lambda I, s, x: I.contains(s, x))
    STR.ns['__getitem__'] = NativeFn('__getitem__', lambda I, s, k: seq_getitem(I, to_str(s), k))
    STR.ns['__iter__'] = NativeFn('__iter__', lambda I, s: AIter(iter(to_str(s))))
    STR.ns['__str__'] = NativeFn('__str__', lambda I, s: s)

    def to_str(s):
        if isinstance(s, OpaqueStr):
            raise Undecided('text of a number')
        return s

    def str_join(I, s, it):
        parts = []
        for i, x in enumerate(I.iterate(it)):
            if not isinstance(x, (str, OpaqueStr)):
                raise I.exc('TypeError', 'sequence item %d: expected str instance' % i)
            if i:
                parts.append(s)
            parts.append(x)
        return str_concat(parts)
    STR.ns['join'] = NativeFn('join', str_join)
    STR.ns['format'] = NativeFn('format', lambda I, s, *a, **k: str_format(I, to_str(s), a, k))

    for name in ('replace', 'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith',
                 'endswith', 'find', 'rfind', 'index', 'rindex', 'count', 'isdigit', 'isalpha', 'isalnum',
                 'isidentifier', 'isspace', 'islower', 'isupper', 'isdecimal', 'isnumeric', 'title',
                 'capitalize', 'partition', 'rpartition', 'splitlines', 'encode', 'zfill', 'ljust', 'rjust',
                 'center', 'translate', 'casefold', 'swapcase', 'removeprefix', 'removesuffix', 'expandtabs',
                 'isascii', 'istitle', 'isprintable'):
        def sm(I, s, *a, name=name, **k):
            if isinstance(s, OpaqueStr) or any(isinstance(x, OpaqueStr) for x in a):
                if name == 'replace' and isinstance(s, OpaqueStr) and len(a) == 2 and s.parts and type(a[0]) is str and type(a[1]) is str and re.fullmatch(r'[^\[\]\d.]*', a[0]) and re.search(r'[^e+\-\sinfna]', a[0]):
                    # (text that is no part of any number)
                    out = []
                    for p in s.parts:
                        if isinstance(p, str) and out and isinstance(out[-1], str):
                            out[-1] += p
                        else:
                            out.append(p)
                    return OpaqueStr(tuple(p.replace(*a) if isinstance(p, str) else p for p in out))
                if name in ('replace', 'strip', 'rstrip', 'lstrip', 'lower', 'upper') and isinstance(s, OpaqueStr):
                    return OpaqueStr()
                raise Undecided('str.%s of a numeric string' % name)
            try:
                return from_host(I, getattr(s, name)(*[to_host(I, x) for x in a],
                                                     **{q: to_host(I, x) for q, x in k.items()}))
            except (ValueError, IndexError, KeyError, TypeError, UnicodeError) as e:
                raise I.exc(type(e).__name__, str(e))
        STR.ns[name] = NativeFn(name, sm)
    STR.ns['maketrans'] = NativeFn('maketrans', lambda I, *a: from_host(I, str.maketrans(*[to_host(I, x) for x in a])),
                                   bind=False)
    BYTES.ns['decode'] = NativeFn('decode', lambda I, s, *a: s.decode(*a))
    BYTES.ns['__len__'] = NativeFn('__len__', lambda I, s: len(s))

    # ---- tuple
    def tuple_new(I, cls, it=()):
        r = tuple(I.iterate(it))
        if cls is not TUPLE:
            raise Undecided('tuple subclass')
        return r
    TUPLE.ns['__new__'] = NativeFn('__new__', tuple_new, bind=False)
    TUPLE.ns['__len__'] = NativeFn('__len__', lambda I, s: len(s))
    TUPLE.ns['__iter__'] = NativeFn('__iter__', lambda I, s: AIter(iter(s)))
    TUPLE.ns['__getitem__'] = NativeFn('__getitem__', lambda I, s, k: seq_getitem(I, s, k))
    TUPLE.ns['__contains__'] = NativeFn('__contains__', lambda I, s, x: I.contains(s, x))

    def seq_index(I, s, x, *a):
        for i, y in enumerate(I.iterate(s)):
            if I.is_(x, y) or I.truth(I.compare('eq', y, x)):
                return i
        raise I.exc('ValueError', 'x not in sequence')

    def seq_count(I, s, x):
        return len([y for y in I.iterate(s) if I.is_(x, y) or I.truth(I.compare('eq', y, x))])
    for c in (TUPLE, LIST):
        c.ns['index'] = NativeFn('index', seq_index)
        c.ns['count'] = NativeFn('count', seq_count)

    # ---- list
    def list_new(I, cls, it=()):
        l = AList([], cls)
        return l
    LIST.ns['__new__'] = NativeFn('__new__', lambda I, cls, *a, **k: AList([], cls), bind=False)

    def list_init(I, self, it=()):
        self.items = list(I.iterate(it))
    LIST.ns['__init__'] = NativeFn('__init__', list_init)
    LIST.ns['__len__'] = NativeFn('__len__', lambda I, s: len(s.items))
    LIST.ns['__iter__'] = NativeFn('__iter__', lambda I, s: AIter(I._list_iter(s)))
    LIST.ns['__contains__'] = NativeFn('__contains__', lambda I, s, x: I.contains(s, x))

    def list_getitem(I, s, k):
        if isinstance(k, slice):
            return AList(s.items[cslice(I, k)], LIST)
        return seq_getitem(I, s.items, k)
    LIST.ns['__getitem__'] = NativeFn('__getitem__', list_getitem)

    def list_setitem(I, s, k, v):
        if isinstance(k, slice):
            s.items[cslice(I, k)] = list(I.iterate(v))
        else:
            try:
                s.items[concrete_index(I, k)] = v
            except IndexError as e:
                raise I.exc('IndexError', str(e))
    LIST.ns['__setitem__'] = NativeFn('__setitem__', list_setitem)

    def list_delitem(I, s, k):
        try:
            del s.items[cslice(I, k) if isinstance(k, slice) else concrete_index(I, k)]
        except IndexError as e:
            raise I.exc('IndexError', str(e))
    LIST.ns['__delitem__'] = NativeFn('__delitem__', list_delitem)
    LIST.ns['append'] = NativeFn('append', lambda I, s, x: s.items.append(x))

    def list_extend(I, s, it):
        s.items.extend(list(I.iterate(it)))
    LIST.ns['extend'] = NativeFn('extend', list_extend)
    LIST.ns['insert'] = NativeFn('insert', lambda I, s, i, x: s.items.insert(concrete_index(I, i), x))

    def list_pop(I, s, i=-1):
        if not s.items:
            raise I.exc('IndexError', 'pop from empty list')
        try:
            return s.items.pop(concrete_index(I, i))
        except IndexError as e:
            raise I.exc('IndexError', str(e))
    LIST.ns['pop'] = NativeFn('pop', list_pop)

    def list_remove(I, s, x):
        del s.items[seq_index(I, s, x)]
    LIST.ns['remove'] = NativeFn('remove', list_remove)
    LIST.ns['clear'] = NativeFn('clear', lambda I, s: s.items.clear())
    LIST.ns['reverse'] = NativeFn('reverse', lambda I, s: s.items.reverse())
    LIST.ns['copy'] = NativeFn('copy', lambda I, s: AList(list(s.items), LIST))

    def list_sort(I, s, key=None, reverse=False):
        s.items[:] = sort_items(I, s.items, key, reverse)
    LIST.ns['sort'] = NativeFn('sort', list_sort)

    def list_add(I, s, o):
        if not isinstance(o, AList):
            return NotImplemented
        return AList(s.items + o.items, LIST)
    LIST.ns['__add__'] = NativeFn('__add__', list_add)

    def list_iadd(I, s, o):
        s.items.extend(list(I.iterate(o)))
        return s
    LIST.ns['__iadd__'] = NativeFn('__iadd__', list_iadd)

    def list_mul(I, s, n):
        if isinstance(n, SNum) and n.kind == 'int' or isinstance(n, AArr) and not n.shape and n.dtype.kind == 'i':
            n = concrete_index(I, n)
        if not isinstance(n, int):
            return NotImplemented
        return AList(s.items * n, LIST)
    LIST.ns['__mul__'] = NativeFn('__mul__', list_mul)
    LIST.ns['__rmul__'] = NativeFn('__rmul__', list_mul)
    LIST.ns['__imul__'] = NativeFn('__imul__', list_mul)
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        def lc(I, s, o, op=op):
            if not isinstance(o, AList):
                return NotImplemented
            return seq_compare(I, op, s.items, o.items)
        LIST.ns['__%s__' % op] = NativeFn('__%s__' % op, lc)
    LIST.ns['__hash__'] = None

    # ---- dict
    DICT.ns['__new__'] = NativeFn('__new__', lambda I, cls, *a, **k: ADict(cls), bind=False)

    def dict_update(I, self, *a, **k):
        if len(a) > 1:
            raise I.exc('TypeError', 'update expected at most 1 argument')
        if a:
            src = a[0]
            if isinstance(src, ADict) or I.getattr(src, 'keys', None) is not None:
                pairs = dict_pairs(I, src)
            else:
                pairs = []
                for x in I.iterate(src):
                    x = I.to_list(x)
                    if len(x) != 2:
                        raise I.exc('ValueError', 'dictionary update sequence element has wrong length')
                    pairs.append(tuple(x))
            for kk, vv in pairs:
                dset(I, self, kk, vv)
        for kk, vv in k.items():
            dset(I, self, kk, vv)
    DICT.ns['__init__'] = NativeFn('__init__', dict_update)
    DICT.ns['update'] = NativeFn('update', dict_update)
    DICT.ns['__len__'] = NativeFn('__len__', lambda I, s: len(s.entries))
    DICT.ns['__contains__'] = NativeFn('__contains__', lambda I, s, k: dfind(I, s, k) is not None)

    def dict_iter(I, s):
        return AIter(_diter(I, s, lambda e: e[0]))

    def _diter(I, s, f):
        n = len(s.entries)
        for e in list(s.entries.values()):
            if len(s.entries) != n:
                raise I.exc('RuntimeError', 'dictionary changed size during iteration')
            yield f(e)
        # (a change during the last step is not an error)
    DICT.ns['__iter__'] = NativeFn('__iter__', dict_iter)

    class View:
        def __init__(self, d, kind):
            self.d, self.kind = d, kind
    VIEW = AClass('dict_view', (OBJECT,), {})
    _types[View] = VIEW
    pick = {'keys': lambda e: e[0], 'values': lambda e: e[1], 'items': lambda e: (e[0], e[1])}
    VIEW.ns['__iter__'] = NativeFn('__iter__', lambda I, v: AIter(_diter(I, v.d, pick[v.kind])))
    VIEW.ns['__len__'] = NativeFn('__len__', lambda I, v: len(v.d.entries))

    def view_contains(I, v, x):
        if v.kind == 'keys':
            return dfind(I, v.d, x) is not None
        for e in list(v.d.entries.values()):
            y = pick[v.kind](e)
            if I.is_(x, y) or I.truth(I.compare('eq', y, x)):
                return True
        return False
    VIEW.ns['__contains__'] = NativeFn('__contains__', view_contains)

    def view_eq(I, v, o):
        a, b = to_aset(I, v), to_aset(I, o)
        if b is None:
            return NotImplemented
        return set_cmp(I, 'eq', a, b)
    VIEW.ns['__eq__'] = NativeFn('__eq__', view_eq)
    VIEW.ns['__ne__'] = NativeFn('__ne__', lambda I, v, o: (lambda r: r if r is NotImplemented else not r)(view_eq(I, v, o)))
    for op in ('and', 'or', 'sub', 'xor'):
        VIEW.ns['__%s__' % op] = NativeFn(op, lambda I, v, o, op=op: set_op(I, op, to_aset(I, v), o))
    for k in pick:
        DICT.ns[k] = NativeFn(k, lambda I, s, k=k: View(s, k))

    def dict_getitem(I, s, k):
        v = dget(I, s, k)
        if v is MISSING:
            m = s.cls.lookup('__missing__')
            if m is not MISSING:
                return I.call(I.bind(m, s, s.cls), [k])
            raise I.exc('KeyError', k)
        return v
    DICT.ns['__getitem__'] = NativeFn('__getitem__', dict_getitem)
    DICT.ns['__setitem__'] = NativeFn('__setitem__', lambda I, s, k, v: dset(I, s, k, v))

    def dict_delitem(I, s, k):
        if ddel(I, s, k) is MISSING:
            raise I.exc('KeyError', k)
    DICT.ns['__delitem__'] = NativeFn('__delitem__', dict_delitem)
    DICT.ns['get'] = NativeFn('get', lambda I, s, k, d=None: dget(I, s, k, d))

    def dict_pop(I, s, k, *d):
        v = ddel(I, s, k)
        if v is MISSING:
            if d:
                return d[0]
            raise I.exc('KeyError', k)
        return v
    DICT.ns['pop'] = NativeFn('pop', dict_pop)

    def dict_popitem(I, s):
        if not s.entries:
            raise I.exc('KeyError', 'popitem(): dictionary is empty')
        k = list(s.entries.values())[-1][0]
        v = ddel(I, s, k)
        return (k, v)
    DICT.ns['popitem'] = NativeFn('popitem', dict_popitem)

    def dict_setdefault(I, s, k, d=None):
        v = dget(I, s, k)
        if v is MISSING:
            dset(I, s, k, d)
            return d
        return v
    DICT.ns['setdefault'] = NativeFn('setdefault', dict_setdefault)

    def dict_clear(I, s):
        s.entries.clear()
        s.table.clear()
        if isinstance(s.attrs.get('ns'), dict):
            s.attrs['ns'].clear()
    DICT.ns['clear'] = NativeFn('clear', dict_clear)

    def dict_copy(I, s):
        return make_dict(I, [tuple(e) for e in s.entries.values()])
    DICT.ns['copy'] = NativeFn('copy', dict_copy)
    DICT.ns['fromkeys'] = AClassMethod(NativeFn('fromkeys', lambda I, cls, it, v=None: _fromkeys(I, cls, it, v)))

    def _fromkeys(I, cls, it, v):
        d = I.call(cls, [])
        for k in I.iterate(it):
            I.setitem(d, k, v)
        return d

    def dict_eq(I, s, o):
        if not isinstance(o, ADict):
            return NotImplemented
        if len(s.entries) != len(o.entries):
            return False
        for k, v in list(s.entries.values()):
            w = dget(I, o, k)
            if w is MISSING or not (I.is_(v, w) or I.truth(I.compare('eq', v, w))):
                return False
        return True
    DICT.ns['__eq__'] = NativeFn('__eq__', dict_eq)

    def dict_ne(I, s, o):
        r = dict_eq(I, s, o)
        return r if r is NotImplemented else not r
    DICT.ns['__ne__'] = NativeFn('__ne__', dict_ne)
    DICT.ns['__hash__'] = None

    def dict_or(I, s, o):
        if not isinstance(o, ADict):
            return NotImplemented
        d = make_dict(I, [tuple(e) for e in s.entries.values()])
        dict_update(I, d, o)
        return d
    DICT.ns['__or__'] = NativeFn('__or__', dict_or)

    def dict_ior(I, s, o):
        dict_update(I, s, o)
        return s
    DICT.ns['__ior__'] = NativeFn('__ior__', dict_ior)
    DICT.ns['__reversed__'] = NativeFn('__reversed__', lambda I, s: AIter(iter([e[0] for e in s.entries.values()][::-1])))
    DICT.ns['__repr__'] = NativeFn('__repr__', lambda I, s: dict_repr(I, s))

    def dict_repr(I, v):
        parts = []
        for k, x in v.entries.values():
            parts += [repr_(I, k), ': ', repr_(I, x), ', ']
        return str_concat(['{'] + parts[:-1] + ['}'])

    # ---- sets
    def to_aset(I, v):
        if isinstance(v, ASet):
            return v
        if isinstance(v, (View,)) or isinstance(v, (AList, tuple, AIter, ADict, range, str)):
            return make_set(I, list(I.iterate(v)))
        return None

    def set_op(I, op, a, b, strict=True):
        bs = to_aset(I, b)
        if bs is None:
            return NotImplemented
        ka = [e[0] for e in a.d.entries.values()]
        kb = [e[0] for e in bs.d.entries.values()]
        ina = lambda x: dfind(I, a.d, x) is not None
        inb = lambda x: dfind(I, bs.d, x) is not None
        if op == 'and':
            r = [x for x in ka if inb(x)]
        elif op == 'or':
            r = ka + [x for x in kb if not ina(x)]
        elif op == 'sub':
            r = [x for x in ka if not inb(x)]
        else:
            r = [x for x in ka if not inb(x)] + [x for x in kb if not ina(x)]
        return make_set(I, r, a.cls if a.cls is FROZENSET else SET)

    def set_cmp(I, op, a, b):
        if not isinstance(b, ASet):
            return NotImplemented
        sub = all(dfind(I, b.d, e[0]) is not None for e in list(a.d.entries.values()))
        sup = all(dfind(I, a.d, e[0]) is not None for e in list(b.d.entries.values()))
        return {'eq': sub and sup, 'ne': not (sub and sup), 'le': sub, 'lt': sub and not sup,
                'ge': sup, 'gt': sup and not sub}[op]

    for c in (SET, FROZENSET):
        c.ns['__new__'] = NativeFn('__new__', lambda I, cls, it=(): make_set(I, list(I.iterate(it)), cls), bind=False)
        c.ns['__len__'] = NativeFn('__len__', lambda I, s: len(s.d.entries))
        c.ns['__contains__'] = NativeFn('__contains__', lambda I, s, x: dfind(I, s.d, x) is not None)
        c.ns['__iter__'] = NativeFn('__iter__', lambda I, s: AIter(iter([e[0] for e in s.d.entries.values()])))
        for op, m in (('and', 'intersection'), ('or', 'union'), ('sub', 'difference'), ('xor', 'symmetric_difference')):
            def so(I, s, o, op=op):
                if not isinstance(o, (ASet, View)):
                    return NotImplemented
                return set_op(I, op, s, o)

            def sm(I, s, *os, op=op):
                for o in os:
                    s = set_op(I, op, s, make_set(I, list(I.iterate(o))))
                return s if os else make_set(I, [e[0] for e in s.d.entries.values()], s.cls)
            c.ns['__%s__' % op] = NativeFn(op, so)
            c.ns[m] = NativeFn(m, sm)
        for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            c.ns['__%s__' % op] = NativeFn(op, lambda I, s, o, op=op: set_cmp(I, op, s, o))
        c.ns['issubset'] = NativeFn('issubset', lambda I, s, o: set_cmp(I, 'le', s, make_set(I, list(I.iterate(o)))))
        c.ns['issuperset'] = NativeFn('issuperset', lambda I, s, o: set_cmp(I, 'ge', s, make_set(I, list(I.iterate(o)))))
        c.ns['isdisjoint'] = NativeFn('isdisjoint', lambda I, s, o: not set_op(I, 'and', s, make_set(I, list(I.iterate(o)))).d.entries)
        c.ns['copy'] = NativeFn('copy', lambda I, s: make_set(I, [e[0] for e in s.d.entries.values()], s.cls))
    SET.ns['__hash__'] = None
    FROZENSET.ns['__hash__'] = NativeFn('__hash__', lambda I, s: AHash(0, frozenset([('fs',) + (frozenset(hkey(I, e[0]) for e in s.d.entries.values()),)])))
    SET.ns['add'] = NativeFn('add', lambda I, s, x: dset(I, s.d, x, None))

    def set_discard(I, s, x):
        ddel(I, s.d, x)
    SET.ns['discard'] = NativeFn('discard', set_discard)

    def set_remove(I, s, x):
        if ddel(I, s.d, x) is MISSING:
            raise I.exc('KeyError', x)
    SET.ns['remove'] = NativeFn('remove', set_remove)

    def set_update(I, s, *its):
        for it in its:
            for x in I.to_list(it):
                dset(I, s.d, x, None)
    SET.ns['update'] = NativeFn('update', set_update)

    def set_ior(I, s, o):
        set_update(I, s, o)
        return s
    SET.ns['__ior__'] = NativeFn('__ior__', set_ior)

    def set_clear(I, s):
        s.d = ADict(DICT)
    SET.ns['clear'] = NativeFn('clear', set_clear)

    # ---- iterators
    def iter_next(I, it):
        try:
            return next(it.it)
        except StopIteration:
            raise I.exc('StopIteration')
    ITER.ns['__next__'] = NativeFn('__next__', iter_next)
    ITER.ns['__iter__'] = NativeFn('__iter__', lambda I, it: it)

    def gen_method(name):
        def f(I, it, *a):
            g = it.it
            if not hasattr(g, 'resume'):
                raise I.exc('AttributeError', name)
            try:
                if name == 'send':
                    return g.resume(a[0], None)
                if name == 'throw':
                    e = a[0] if not isinstance(a[0], AClass) else I.call(a[0], [])
                    return g.resume(None, PyRaise(e))
            except StopIteration:
                raise I.exc('StopIteration')
            if g.state == 'new':
                g.state = 'done'
            elif g.state != 'done':
                try:
                    g.resume(None, I.exc('GeneratorExit'))
                except StopIteration:
                    return None
                except PyRaise as e:
                    if e.exc.cls.name != 'GeneratorExit':
                        raise
            return None
        return NativeFn(name, f)
    for n in ('send', 'throw', 'close'):
        ITER.ns[n] = gen_method(n)

    # ---- slices, ranges
    SLICE.ns['__new__'] = NativeFn('__new__', lambda I, cls, *a: slice(*a), bind=False)
    for n in ('start', 'stop', 'step'):
        SLICE.ns[n] = NProperty(n, lambda I, s, n=n: getattr(s, n))
    SLICE.ns['indices'] = NativeFn('indices', lambda I, s, n: cslice(I, s).indices(concrete_index(I, n)))

    def range_new(I, cls, *a):
        return range(*[concrete_index(I, x) for x in a])
    RANGE.ns['__new__'] = NativeFn('__new__', range_new, bind=False)
    RANGE.ns['__len__'] = NativeFn('__len__', lambda I, r: len(r))
    RANGE.ns['__iter__'] = NativeFn('__iter__', lambda I, r: AIter(iter(r)))
    RANGE.ns['__getitem__'] = NativeFn('__getitem__', lambda I, r, k: seq_getitem(I, r, k))

    # ---- descriptors
    PROPERTY.ns['__new__'] = NativeFn('__new__', lambda I, cls, fget=None, fset=None, fdel=None, doc=None:
                                      AProperty(fget, fset, fdel, doc), bind=False)
    CLASSMETHOD.ns['__new__'] = NativeFn('__new__', lambda I, cls, f: AClassMethod(f), bind=False)
    STATICMETHOD.ns['__new__'] = NativeFn('__new__', lambda I, cls, f: AStaticMethod(f), bind=False)

    def super_new(I, cls, *a):
        if len(a) != 2:
            raise Undecided('super() form')
        return ASuper(a[0], a[1])
    SUPER.ns['__new__'] = NativeFn('__new__', super_new, bind=False)
    FUNCTION.ns['__get__'] = MISSING
    del FUNCTION.ns['__get__']

    # ---- functions
    @native('len')
    def _len(I, v):
        m = I.special(v, '__len__')
        if m is MISSING:
            raise I.exc('TypeError', 'object of type %r has no len()' % type_of(v).name)
        return I.call(m, [])

    @native('isinstance')
    def _isinstance(I, v, c):
        return I.isinstance(v, c)

    @native('issubclass')
    def _issubclass(I, v, c):
        if not isinstance(v, AClass):
            raise I.exc('TypeError', 'issubclass() arg 1 must be a class')
        if isinstance(c, UnionType):
            c = c.union
        if isinstance(c, tuple):
            return any(_issubclass(I, v, x) for x in c)
        if not isinstance(c, AClass):
            raise I.exc('TypeError', 'issubclass() arg 2 must be a class')
        return v.issub(c)

    @native('getattr')
    def _getattr(I, o, n, *d):
        return I.getattr(o, n, d[0] if d else MISSING)

    @native('hasattr')
    def _hasattr(I, o, n):
        return I.getattr(o, n, MISSING2) is not MISSING2
    MISSING2 = object()

    @native('setattr')
    def _setattr(I, o, n, v):
        I.setattr(o, n, v)

    @native('delattr')
    def _delattr(I, o, n):
        I.delattr(o, n)

    @native('callable')
    def _callable(I, o):
        return isinstance(o, (AFunc, NativeFn, BoundMethod, AClass)) or hasattr(o, 'native_call') or \
            type_of(o).lookup('__call__') is not MISSING

    @native('hash')
    def _hash(I, v):
        return hash_of(I, v)

    @native('id')
    def _id(I, v):
        return id(v)

    @native('repr')
    def _repr(I, v):
        return repr_(I, v)
    B['ascii'] = B['repr']

    @native('format')
    def _format(I, v, spec=''):
        return format_(I, v, spec)

    def abs_(I, v):
        if isinstance(v, SNum):
            if v.t.op == 'inf':
                return SNum(T.const(abs(float(v.t.args[0]))), v.kind)
            return mknum(T.absolute(v.t), 'float' if v.kind == 'complex' else v.kind)
        if isinstance(v, int):
            return abs(v)
        m = I.special(v, '__abs__')
        if m is MISSING:
            raise I.exc('TypeError', 'bad operand type for abs()')
        return I.call(m, [])
    B['abs'] = NativeFn('abs', abs_, bind=False)

    @native('round')
    def _round(I, v, nd=None):
        if isinstance(v, (int, SNum)):
            if isinstance(v, int) and nd is None:
                return v
            t = term_of(v)
            if t.op == 'const' and (nd is None or isinstance(nd, int)):
                r = round(t.args[0]) if nd is None else round(t.args[0], nd)
                return int(r) if nd is None else SNum(T.const(Fraction(r)), kind_of(v))
            return SNum(T.fn('round', t, T.const(nd or 0) if not isinstance(nd, SNum) else nd.t),
                        'int' if nd is None else kind_of(v))
        m = I.special(v, '__round__')
        if m is MISSING:
            raise I.exc('TypeError', 'type doesn\'t define __round__ method')
        return I.call(m, [] if nd is None else [nd])

    @native('divmod')
    def _divmod(I, a, b):
        if isinstance(a, (int, SNum)) and isinstance(b, (int, SNum)):
            return (I.binop('floordiv', a, b), I.binop('mod', a, b))
        if not isinstance(a, (int, float, SNum)):
            m = I.special(a, '__divmod__')
            if m is not MISSING:
                r = I.call(m, [b])
                if r is not NotImplemented:
                    return r
        if not isinstance(b, (int, float, SNum)):
            m = I.special(b, '__rdivmod__')
            if m is not MISSING:
                r = I.call(m, [a])
                if r is not NotImplemented:
                    return r
        raise Undecided('divmod')

    @native('pow')
    def _pow(I, a, b, *m):
        if m:
            raise Undecided('pow with modulus')
        return I.binop('pow', a, b)

    @native('sum')
    def _sum(I, it, start=0):
        r = start
        for x in I.iterate(it):
            r = I.binop('add', r, x)
        return r

    def minmax(op):
        def f(I, *a, key=None, default=MISSING):
            items = I.to_list(a[0]) if len(a) == 1 else list(a)
            if not items:
                if default is not MISSING:
                    return default
                raise I.exc('ValueError', 'arg is an empty sequence')
            best = items[0]
            kb = I.call(key, [best]) if key is not None else best
            for x in items[1:]:
                kx = I.call(key, [x]) if key is not None else x
                if I.truth(I.compare(op, kx, kb)):
                    best, kb = x, kx
            return best
        return f
    B['min'] = NativeFn('min', minmax('lt'), bind=False)
    B['max'] = NativeFn('max', minmax('gt'), bind=False)

    @native('any')
    def _any(I, it):
        for x in I.iterate(it):
            if I.truth(x):
                return True
        return False

    @native('all')
    def _all(I, it):
        for x in I.iterate(it):
            if not I.truth(x):
                return False
        return True

    def sort_items(I, items, key=None, reverse=False):
        import functools
        reverse = I.truth(reverse)
        dec = [(I.call(key, [x]) if key is not None else x, x) for x in items]

        def cmp(a, b):
            if I.truth(I.compare('lt', a[0], b[0])):
                return -1
            if I.truth(I.compare('lt', b[0], a[0])):
                return 1
            return 0
        dec = sorted(dec, key=functools.cmp_to_key(cmp), reverse=reverse)
        return [x for _, x in dec]

    @native('sorted')
    def _sorted(I, it, key=None, reverse=False):
        return AList(sort_items(I, I.to_list(it), key, reverse), LIST)

    @native('reversed')
    def _reversed(I, it):
        m = I.special(it, '__reversed__')
        if m is not MISSING:
            return I.call(m, [])
        return AIter(iter(I.to_list(it)[::-1]))

    @native('enumerate')
    def _enumerate(I, it, start=0):
        return AIter(enumerate(I.iterate(it), start))

    @native('zip')
    def _zip(I, *its, strict=False):
        if strict:
            ls = [I.to_list(x) for x in its]
            if len({len(x) for x in ls}) > 1:
                raise I.exc('ValueError', 'zip() arguments have different lengths')
            return AIter(zip(*ls))
        return AIter(zip(*[I.iterate(x) for x in its]))

    @native('map')
    def _map(I, f, *its):
        return AIter(I.call(f, list(a)) for a in zip(*[I.iterate(x) for x in its]))

    @native('filter')
    def _filter(I, f, it):
        return AIter(x for x in I.iterate(it) if I.truth(x if f is None else I.call(f, [x])))

    @native('iter')
    def _iter(I, v, *s):
        if s:
            raise Undecided('iter with sentinel')
        if isinstance(v, AIter):
            return v
        return AIter(iter(I.iterate(v)))

    @native('next')
    def _next(I, it, *d):
        if isinstance(it, AIter):
            try:
                return next(it.it)
            except StopIteration:
                if d:
                    return d[0]
                raise I.exc('StopIteration')
        m = I.special(it, '__next__')
        if m is MISSING:
            raise I.exc('TypeError', 'object is not an iterator')
        try:
            return I.call(m, [])
        except PyRaise as e:
            if d and e.exc.cls.issub(EXC['StopIteration']):
                return d[0]
            raise

    @native('print')
    def _print(I, *a, **k):
        return None

    @native('vars')
    def _vars(I, o):
        return I.getattr(o, '__dict__')

    @native('dir')
    def _dir(I, o):
        names = set()
        if isinstance(o, AModule):
            names |= set(o.ns)
        else:
            names |= set(I.instance_attrs(o) or ())
            for c in type_of(o).mro:
                names |= set(c.ns)
        return AList(sorted(names), LIST)

    @native('chr')
    def _chr(I, n):
        return chr(to_host(I, n))

    @native('ord')
    def _ord(I, s):
        return ord(to_host(I, s))

    @native('__import__')
    def _import(I, name, *a, **k):
        m = I.import_module(name)
        return m if '.' not in name else I.import_module(name.split('.')[0])

    NATIVE_LOCALS = B['locals'] = NativeFn('locals', lambda I: None, bind=False)
    NATIVE_GLOBALS = B['globals'] = NativeFn('globals', lambda I: None, bind=False)

    from . import stdlib
    B['eval'] = NativeFn('eval', stdlib.do_eval, bind=False)
    B['compile'] = NativeFn('compile', stdlib.do_compile, bind=False)
    B['exec'] = NativeFn('exec', stdlib.do_exec, bind=False)
    B['open'] = NativeFn('open', stdlib.do_open, bind=False)
    I.NATIVE_SUPER = SUPER
    return B


def sort_key(x):
    return x
