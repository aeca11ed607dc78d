"""Models of the standard library modules used by the analysed package."""
import ast
import math
import re

from . import paths
from . import term as T
from .builtins_ import *
from .builtins_ import _exc_class
from .paths import Undecided
from .values import *


def nf(name, f):
    return NativeFn(name, f, bind=False)


# ---------------------------------------------------------------- host objects
_SAFE = {'re', 'match', 'ast'}


def _host_getattr(self, I, name):
    if self.kind not in _SAFE:
        raise Undecided('attribute %s of a host object' % name)
    try:
        a = getattr(self.v, name)
    except AttributeError as e:
        raise I.exc('AttributeError', str(e))
    if callable(a) and not isinstance(a, ast.AST):
        def f(I, *args, **kw):
            return host_call(I, a, args, kw)
        return nf(name, f)
    return from_host(I, a)


HostObj.native_getattr = _host_getattr


def host_call(I, f, args, kw):
    def conv(x):
        if isinstance(x, (AFunc, BoundMethod, NativeFn)):
            return lambda *a: to_host(I, I.call(x, [wrap_host(I, y) for y in a]))
        return to_host(I, x)
    try:
        r = f(*[conv(a) for a in args], **{k: conv(v) for k, v in kw.items()})
    except (Undecided, PyRaise):
        raise
    except Exception as e:
        if type(e).__name__ in EXC:
            raise I.exc(type(e).__name__, str(e))
        raise I.exc('ValueError', str(e))
    return from_host(I, r)


_astcls = {}


def ast_class(t):
    c = _astcls.get(t)
    if c is None:
        bases = tuple(ast_class(b) if b is not object else OBJECT for b in t.__bases__)
        c = _astcls[t] = AClass(t.__name__, bases, {}, 'ast')
        c.host = t
    return c


def wrap_host(I, v):
    if isinstance(v, re.Pattern):
        return HostObj(v, 're')
    if isinstance(v, re.Match):
        return HostObj(v, 'match')
    if isinstance(v, ast.AST):
        h = HostObj(v, 'ast')
        h.cls = ast_class(type(v))
        return h
    if isinstance(v, (str, int, float, tuple, list, type(None))):
        return from_host(I, v)
    if hasattr(v, '__next__'):
        return AIter(from_host(I, x) for x in v)
    return HostObj(v, 'other')


# --------------------------------------------------------------------- eval
class DictNs:
    """a namespace backed by an abstract dict"""
    def __init__(self, I, d):
        self.I, self.d = I, d

    def __contains__(self, k):
        return ('s', k) in self.d.table

    def __getitem__(self, k):
        return self.d.entries[self.d.table[('s', k)][0]][1]

    def get(self, k, default=None):
        return self[k] if k in self else default

    def __setitem__(self, k, v):
        dset(self.I, self.d, k, v)


def do_compile(I, source, filename='', mode='exec', *a, **k):
    if isinstance(source, str):
        return HostObj(host_parse(I, source, mode), 'code')
    if isinstance(source, HostObj) and isinstance(source.v, ast.AST):
        if mode == 'eval' and not isinstance(source.v, ast.Expression):
            raise I.exc('TypeError', 'expected Expression node')
        return HostObj(source.v, 'code')
    raise Undecided('compile')


def host_parse(I, s, mode='exec'):
    if isinstance(s, OpaqueStr):
        raise Undecided('parse of a numeric string')
    if not isinstance(s, str):
        raise I.exc('TypeError', 'compile() arg 1 must be a string')
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return ast.parse(s, mode=mode)
    except (SyntaxError, ValueError, RecursionError, MemoryError) as e:
        raise I.exc(type(e).__name__, str(e))


def do_eval(I, src, g=None, l=None):
    from .interp import Env
    if isinstance(src, str):
        tree = host_parse(I, src.strip(), 'eval')
    elif isinstance(src, HostObj) and isinstance(src.v, ast.Expression):
        tree = src.v
    else:
        raise Undecided('eval')
    if g is None:
        raise Undecided('eval without namespaces')
    glob = DictNs(I, g)
    loc = DictNs(I, l) if isinstance(l, ADict) else glob
    env = Env(None, glob, None, 'class', None)
    env.vars = loc
    return I.eval(tree.body, env)


def do_exec(I, *a, **k):
    raise Undecided('exec')


def do_open(I, *a, **k):
    raise Undecided('open')


# ------------------------------------------------------- reduce, copy, pickle
def newobj(I, cls, *args):
    return I.call(I.getattr(cls, '__new__'), [cls] + list(args))


NEWOBJ = nf('__newobj__', newobj)


def getstate(I, v):
    m = type_of(v).lookup('__getstate__')
    if m is not MISSING:
        return I.call(I.bind(m, v, type_of(v)), [])
    attrs = {k: x for k, x in (I.instance_attrs(v) or {}).items()}
    return make_dict(I, list(attrs.items())) if attrs else None


def default_reduce(I, v):
    cls = type_of(v)
    args = (cls,)
    m = cls.lookup('__getnewargs__')
    if m is not MISSING:
        args += tuple(I.iterate(I.call(I.bind(m, v, cls), [])))
    m = cls.lookup('__getnewargs_ex__')
    if m is not MISSING:
        raise Undecided('__getnewargs_ex__')
    dictitems = None
    listitems = None
    if isinstance(v, ADict):
        dictitems = AIter(iter([tuple(e) for e in v.entries.values()]))
    if isinstance(v, AList):
        listitems = AIter(iter(list(v.items)))
    return (NEWOBJ, args, getstate(I, v), listitems, dictitems)


def reduce_value(I, v, proto=4):
    cls = type_of(v)
    m = cls.lookup('__reduce_ex__')
    if m is not MISSING and m is not OBJECT.ns['__reduce_ex__']:
        return I.call(I.bind(m, v, cls), [proto])
    m = cls.lookup('__reduce__')
    if m is not MISSING and m is not OBJECT.ns['__reduce__']:
        return I.call(I.bind(m, v, cls), [])
    return default_reduce(I, v)


_ATOMIC = (AFunc, NativeFn, AClass, AModule, HostObj, SNum, OpaqueStr, ADtype, slice, range, BoundMethod)


def is_atomic(v):
    return v is None or isinstance(v, (int, str, bytes)) or isinstance(v, _ATOMIC) or \
        hasattr(v, 'native_call') or v is Ellipsis or v is NotImplemented or isinstance(v, T.Term)


def reconstruct(I, v, rv, memo, deep):
    if isinstance(rv, str):
        return v
    if not isinstance(rv, tuple) or len(rv) < 2:
        raise I.exc('TypeError', '__reduce__ must return a string or tuple')
    rv = list(rv) + [None] * (6 - len(rv))
    func, args, state, li, di = rv[:5]
    args = I.to_list(args)
    if deep:
        args = [deep(x) for x in args]
    y = I.call(func, args)
    if memo is not None:
        memo[id(v)] = (y, v)
    if state is not None:
        if deep:
            state = deep(state)
        m = I.getattr(y, '__setstate__', None)
        if m is not None:
            I.call(m, [state])
        else:
            slots = None
            if isinstance(state, tuple) and len(state) == 2:
                state, slots = state
            if state is not None:
                for k, x in dict_pairs(I, state):
                    I.instance_attrs(y)[k] = x
            if slots is not None:
                for k, x in dict_pairs(I, slots):
                    I.setattr(y, k, x)
    if li is not None:
        for x in I.iterate(li):
            I.call(I.getattr(y, 'append'), [deep(x) if deep else x])
    if di is not None:
        for kx in I.iterate(di):
            k, x = I.to_list(kx)
            if deep:
                k, x = deep(k), deep(x)
            I.setitem(y, k, x)
    return y


def _memo_of(I, memo):
    """host side of the memo dictionary"""
    if memo is None:
        memo = ADict(DICT)
    h = memo.attrs.get('memo')
    if h is None:
        h = memo.attrs['memo'] = {}
    return memo, h


def deepcopy(I, v, memo=None, *a):
    if not (memo is None or isinstance(memo, ADict)):
        raise Undecided('deepcopy memo')
    memo, h = _memo_of(I, memo)
    if id(v) in h:
        return h[id(v)][0]
    if is_atomic(v):
        return v
    deep = lambda x: deepcopy(I, x, memo)
    if isinstance(v, tuple):
        r = tuple(deep(x) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    cls = type_of(v)
    if isinstance(v, AList) and cls is LIST:
        r = AList([], LIST)
        h[id(v)] = (r, v)
        r.items = [deep(x) for x in v.items]
        return r
    if isinstance(v, ADict) and cls is DICT:
        r = ADict(DICT)
        h[id(v)] = (r, v)
        for k, x in list(v.entries.values()):
            dset(I, r, deep(k), deep(x))
        return r
    m = cls.lookup('__deepcopy__')
    if m is not MISSING:
        r = I.call(I.bind(m, v, cls), [memo])
    else:
        r = reconstruct(I, v, reduce_value(I, v, 4), h, deep)
    h[id(v)] = (r, v)
    return r


def shallow_copy(I, v):
    if is_atomic(v) or isinstance(v, tuple):
        return v
    cls = type_of(v)
    if isinstance(v, AList) and cls is LIST:
        return AList(list(v.items), LIST)
    if isinstance(v, ADict) and cls is DICT:
        return make_dict(I, [tuple(e) for e in v.entries.values()])
    if isinstance(v, ASet):
        return make_set(I, [e[0] for e in v.d.entries.values()], v.cls)
    m = cls.lookup('__copy__')
    if m is not MISSING:
        return I.call(I.bind(m, v, cls), [])
    return reconstruct(I, v, reduce_value(I, v, 4), None, None)


def pickle_roundtrip(I, v, proto=2):
    memo = {}

    def rt(v):
        if id(v) in memo:
            return memo[id(v)][0]
        if isinstance(v, AFunc) and v.name == '<lambda>':
            raise I.exc('AttributeError', "Can't pickle local object")
        if is_atomic(v):
            return v
        if isinstance(v, tuple):
            r = tuple(rt(x) for x in v)
        elif isinstance(v, AList) and type_of(v) is LIST:
            r = AList([], LIST)
            memo[id(v)] = (r, v)
            r.items = [rt(x) for x in v.items]
            return r
        elif isinstance(v, ADict) and v.cls is DICT:
            r = ADict(DICT)
            memo[id(v)] = (r, v)
            for k, x in list(v.entries.values()):
                dset(I, r, rt(k), rt(x))
            return r
        elif isinstance(v, ASet):
            r = make_set(I, [rt(e[0]) for e in v.d.entries.values()], v.cls)
        else:
            r = reconstruct(I, v, reduce_value(I, v, proto), memo, rt)
        memo[id(v)] = (r, v)
        return r
    return rt(v)


# ------------------------------------------------------------------ modules
def install(I):
    M = I.native_modules
    from . import npmodel

    def module(name, **ns):
        m = AModule(name, ns)
        M[name] = m
        return m

    # copy, pickle
    module('copy', copy=nf('copy', shallow_copy), deepcopy=nf('deepcopy', deepcopy))
    M['copy'].ns['Error'] = EXC['Exception']
    module('copyreg', __newobj__=NEWOBJ)
    module('pickle', dumps=nf('dumps', lambda I, v, *a, **k: HostObj(v, 'pickle')),
           loads=nf('loads', lambda I, h, *a, **k: pickle_roundtrip(I, h.v)), HIGHEST_PROTOCOL=5)

    # operator
    ops = {}
    for op in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'xor', 'and', 'or', 'lshift', 'rshift',
               'matmul'):
        f = nf(op, lambda I, a, b, op=op: I.binop(op, a, b))
        g = nf('i' + op, lambda I, a, b, op=op: I.inplace(op, a, b))
        ops[op + '_' if op in ('and', 'or') else op] = f
        ops['__%s__' % op] = f
        ops['i' + op] = g
        ops['__i%s__' % op] = g
    for op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        ops[op] = nf(op, lambda I, a, b, op=op: I.compare(op, a, b))
    ops['neg'] = nf('neg', lambda I, a: I.unary('neg', a))
    ops['pos'] = nf('pos', lambda I, a: I.unary('pos', a))
    ops['invert'] = ops['inv'] = nf('invert', lambda I, a: I.unary('invert', a))
    ops['abs'] = I.builtins['abs']
    ops['not_'] = nf('not_', lambda I, a: not I.truth(a))
    ops['truth'] = nf('truth', lambda I, a: I.truth(a))
    ops['is_'] = nf('is_', lambda I, a, b: I.is_(a, b))
    ops['is_not'] = nf('is_not', lambda I, a, b: not I.is_(a, b))
    ops['contains'] = nf('contains', lambda I, a, b: I.contains(a, b))
    ops['getitem'] = nf('getitem', lambda I, a, b: I.getitem(a, b))
    ops['setitem'] = nf('setitem', lambda I, a, b, c: I.setitem(a, b, c))
    ops['index'] = nf('index', lambda I, a: concrete_index(I, a))

    def itemgetter(I, *ks):
        def get(I, o):
            r = tuple(I.getitem(o, k) for k in ks)
            return r[0] if len(ks) == 1 else r
        return nf('itemgetter', get)

    def attrgetter(I, *names):
        def one(o, n):
            for p in n.split('.'):
                o = I.getattr(o, p)
            return o

        def get(I, o):
            r = tuple(one(o, n) for n in names)
            return r[0] if len(names) == 1 else r
        return nf('attrgetter', get)
    ops['itemgetter'] = nf('itemgetter', itemgetter)
    ops['attrgetter'] = nf('attrgetter', attrgetter)
    ops['methodcaller'] = nf('methodcaller', lambda I, n, *a, **k: nf('mc', lambda I, o: I.call(I.getattr(o, n), list(a), k)))
    module('operator', **ops)

    # functools
    def wraps(I, wrapped, assigned=None, updated=None):
        def dec(I, f):
            if isinstance(f, (AFunc, NativeFn)):
                for k in ('__name__', '__doc__', '__qualname__', '__module__'):
                    v = I.getattr(wrapped, k, MISSING)
                    if v is not MISSING:
                        f.attrs[k] = v
                if isinstance(wrapped, (AFunc, NativeFn)):
                    for k, v in wrapped.attrs.items():
                        if not k.startswith('__'):
                            f.attrs[k] = v
                f.attrs['__wrapped__'] = wrapped
            return f
        return nf('wraps', dec)

    def partial(I, f, *a, **k):
        p = nf('partial', lambda I, *b, **q: I.call(f, list(a) + list(b), {**k, **q}))
        kd = ADict(DICT)
        for x in k:
            dset(I, kd, x, k[x])
        p.attrs.update({'func': f, 'args': tuple(a), 'keywords': kd})
        return p

    def lru_cache(I, maxsize=128, typed=False):
        def dec(I, f):
            cache = ADict(DICT)

            def call(I, *a, **k):
                key = tuple(a) + tuple(sorted(k.items()))
                v = dget(I, cache, key)
                if v is MISSING:
                    v = I.call(f, list(a), k)
                    dset(I, cache, key, v)
                return v
            g = NativeFn('cached', call)
            g.attrs['__wrapped__'] = f
            g.attrs['cache_clear'] = nf('cache_clear', lambda I: (cache.entries.clear(), cache.table.clear()) and None)
            g.attrs['__name__'] = I.getattr(f, '__name__', 'cached')
            g.attrs['__doc__'] = I.getattr(f, '__doc__', None)
            return g
        if isinstance(maxsize, (AFunc, NativeFn)):
            return dec(I, maxsize)
        return nf('lru_cache', dec)

    def reduce(I, f, it, *init):
        items = I.iterate(it)
        if init:
            r = init[0]
        else:
            try:
                r = next(items)
            except StopIteration:
                raise I.exc('TypeError', 'reduce() of empty iterable')
        for x in items:
            r = I.call(f, [r, x])
        return r

    def singledispatch(I, f):
        table = []

        def pick(I, v):
            for c in I.type_of(v).mro:
                for k, g in table:
                    if k is c:
                        return g
            return f
        d = NativeFn('singledispatch', lambda I, *a, **k: I.call(pick(I, a[0]), list(a), k))

        def register(I, c, g=None):
            if isinstance(c, AFunc):
                ann = next((x.annotation for x in c.node.args.posonlyargs + c.node.args.args if x.annotation), None)
                if ann is None:
                    raise Undecided('singledispatch without annotation')
                g, c = c, I.eval(ann, c.env)
            if g is None:
                return nf('register', lambda I, g: register(I, c, g))
            if not isinstance(c, AClass):
                raise Undecided('singledispatch for %r' % (c,))
            table.insert(0, (c, g))
            return g
        d.attrs['register'] = nf('register', register)
        d.attrs['dispatch'] = nf('dispatch', lambda I, c: _undec('singledispatch.dispatch'))
        for k in ('__name__', '__doc__'):
            d.attrs[k] = I.getattr(f, k, None)
        d.attrs['__wrapped__'] = f
        return d

    def cmp_to_key(I, f):
        K = AClass('K', (OBJECT,), {})
        K.ns['__lt__'] = NativeFn('__lt__', lambda I, a, b: I.compare('lt', I.call(f, [a.attrs['o'], b.attrs['o']]), 0))
        return nf('K', lambda I, o: Obj(K, {'o': o}))

    CP = AClass('cached_property', (OBJECT,), {}, 'functools')
    CP.ns['__init__'] = NativeFn('__init__', lambda I, s, f: s.attrs.update(f=f))
    CP.ns['__set_name__'] = NativeFn('__set_name__', lambda I, s, o, n: s.attrs.update(n=n))

    def cp_get(I, s, o, c=None):
        if o is None:
            return s
        v = I.call(s.attrs['f'], [o])
        I.instance_attrs(o)[s.attrs['n']] = v
        return v
    CP.ns['__get__'] = NativeFn('__get__', cp_get)
    PM = AClass('partialmethod', (OBJECT,), {}, 'functools')
    PM.ns['__init__'] = NativeFn('__init__', lambda I, s, f, *a, **k: s.attrs.update(f=f, a=a, k=k))

    def pm_get(I, s, o, c=None):
        f, a, k = s.attrs['f'], s.attrs['a'], s.attrs['k']
        if o is None:
            return nf('partialmethod', lambda I, o, *b, **q: I.call(f, [o] + list(a) + list(b), {**k, **q}))
        g = I.bind(f, o, c if c is not None else type_of(o))
        return nf('partialmethod', lambda I, *b, **q: I.call(g, list(a) + list(b), {**k, **q}))
    PM.ns['__get__'] = NativeFn('__get__', pm_get)

    def total_ordering(I, cls):
        have = [n for n in ('lt', 'le', 'gt', 'ge') if '__%s__' % n in cls.ns]
        if not have:
            raise I.exc('ValueError', 'must define at least one ordering operation: < > <= >=')
        root = have[0]

        def derived(op):
            def f(I, a, b):
                r = I.call(I.getattr(a, '__%s__' % root), [b])
                if r is NotImplemented:
                    return r
                less = I.truth(r)
                if root[0] != op[0]:        # the other direction
                    same = I.truth(I.compare('eq', a, b)) if root[1] == op[1] else False
                    if root[1] == op[1]:
                        return (not less or same) if op[1] == 'e' else (not less and not same)
                    return not less
                same = I.truth(I.compare('eq', a, b))
                return less or same if op[1] == 'e' else less and not same
            return NativeFn('__%s__' % op, f)
        for op in ('lt', 'le', 'gt', 'ge'):
            if op not in have:
                cls.ns['__%s__' % op] = derived(op)
        return cls
    module('functools', partialmethod=PM, total_ordering=nf('total_ordering', total_ordering), wraps=nf('wraps', wraps), partial=nf('partial', partial), lru_cache=nf('lru_cache', lru_cache),
           cache=nf('cache', lambda I, f: I.call(lru_cache(I, None), [f])), reduce=nf('reduce', reduce),
           cmp_to_key=nf('cmp_to_key', cmp_to_key), cached_property=CP, singledispatch=nf('singledispatch', singledispatch),
           update_wrapper=nf('update_wrapper', lambda I, f, w, *a: I.call(wraps(I, w), [f])))

    # itertools
    it = {}
    import itertools as _it
    it['chain'] = nf('chain', lambda I, *a: AIter(x for y in a for x in I.iterate(y)))
    it['chain'].attrs['from_iterable'] = nf('from_iterable', lambda I, a: AIter(x for y in I.iterate(a) for x in I.iterate(y)))
    it['product'] = nf('product', lambda I, *a, repeat=1: AIter(_it.product(*[I.to_list(x) for x in a], repeat=repeat)))
    it['repeat'] = nf('repeat', lambda I, x, *n: AIter(_it.repeat(x, *n)))
    it['count'] = nf('count', lambda I, *a: AIter(_it.count(*a)))
    it['islice'] = nf('islice', lambda I, x, *a: AIter(_it.islice(I.iterate(x), *a)))
    it['zip_longest'] = nf('zip_longest', lambda I, *a, fillvalue=None: AIter(_it.zip_longest(*[I.to_list(x) for x in a], fillvalue=fillvalue)))
    it['starmap'] = nf('starmap', lambda I, f, a: AIter(I.call(f, I.to_list(x)) for x in I.iterate(a)))
    it['combinations'] = nf('combinations', lambda I, a, r: AIter(_it.combinations(I.to_list(a), r)))
    it['permutations'] = nf('permutations', lambda I, a, *r: AIter(_it.permutations(I.to_list(a), *r)))
    it['takewhile'] = nf('takewhile', lambda I, f, a: AIter(_it.takewhile(lambda x: I.truth(I.call(f, [x])), I.iterate(a))))
    it['dropwhile'] = nf('dropwhile', lambda I, f, a: AIter(_it.dropwhile(lambda x: I.truth(I.call(f, [x])), I.iterate(a))))
    it['filterfalse'] = nf('filterfalse', lambda I, f, a: AIter(x for x in I.iterate(a) if not I.truth(x if f is None else I.call(f, [x]))))
    it['accumulate'] = nf('accumulate', lambda I, a, *f: AIter(_it.accumulate(I.to_list(a), (lambda x, y: I.call(f[0], [x, y])) if f else (lambda x, y: I.binop('add', x, y)))))

    def groupby(I, a, key=None):
        out = []
        for x in I.iterate(a):
            k = I.call(key, [x]) if key is not None else x
            if out and I.truth(I.compare('eq', out[-1][0], k)):
                out[-1][1].append(x)
            else:
                out.append((k, [x]))
        return AIter(iter([(k, AIter(iter(g))) for k, g in out]))
    it['groupby'] = nf('groupby', groupby)
    module('itertools', **it)

    # collections
    OD = AClass('OrderedDict', (DICT,), {}, 'collections')
    OD.ns['move_to_end'] = NativeFn('move_to_end', lambda I, s, k, last=True: (dset(I, s, k, ddel(I, s, k)) if last else _undec('move_to_end')))
    DD = AClass('defaultdict', (DICT,), {}, 'collections')

    def dd_init(I, s, factory=None, *a, **k):
        s.attrs['default_factory'] = factory
        I.call(DICT.ns['__init__'], [s] + list(a), k)
    DD.ns['__init__'] = NativeFn('__init__', dd_init)

    def dd_missing(I, s, k):
        if s.attrs['default_factory'] is None:
            raise I.exc('KeyError', k)
        v = I.call(s.attrs['default_factory'], [])
        dset(I, s, k, v)
        return v
    DD.ns['__missing__'] = NativeFn('__missing__', dd_missing)
    CO = AClass('Counter', (DICT,), {}, 'collections')

    def co_update(I, s, it=(), **k):
        if isinstance(it, ADict):
            for a, b in dict_pairs(I, it):
                dset(I, s, a, I.binop('add', dget(I, s, a, 0), b))
        else:
            for x in I.iterate(it):
                dset(I, s, x, I.binop('add', dget(I, s, x, 0), 1))
    CO.ns['__init__'] = NativeFn('__init__', co_update)
    CO.ns['update'] = NativeFn('update', co_update)
    CO.ns['__missing__'] = NativeFn('__missing__', lambda I, s, k: 0)

    def namedtuple(I, name, fields, **k):
        names = fields.replace(',', ' ').split() if isinstance(fields, str) else [x for x in I.iterate(fields)]
        C = AClass(name, (OBJECT,), {}, 'collections')

        def new(I, cls, *a, **kw):
            if len(a) + len(kw) != len(names):
                raise I.exc('TypeError', '%s() argument count' % name)
            o = Obj(cls)
            for n, v in list(zip(names, a)) + list(kw.items()):
                o.attrs[n] = v
            return o
        tup = lambda s: tuple(s.attrs[n] for n in names)
        C.ns['__new__'] = NativeFn('__new__', new, bind=False)
        C.ns['__init__'] = NativeFn('__init__', lambda I, s, *a, **k: None)
        C.ns['__iter__'] = NativeFn('__iter__', lambda I, s: AIter(iter(tup(s))))
        C.ns['__len__'] = NativeFn('__len__', lambda I, s: len(names))
        C.ns['__getitem__'] = NativeFn('__getitem__', lambda I, s, k: seq_getitem(I, tup(s), k))
        C.ns['__eq__'] = NativeFn('__eq__', lambda I, s, o: I.truth(I.compare('eq', tup(s), tup(o) if isinstance(o, Obj) else o)))
        C.ns['__hash__'] = NativeFn('__hash__', lambda I, s: hash_of(I, tup(s)))
        C.ns['_fields'] = tuple(names)
        C.ns['__match_args__'] = tuple(names)
        C.ns['_replace'] = NativeFn('_replace', lambda I, s, **k: new(I, s.cls, **{**s.attrs, **k}))
        C.ns['_make'] = AClassMethod(NativeFn('_make', lambda I, c, it: new(I, c, *I.to_list(it))))
        return C
    colls = module('collections', OrderedDict=OD, defaultdict=DD, Counter=CO, namedtuple=nf('namedtuple', namedtuple))
    abc = {}

    def acls(name, test):
        c = AClass(name, (OBJECT,), {}, 'abc')
        c.instancecheck = lambda I, v: test(I, v)
        abc[name] = c
        return c
    has = lambda *n: (lambda I, v: all(type_of(v).lookup(x) not in (MISSING, None) for x in n))
    acls('Mapping', lambda I, v: isinstance(v, ADict))
    acls('MutableMapping', lambda I, v: isinstance(v, ADict))
    acls('Iterable', has('__iter__'))
    acls('Sized', has('__len__'))
    acls('Hashable', has('__hash__'))
    acls('Callable', lambda I, v: isinstance(v, (AFunc, NativeFn, BoundMethod, AClass)) or hasattr(v, 'native_call'))
    acls('Sequence', lambda I, v: isinstance(v, (tuple, AList, str, range)))
    acls('MutableSequence', lambda I, v: isinstance(v, AList))
    acls('Set', lambda I, v: isinstance(v, ASet))
    acls('Iterator', lambda I, v: isinstance(v, AIter))
    acls('Container', has('__contains__'))
    acls('Collection', has('__contains__', '__iter__', '__len__'))
    module('collections.abc', **abc)
    colls.ns['abc'] = M['collections.abc']
    num = {}

    def ncls(name, kinds):
        c = AClass(name, (OBJECT,), {}, 'numbers')

        def test(I, v):
            if isinstance(v, (int, SNum)):
                return kind_of(v) in kinds
            if isinstance(v, AArr) and npmodel.is_scalar_cls(v.cls):
                return {'f': 'float', 'i': 'int', 'u': 'int', 'c': 'complex', 'b': 'none'}.get(v.dtype.kind) in kinds
            return False
        c.instancecheck = test
        num[name] = c
    ncls('Number', ('int', 'bool', 'float', 'complex'))
    ncls('Complex', ('int', 'bool', 'float', 'complex'))
    ncls('Real', ('int', 'bool', 'float'))
    ncls('Rational', ('int', 'bool'))
    ncls('Integral', ('int', 'bool'))
    module('numbers', **num)

    # re
    rx = {}
    for name in ('compile', 'sub', 'split', 'match', 'search', 'fullmatch', 'findall', 'finditer', 'escape', 'subn'):
        rx[name] = nf(name, lambda I, *a, name=name, **k: host_call(I, getattr(re, name), a, k))
    for name in ('I', 'IGNORECASE', 'X', 'VERBOSE', 'U', 'UNICODE', 'S', 'DOTALL', 'M', 'MULTILINE', 'A', 'ASCII'):
        rx[name] = int(getattr(re, name))
    rx['error'] = EXC['ValueError']
    rx['Pattern'] = AClass('Pattern', (OBJECT,), {}, 're')
    module('re', **rx)

    # ast
    m = module('ast')
    m.fallback = lambda name: _ast_attr(I, name)
    NV = AClass('NodeVisitor', (OBJECT,), {}, 'ast')

    def nv_visit(I, s, node):
        f = I.getattr(s, 'visit_' + type(node.v).__name__, MISSING)
        return I.call(I.getattr(s, 'generic_visit') if f is MISSING else f, [node])

    def nv_generic(I, s, node):
        for c in ast.iter_child_nodes(node.v):
            I.call(I.getattr(s, 'visit'), [wrap_host(I, c)])
    NV.ns['visit'] = NativeFn('visit', nv_visit)
    NV.ns['generic_visit'] = NativeFn('generic_visit', nv_generic)
    m.ns['NodeVisitor'] = NV

    # math
    mm = module('math', pi=SNum(T.const(math.pi), 'float'), e=SNum(T.const(math.e), 'float'),
                inf=SNum(T.const(math.inf), 'float'), nan=SNum(T.const(math.nan), 'float'),
                tau=SNum(T.const(math.tau), 'float'))

    def mathfn(name):
        def f(I, *a):
            ns = [npmodel.as_number(I, x) for x in a]
            if any(n is None for n in ns):
                raise I.exc('TypeError', 'must be real number')
            if name == 'sqrt':
                return SNum(T.power(ns[0].t, T.HALF), 'float')
            if name == 'fabs':
                return SNum(T.absolute(ns[0].t), 'float')
            if name == 'pow':
                return SNum(T.power(ns[0].t, ns[1].t), 'float')
            if name == 'isclose' and any(n.t.op != 'const' for n in ns):
                raise Undecided('math.isclose')
            if name in ('isnan', 'isinf', 'isfinite') and ns[0].t.op == 'const':
                return name == 'isfinite'
            if name in ('isnan', 'isinf', 'isfinite') and ns[0].t.op == 'inf':
                return getattr(math, name)(float(ns[0].t.args[0]))
            if name in ('floor', 'ceil', 'trunc'):
                if ns[0].t.op == 'const':
                    return int(getattr(math, name)(ns[0].t.args[0]))
                return SNum(T.fn(name, ns[0].t), 'int')
            if name == 'prod':
                raise Undecided('math.prod')
            if all(n.t.op == 'const' for n in ns):
                try:
                    return from_host(I, getattr(math, name)(*[float(n.t.args[0]) for n in ns]))
                except (ValueError, OverflowError, TypeError) as e:
                    raise I.exc(type(e).__name__, str(e))
            return SNum(npmodel.ufunc_term(name, [n.t for n in ns]), 'float')
        return nf(name, f)
    mm.fallback = lambda name: mathfn(name) if hasattr(math, name) else _noattr(I, 'math', name)

    def mprod(I, it, start=1):
        r = start
        for x in I.iterate(it):
            r = I.binop('mul', r, x)
        return r
    mm.ns['prod'] = nf('prod', mprod)
    def mfsum(I, it):
        r = SNum(T.ZERO, 'float')
        for x in I.iterate(it):
            r = I.binop('add', r, x)
        return r
    mm.ns['fsum'] = nf('fsum', mfsum)
    mm.ns['gcd'] = nf('gcd', lambda I, *a: math.gcd(*[to_host(I, x) for x in a]))

    # warnings
    CW = AClass('catch_warnings', (OBJECT,), {}, 'warnings')
    CW.ns['__init__'] = NativeFn('__init__', lambda I, s, *a, **k: None)
    CW.ns['__enter__'] = NativeFn('__enter__', lambda I, s: None)
    CW.ns['__exit__'] = NativeFn('__exit__', lambda I, s, *a: None)
    none = lambda n: nf(n, lambda I, *a, **k: None)
    module('warnings', warn=none('warn'), simplefilter=none('simplefilter'), filterwarnings=none('filterwarnings'),
           catch_warnings=CW, warn_explicit=none('warn_explicit'))
    module('logging', getLogger=nf('getLogger', lambda I, *a: Obj(LOG)), debug=none('debug'), info=none('info'),
           warning=none('warning'))
    LOG = AClass('Logger', (OBJECT,), {}, 'logging')
    for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical'):
        LOG.ns[n] = NativeFn(n, lambda I, *a, **k: None)

    # threading
    LOCK = AClass('lock', (OBJECT,), {}, 'threading')
    LOCK.ns['__enter__'] = NativeFn('__enter__', lambda I, s: True)
    LOCK.ns['__exit__'] = NativeFn('__exit__', lambda I, s, *a: None)
    LOCK.ns['acquire'] = NativeFn('acquire', lambda I, s, *a, **k: True)
    LOCK.ns['release'] = NativeFn('release', lambda I, s: None)
    LOCAL = AClass('local', (OBJECT,), {}, 'threading')
    module('threading', RLock=nf('RLock', lambda I: Obj(LOCK)), Lock=nf('Lock', lambda I: Obj(LOCK)), local=LOCAL)

    # contextlib
    SUP = AClass('suppress', (OBJECT,), {}, 'contextlib')
    SUP.ns['__init__'] = NativeFn('__init__', lambda I, s, *a: s.attrs.update(e=tuple(a)))
    SUP.ns['__enter__'] = NativeFn('__enter__', lambda I, s: None)
    SUP.ns['__exit__'] = NativeFn('__exit__', lambda I, s, t, v, tb: t is not None and any(t.issub(c) for c in s.attrs['e']))
    NUL = AClass('nullcontext', (OBJECT,), {}, 'contextlib')
    NUL.ns['__init__'] = NativeFn('__init__', lambda I, s, v=None: s.attrs.update(v=v))
    NUL.ns['__enter__'] = NativeFn('__enter__', lambda I, s: s.attrs['v'])
    NUL.ns['__exit__'] = NativeFn('__exit__', lambda I, s, *a: None)

    GCM = AClass('_GeneratorContextManager', (OBJECT,), {}, 'contextlib')

    def gcm_enter(I, s):
        try:
            return next(s.attrs['gen'].it)
        except StopIteration:
            raise I.exc('RuntimeError', "generator didn't yield")

    def gcm_exit(I, s, t, v, tb):
        g = s.attrs['gen'].it
        if t is None:
            try:
                next(g)
            except StopIteration:
                return False
            raise I.exc('RuntimeError', "generator didn't stop")
        from .values import PyRaise
        e = PyRaise(v)
        try:
            g.resume(None, e)
        except StopIteration:
            return True
        except PyRaise as e2:
            if e2.exc is v:
                return False
            raise
        raise I.exc('RuntimeError', "generator didn't stop after throw()")

    GCM.ns['__enter__'] = NativeFn('__enter__', gcm_enter)
    GCM.ns['__exit__'] = NativeFn('__exit__', gcm_exit)

    def contextmanager(I, f):
        def make(I, *a, **k):
            return Obj(GCM, {'gen': I.call(f, list(a), k)})
        g = NativeFn('contextmanager', make)
        for k in ('__name__', '__doc__'):
            g.attrs[k] = I.getattr(f, k, None)
        g.attrs['__wrapped__'] = f
        return g
    module('contextlib', suppress=SUP, nullcontext=NUL, contextmanager=nf('contextmanager', contextmanager))

    # weakref
    class Weak:
        native_type = AClass('ref', (OBJECT,), {}, 'weakref')

        def __init__(self, v):
            self.v = v

        def native_call(self, I, a, k):
            return self.v
    WD = AClass('WeakValueDictionary', (DICT,), {}, 'weakref')
    WK = AClass('WeakKeyDictionary', (DICT,), {}, 'weakref')
    module('weakref', ref=nf('ref', lambda I, v, *a: Weak(v)), WeakValueDictionary=WD, WeakKeyDictionary=WK)

    # inspect, os, sys, string, types, typing
    module('inspect', isclass=nf('isclass', lambda I, v: isinstance(v, AClass)),
           isfunction=nf('isfunction', lambda I, v: isinstance(v, AFunc)),
           getdoc=nf('getdoc', lambda I, v: I.getattr(v, '__doc__', None)))
    env = ADict(DICT)
    module('os', environ=env, sep='/', linesep='\n', getenv=nf('getenv', lambda I, k, d=None: d))
    module('sys', version_info=(3, 12, 3, 'final', 0), modules=ADict(DICT), maxsize=2 ** 63 - 1, platform='linux',
           byteorder='little', flags=None, hexversion=0x030c03f0)
    FI = Obj(AClass('float_info', (OBJECT,), {}, 'sys'), {'epsilon': SNum(T.const(2.0 ** -52), 'float'),
                                                          'max': SNum(T.const(1.7976931348623157e308), 'float'),
                                                          'min': SNum(T.const(2.2250738585072014e-308), 'float')})
    M['sys'].ns['float_info'] = FI
    import string as _string
    module('string', **{k: getattr(_string, k) for k in ('ascii_letters', 'digits', 'ascii_lowercase',
                                                         'ascii_uppercase', 'punctuation', 'whitespace',
                                                         'hexdigits', 'printable')})
    NSP = AClass('SimpleNamespace', (OBJECT,), {}, 'types')
    NSP.ns['__init__'] = NativeFn('__init__', lambda I, s, **k: s.attrs.update(k))
    MPR = AClass('mappingproxy', (OBJECT,), {}, 'types')
    MPR.ns['__init__'] = NativeFn('__init__', lambda I, s, d: s.attrs.update(_d=d))
    for n in ('__getitem__', '__contains__', '__len__', '__iter__'):
        MPR.ns[n] = NativeFn(n, lambda I, s, *a, n=n: I.call(I.bind(I.type_of(s.attrs['_d']).lookup(n), s.attrs['_d'], I.type_of(s.attrs['_d'])), list(a)))
    for n in ('get', 'items', 'keys', 'values', 'copy'):
        MPR.ns[n] = NativeFn(n, lambda I, s, *a, n=n: I.call(I.getattr(s.attrs['_d'], n), list(a)))
    module('types', SimpleNamespace=NSP, MappingProxyType=MPR, FunctionType=FUNCTION, MethodType=METHOD, ModuleType=MODULE, NoneType=NONETYPE,
           BuiltinFunctionType=NATIVEF)

    class Typ:
        native_type = AClass('typing', (OBJECT,), {}, 'typing')
        native_type.ns['__getitem__'] = NativeFn('__getitem__', lambda I, s, k: s)
        native_type.ns['__or__'] = NativeFn('__or__', lambda I, s, k: s)

        def native_call(self, I, a, k):
            return self
    ty = module('typing', TYPE_CHECKING=False, cast=nf('cast', lambda I, t, v: v), overload=nf('overload', lambda I, f: f),
                NamedTuple=None)
    ty.fallback = lambda name: Typ()
    te = module('typing_extensions', TYPE_CHECKING=False)
    te.fallback = lambda name: Typ()
    module('__future__', annotations=None, division=None, print_function=None, absolute_import=None)
    un = module('unittest')
    un.fallback = lambda name: nf(name, lambda I, *a, **k: _undec('unittest'))
    module('abc', ABCMeta=AClass('ABCMeta', (TYPE,), {}, 'abc'), ABC=AClass('ABC', (OBJECT,), {}, 'abc'), abstractmethod=nf('abstractmethod', lambda I, f: f))
    module('time', time=nf('time', lambda I: SNum(T.sym('now', True), 'float')))

    # fractions
    FR = AClass('Fraction', (OBJECT,), {}, 'fractions')

    def frac_new(I, cls, a=0, b=None):
        raise Undecided('fractions.Fraction')
    FR.ns['__new__'] = NativeFn('__new__', frac_new, bind=False)
    module('fractions', Fraction=FR)
    DEC = AClass('Decimal', (OBJECT,), {}, 'decimal')
    DEC.ns['__new__'] = NativeFn('__new__', frac_new, bind=False)
    module('decimal', Decimal=DEC)

    # scipy may or may not be installed
    def scipy():
        if paths.choose(2, 'scipy installed') == 0:
            m = AModule('scipy.integrate', {'trapezoid': nf('trapezoid', npmodel.np_trapezoid)})
            return m
        raise I.exc('ModuleNotFoundError', "No module named 'scipy'")
    M['scipy.integrate'] = scipy
    M['scipy'] = scipy


def undecided_fn(name):
    return nf(name, lambda I, *a, **k: _undec(name))


def _undec(what):
    raise Undecided(what)


def _noattr(I, mod, name):
    raise I.exc('AttributeError', 'module %r has no attribute %r' % (mod, name))


def _ast_attr(I, name):
    if name == 'parse':
        return nf('parse', lambda I, s, filename='', mode='exec', **k: wrap_host(I, host_parse(I, s, mode)))
    if name == 'walk':
        def walk(I, h):
            return AIter(wrap_host(I, n) for n in ast.walk(h.v))
        return nf('walk', walk)
    if name == 'literal_eval':
        return nf('literal_eval', lambda I, s: host_call(I, ast.literal_eval, [s], {}))
    if name in ('iter_child_nodes', 'iter_fields', 'dump', 'unparse'):
        return nf(name, lambda I, *a, **k: host_call(I, getattr(ast, name), a, k))
    t = getattr(ast, name, None)
    if isinstance(t, type) and issubclass(t, ast.AST):
        return ast_class(t)
    if t is None:
        _noattr(I, 'ast', name)
    raise Undecided('ast.%s' % name)


def host_module(I, name):
    """other modules: opaque, every use is undecided"""
    import importlib.util
    top = name.split('.')[0]
    try:
        if importlib.util.find_spec(top) is None:
            return None
    except (ImportError, ValueError):
        return None
    if top not in __import__('sys').stdlib_module_names:
        return None
    m = AModule(name, {})

    def fb(attr):
        return nf('%s.%s' % (name, attr), lambda I, *a, **k: _undec('%s.%s' % (name, attr)))
    m.fallback = fb
    return m
