"""NumPy functions the library does not call today but a change to it might:
selection, joining, iteration and linear algebra of plain arrays."""
import itertools

from . import paths
from . import term as T
from . import builtins_ as B
from .paths import Undecided
from .values import *
from .npmodel import *
from .npmodel import _fold

CAP = 64
_norm = [None]


def small(I, s, what):
    """the shape as a tuple of small ints"""
    r = tuple(pydim(d) for d in s)
    n = 1
    for d in r:
        if not isinstance(d, int):
            raise Undecided('%s of a symbolic number of elements' % what)
        n *= d
    if n > CAP:
        raise Undecided('%s of many elements' % what)
    return r


def flat_terms(I, a, what):
    """the elements of an array of known shape, in C order"""
    s = small(I, shape_of(a), what)
    t = val(a)
    if T.is_scalar(t):
        n = 1
        for d in s:
            n *= d
        return [t] * n
    out = []
    for k in itertools.product(*[range(d) for d in s]):
        x = t
        for i in k:
            x = select(x, ('sel', (('i', i),)))
        out.append(x)
    return out


def build(terms, dtype):
    n = len(terms)
    if n and all(x is terms[0] for x in terms) and T.is_scalar(terms[0]):
        return plain(terms[0], (n,), dtype)
    return plain(T.fn('arr', *terms) if n else T.ZERO, (n,), dtype)


class Flat:
    """ndarray.flat"""

    def __init__(self, a):
        self.a = a

    def native_getattr(self, I, name):
        if name == '__class__':
            return FLATITER
        if name == 'base':
            return self.a
        if name in ('copy', '__array__'):
            return NativeFn(name, lambda I, *r, **k: base_array(
                I, I.call(I.getattr(mkview(I, self.a, NDARRAY), 'flatten'), []), None, True), bind=False)
        m = FLATITER.lookup(name)
        if m is not MISSING:
            return I.bind(m, self, FLATITER)
        if name in ('coords', 'index'):
            raise Undecided('flatiter.%s' % name)
        raise I.exc('AttributeError', name)


def _flat1(I, f):
    a = mkview(I, f.a, NDARRAY)
    if len(a.shape) == 1:
        return a
    return I.call(I.getattr(a, 'reshape'), [-1])


def _flat_iter(I, f):
    x = f.a
    s = small(I, shape_of(x), 'iteration over the elements')

    def g():
        for k in itertools.product(*[range(d) for d in s]):
            t = val(x)
            for i in k:
                t = select(t, ('sel', (('i', i),)))
            yield scalar(t, x.dtype)
    return AIter(g())


FLATITER = AClass('flatiter', (B.OBJECT,), {}, module='numpy')
FLATITER.ns['__iter__'] = NativeFn('__iter__', _flat_iter)
FLATITER.ns['__len__'] = NativeFn('__len__', lambda I, f: pydim(count(shape_of(f.a))))
FLATITER.ns['__getitem__'] = NativeFn('__getitem__', lambda I, f, k: _flat_get(I, f, k))


def _flat_get(I, f, k):
    s = [pydim(d) for d in shape_of(f.a)]
    if isinstance(k, int) and len(s) > 1 and all(isinstance(d, int) for d in s):
        n = 1
        for d in s:
            n *= d
        if not -n <= k < n:
            raise I.exc('IndexError', 'index out of bounds')
        k %= n
        key = []
        for d in reversed(s):
            k, i = divmod(k, d)
            key.append(i)
        return nd_getitem(I, mkview(I, f.a, NDARRAY), tuple(reversed(key)))
    return nd_getitem(I, _flat1(I, f), k)


def _flat_set(I, f, k, v):
    if not f.a.writeable:
        raise I.exc('ValueError', 'array is read-only')
    if len(f.a.shape) != 1:
        raise Undecided('assignment to ndarray.flat')
    nd_setitem(I, mkview(I, f.a, NDARRAY), k, v)


FLATITER.ns['__setitem__'] = NativeFn('__setitem__', _flat_set)
Flat.native_type = FLATITER


def extend(I0, ns, fn, plainly, nf):
    """the functions"""

    # -------------------------------------------------------------- iteration
    @fn('iterable')
    def iterable(I, y):
        try:
            I.iterate(y)
        except PyRaise as e:
            if not e.exc.cls.issub(B.EXC['TypeError']):
                raise
            return False
        return True

    @fn('ndindex')
    def ndindex(I, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, AList)):
            shape = tuple(I.iterate(shape[0]))
        s = small(I, parse_shape(I, tuple(shape)), 'ndindex')
        return AIter(itertools.product(*[range(d) for d in s]))

    @fn('ndenumerate')
    def ndenumerate(I, a):
        x = base_array(I, a)
        s = small(I, shape_of(x), 'ndenumerate')

        def g():
            for k in itertools.product(*[range(d) for d in s]):
                y = nd_getitem(I, x, k) if k else scalar(val(x), x.dtype)
                yield (k, y)
        return AIter(g())

    # -------------------------------------------------------------- selection
    @fn('where')
    def where(I, condition, *xy):
        c = base_array(I, condition)
        if not xy:
            return I.call(I.getattr(c, 'nonzero'), [])
        if len(xy) != 2:
            raise I.exc('ValueError', 'either both or neither of x and y should be given')
        x, y = [base_array(I, v) for v in xy]
        dt = result_dtype([((py_dtype(o), True) if is_pynum(o) else (v.dtype, False)) for o, v in zip(xy, (x, y))])
        shape = tuple(broadcast(I, [shape_of(c), shape_of(x), shape_of(y)]))
        q = cast_t(val(c), c.dtype, ns_bool(I))
        a, b = cast_t(val(x), x.dtype, dt), cast_t(val(y), y.dtype, dt)
        if a is b:
            return plain(a, shape, dt)
        if T.is_scalar(q):
            return plain(a if paths.truth(q) else b, shape, dt)
        if len(shape) == 1 and isinstance(pydim(shape[0]), int) and len(shape_of(c)) == 1:
            els = [element(q, i) for i in range(pydim(shape[0]))]
            els = [e if e is None else _fold(e) for e in els]
            if all(e is not None and e.op == 'const' for e in els):
                def el(t, s, i):
                    return t if T.is_scalar(t) else select(t, ('sel', (('i', 0 if s[0] == 1 else i),)))
                return build([el(a, shape_of(x), i) if e.args[0] else el(b, shape_of(y), i)
                              for i, e in enumerate(els)], dt)
        return plain(T.fn('where', q, a, b), shape, dt)

    def ns_bool(I):
        return to_dtype(I, ns['bool_'])

    @fn('unique')
    def unique(I, ar, return_index=False, return_inverse=False, return_counts=False, axis=None, equal_nan=True):
        if return_index or return_inverse or return_counts or axis is not None:
            raise Undecided('unique with further results')
        x = plainly(I, ar)
        t = val(x)
        n = count(shape_of(x))
        if T.is_const_eq(n, 0):
            return plain(t, (0,), x.dtype)
        if all(isinstance(d, int) and d <= CAP for d in shape_of(x)):
            e = flat_terms(I, x, 'unique')
            if all(v.op == 'const' for v in e):
                return build(sorted(set(e), key=lambda v: v.args[0]), x.dtype)
        lo, hi = extremum('min', t, 'all'), extremum('max', t, 'all')
        if lo is hi or paths.truth(T.fn('eq', lo, hi)):
            return plain(lo, (1,), x.dtype)
        d = fresh_dim('uniq', T.positive_factor(t)[1])
        paths.assume(T.fn('lt', T.ONE, d), True)
        s, r = T.positive_factor(t)
        return plain(T.mul(s, T.fn('unique', r)), (d,), x.dtype)

    def close(I, a, b, rtol, atol, equal_nan):
        x, y = plainly(I, a), plainly(I, b)
        e = [val(plainly(I, v)) for v in (rtol, atol)]
        d = T.sub(val(x), val(y))
        if d is T.ZERO:
            return plain(T.ONE, tuple(broadcast(I, [shape_of(x), shape_of(y)])), ns_bool(I))
        t = T.fn('le', T.absolute(d), T.add(e[1], T.mul(e[0], T.absolute(val(y)))))
        return plain(_fold(t), tuple(broadcast(I, [shape_of(x), shape_of(y)])), ns_bool(I))

    @fn('isclose')
    def isclose(I, a, b, rtol=None, atol=None, equal_nan=False):
        r = close(I, a, b, *_tol(rtol, atol), equal_nan)
        return r if shape_of(r) else scalar(val(r), r.dtype)

    def _tol(rtol, atol):
        return (SNum(T.const(1e-5), 'float') if rtol is None else rtol,
                SNum(T.const(1e-8), 'float') if atol is None else atol)

    @fn('allclose')
    def allclose(I, a, b, rtol=None, atol=None, equal_nan=False):
        r = reduction(I, 'all', close(I, a, b, *_tol(rtol, atol), equal_nan))
        return I.truth(r)

    # ---------------------------------------------------------------- joining
    def parts(I, seq):
        l = [plainly(I, x) for x in I.iterate(seq)]
        if not l:
            raise I.exc('ValueError', 'need at least one array to concatenate')
        return l

    def concat(I, l, ax, dtype=None):
        nd = len(shape_of(l[0]))
        for x in l:
            if len(shape_of(x)) != nd:
                raise I.exc('ValueError', 'all the input array dimensions must match')
        dt = result_dtype([(x.dtype, False) for x in l]) if dtype is None else to_dtype(I, dtype)
        ts = [cast_t(val(x), x.dtype, dt) for x in l]
        for i in range(nd):
            if i == ax:
                continue
            for x in l[1:]:
                d, e = shape_of(x)[i], shape_of(l[0])[i]
                if d != e and (isinstance(d, int) and isinstance(e, int) or not paths.truth(T.fn('eq', dterm(d), dterm(e)))):
                    raise I.exc('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
        if len(l) == 1:
            return plain(ts[0], shape_of(l[0]), dt)
        n = T.ZERO
        for x in l:
            n = T.add(n, dterm(shape_of(x)[ax]))
        shape = list(shape_of(l[0]))
        shape[ax] = dim(n)
        if all(T.is_scalar(t) and t is ts[0] for t in ts):
            return plain(ts[0], shape, dt)
        if nd <= 2 and all(isinstance(d, int) and d <= CAP for d in shape):
            def rows(x, t):
                return [t if T.is_scalar(t) else select(t, ('sel', (('i', i),))) for i in range(shape_of(x)[0])]
            if ax == 0:
                els = [e for x, t in zip(l, ts) for e in rows(x, t)]
            else:
                els = []
                for i in range(shape[0]):
                    row = []
                    for x, t in zip(l, ts):
                        r = rows(x, t)[i]
                        row += [r if T.is_scalar(r) else select(r, ('sel', (('i', j),))) for j in range(shape_of(x)[1])]
                    els.append(T.fn('arr', *row))
            if els:
                return plain(T.fn('arr', *els), shape, dt)
        s, _ = T.positive_factor(ts[0])
        return plain(T.mul(s, T.fn('concat', ax, *[T.div(t, s) for t in ts])), shape, dt)

    def joined(I, l, axis, out, dtype, casting):
        if out is not None:
            raise Undecided('concatenate(out)')
        if axis is None:
            l = [I.call(I.getattr(x, 'ravel'), []) for x in l]
            axis = 0
        nd = len(shape_of(l[0]))
        if nd == 0:
            raise I.exc('ValueError', 'zero-dimensional arrays cannot be concatenated')
        return concat(I, l, norm_axis(I, axis, nd)[0], dtype)

    @fn('concatenate', 'concat')
    def concatenate(I, arrays, axis=0, out=None, dtype=None, casting='same_kind'):
        return joined(I, parts(I, arrays), axis, out, dtype, casting)

    @fn('stack')
    def stack(I, arrays, axis=0, out=None, dtype=None, casting='same_kind'):
        l = parts(I, arrays)
        nd = len(shape_of(l[0])) + 1
        k = norm_axis(I, axis, nd)[0]
        l = [lift(I, x, k) for x in l]
        return joined(I, l, k, out, dtype, casting)

    def lift(I, x, k):
        s = list(shape_of(x))
        s.insert(k, 1)
        if is_generic(x) or len(s) == 1:
            return plain(val(x), tuple(s), x.dtype)
        return I.call(ns['expand_dims'], [x, k])

    def atl(I, x, n):
        return I.call(ns['atleast_%dd' % n], [x])

    @fn('vstack')
    def vstack(I, tup, dtype=None, casting='same_kind'):
        l = [x if len(shape_of(x)) > 1 else lift(I, atl(I, x, 1), 0) for x in parts(I, tup)]
        return joined(I, l, 0, None, dtype, casting)

    @fn('hstack')
    def hstack(I, tup, dtype=None, casting='same_kind'):
        l = [atl(I, x, 1) for x in parts(I, tup)]
        return joined(I, l, 0 if len(shape_of(l[0])) == 1 else 1, None, dtype, casting)

    @fn('append')
    def append(I, arr, values, axis=None):
        return joined(I, [plainly(I, arr), plainly(I, values)], axis, None, None, None)

    # ----------------------------------------------------------- rearranging
    def axes_of(I, x, v):
        n = len(shape_of(x))
        l = [B.concrete_index(I, y) for y in I.iterate(v)] if isinstance(v, (tuple, AList)) else [B.concrete_index(I, v)]
        for y in l:
            if not -n <= y < n:
                raise I.exc(AXIS_ERROR, 'axis is out of bounds')
        return [y % n for y in l]

    @fn('moveaxis')
    def moveaxis(I, a, source, destination):
        x = a if isinstance(a, AArr) else as_array(I, a)
        s, d = axes_of(I, x, source), axes_of(I, x, destination)
        if len(s) != len(d):
            raise I.exc('ValueError', '`source` and `destination` arguments must have the same number of elements')
        order = [n for n in range(len(shape_of(x))) if n not in s]
        for k, v in sorted(zip(d, s)):
            order.insert(k, v)
        return I.call(I.getattr(x, 'transpose'), [tuple(order)])

    @fn('rollaxis')
    def rollaxis(I, a, axis, start=0):
        x = a if isinstance(a, AArr) else as_array(I, a)
        n = len(shape_of(x))
        ax = axes_of(I, x, axis)[0]
        st = B.concrete_index(I, start)
        if st < 0:
            st += n
        if not 0 <= st < n + 1:
            raise I.exc(AXIS_ERROR, 'start is out of bounds')
        if ax < st:
            st -= 1
        if ax == st:
            return I.getitem(x, Ellipsis)
        l = list(range(n))
        l.remove(ax)
        l.insert(st, ax)
        return I.call(I.getattr(x, 'transpose'), [tuple(l)])

    @fn('tile')
    def tile(I, A, reps):
        x = plainly(I, A)
        k = B.to_host(I, reps)
        if len(shape_of(x)) > 1 or not isinstance(k, int):
            raise Undecided('tile')
        e = flat_terms(I, x, 'tile')
        return build(e * k, x.dtype)

    @fn('roll')
    def roll(I, a, shift, axis=None):
        x = plainly(I, a)
        t = val(x)
        if not T.is_scalar(t):
            t = linear('roll', t, val(as_array(I, shift)), 'all' if axis is None else norm_axis(I, axis, len(shape_of(x))))
        return plain(t, shape_of(x), x.dtype)

    @fn('ravel_multi_index')
    def ravel_multi_index(I, *a, **k):
        raise Undecided('ravel_multi_index')

    # -------------------------------------------------------- linear algebra
    @fn('outer')
    def outer(I, a, b, out=None):
        x, y = plainly(I, a), plainly(I, b)
        if out is not None or len(shape_of(x)) != 1 or len(shape_of(y)) != 1:
            raise Undecided('outer')
        return I.binop('mul', lift(I, x, 1), lift(I, y, 0))

    def dot1(I, a, b):
        x, y = plainly(I, a), plainly(I, b)
        if not shape_of(x) or not shape_of(y):
            return I.binop('mul', x, y)
        if len(shape_of(x)) == len(shape_of(y)) == 1:
            broadcast_same(I, x, y)
            return reduction(I, 'sum', I.binop('mul', x, y))
        return I.binop('matmul', x, y)

    def broadcast_same(I, x, y):
        d, e = shape_of(x)[0], shape_of(y)[0]
        if d != e and (isinstance(d, int) and isinstance(e, int) or not paths.truth(T.fn('eq', dterm(d), dterm(e)))):
            raise I.exc('ValueError', 'shapes not aligned')
    fn('dot')(lambda I, a, b, out=None: dot1(I, a, b) if out is None else undecided('dot(out)'))

    @fn('inner')
    def inner(I, a, b):
        x, y = plainly(I, a), plainly(I, b)
        if len(shape_of(x)) > 1 or len(shape_of(y)) > 1:
            raise Undecided('inner')
        return dot1(I, x, y)

    def norm(I, x, ord=None, axis=None, keepdims=False):
        from .npfuncs import UF
        a = base_array(I, x)
        if ord not in (None, 2) or a.dtype.kind == 'c' or axis is None and ord is not None and len(shape_of(a)) != 1 or isinstance(axis, tuple):
            raise Undecided('numpy.linalg.norm')
        if a.dtype.kind not in 'f':
            a = I.call(I.getattr(a, 'astype'), [to_dtype(I, None)])
        return ufunc_call(I, UF['sqrt'], [reduction(I, 'sum', I.binop('mul', a, a), axis, keepdims=I.truth(keepdims))], {})
    _norm[0] = nf('norm', norm)

    @fn('count_nonzero')
    def count_nonzero(I, a, axis=None, *, keepdims=False):
        from .npfuncs import UF
        a = as_array(I, ufunc_call(I, UF['not_equal'], [base_array(I, a), 0], {}))
        r = reduction(I, 'sum', a, axis, keepdims=I.truth(keepdims))
        return r if axis is not None or keepdims else pynum(val(as_array(I, r)), as_array(I, r).dtype)

    # ----------------------------------------------------------- construction
    @fn('linspace')
    def linspace(I, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
        a, b = plainly(I, start), plainly(I, stop)
        n = B.to_host(I, num)
        if shape_of(a) or shape_of(b) or not isinstance(n, int) or n > CAP or retstep or dtype is not None or n < 1:
            raise Undecided('linspace')
        div = n - 1 if I.truth(endpoint) else n
        if div == 0:
            return build([val(a)] * n, to_dtype(I, None))
        step = T.div(T.sub(val(b), val(a)), T.const(div))
        return build([T.add(val(a), T.mul(T.const(i), step)) for i in range(n)], to_dtype(I, None))

    @fn('require')
    def require(I, a, dtype=None, requirements=None, **k):
        if requirements:
            raise Undecided('require(requirements)')
        return any_array(I, a, None if dtype is None else to_dtype(I, dtype))

    @fn('vectorize')
    def vectorize(I, f=None, *r, **k):
        if f is None or r or k:
            raise Undecided('vectorize arguments')
        return nf('vectorized', lambda I, *args: mapped(I, f, args, False))

    @fn('frompyfunc')
    def frompyfunc(I, f, nin, nout, **k):
        if B.concrete_index(I, nout) != 1:
            raise Undecided('frompyfunc with several results')
        return nf('frompyfunc', lambda I, *args: mapped(I, f, args, True))

    def mapped(I, f, args, obj):
        l = [plainly(I, x) for x in args]
        if any(len(shape_of(x)) > 1 for x in l):
            raise Undecided('elementwise function of a matrix')
        n = 1
        for x in l:
            if shape_of(x):
                k = small(I, shape_of(x), 'elementwise function')[0]
                if n != 1 and k not in (1, n):
                    raise I.exc('ValueError', 'shape mismatch')
                n = max(n, k) if k else 0
        if obj:
            raise Undecided('object arrays')
        if not any(shape_of(x) for x in l):
            r = as_array(I, I.call(f, [scalar(val(x), x.dtype) for x in l]))
            return plain(val(r), (), r.dtype)
        if n == 0:
            raise I.exc('ValueError', 'cannot call `vectorize` on size 0 inputs')
        es = [flat_terms(I, x, 'elementwise function') for x in l]
        rs = []
        for i in range(n):
            rs.append(I.call(f, [scalar(e[0 if len(e) == 1 else i], x.dtype) for e, x in zip(es, l)]))
        rs = [as_array(I, r) for r in rs]
        if any(shape_of(r) for r in rs):
            raise I.exc('ValueError', 'setting an array element with a sequence.')
        return build([cast_t(val(r), r.dtype, rs[0].dtype) for r in rs], rs[0].dtype)

    def undecided(msg):
        raise Undecided(msg)

    def info(name, **fields):
        def f(I, d=None):
            dt = to_dtype(I, d)
            if dt.name not in fields:
                raise Undecided('%s(%s)' % (name, dt.name))
            return Obj(AClass(name, (B.OBJECT,), {}, module='numpy'), dict(fields[dt.name], dtype=dt))
        fn(name)(f)

    def fl(**k):
        return {n: scalar(T.const(v), to_dtype(I0, None)) for n, v in k.items()}
    info('finfo', float64=fl(eps=2.0 ** -52, epsneg=2.0 ** -53, max=1.7976931348623157e308,
                             min=-1.7976931348623157e308, tiny=2.2250738585072014e-308,
                             smallest_normal=2.2250738585072014e-308, resolution=1e-15))
    info('iinfo', **{'int%d' % n: {'max': 2 ** (n - 1) - 1, 'min': -2 ** (n - 1), 'bits': n} for n in (8, 16, 32, 64)})
